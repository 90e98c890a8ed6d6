// Command run decides one property: it loads /repo's current source together with the
// harness packages (as an overlay), explores every harness symbolically, and replays
// counterexamples natively against the real code.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gosym/sx"
)

const modPath = "github.com/alexispb/mygosnmp"

var (
	prop    = flag.String("prop", "", "property id")
	repo    = flag.String("repo", "/repo", "repository")
	verif   = flag.String("verif", "/verif", "verification directory")
	only    = flag.String("harness", "", "regexp of harness names")
	budget  = flag.Int("budget", 0, "seconds")
	workers = flag.Int("workers", 8, "workers")
	verbose = flag.Bool("v", false, "verbose")
	crash   = flag.Bool("crash", false, "crash on internal errors")
	cpuprof = flag.String("cpuprofile", "", "")
	listAll = flag.Bool("list", false, "list harnesses")
	keepGo  = flag.Bool("all", false, "do not stop at the first confirmed violation")
)

type harnessInfo struct {
	h      *sx.Harness
	pkg    string
	doc    string
	props  []string
	bounds string
}

type nativeRes struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

type runner struct {
	tmp               string
	overlay, roverlay string
	env               []string
	bin, rbin         string
	once              sync.Once
	ronce             sync.Once
	err, rerr         error
}

func main() {
	flag.Parse()
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	sx.Thorough = tier == "thorough"
	sx.SetInternalCrash(*crash)
	if *budget == 0 {
		*budget = 240
		if tier == "thorough" {
			*budget = 3000
		}
	}
	code, err := run(tier, t0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	os.Exit(code)
}

func goEnv() []string {
	e := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GOOS=") || strings.HasPrefix(kv, "GOARCH=") {
			continue
		}
		e = append(e, kv)
	}
	return append(e, "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off")
}

// overlayFiles maps virtual paths under /repo/internal/zzverif to harness files.
func overlayFiles() (map[string]string, []string, error) {
	root := filepath.Join(*verif, "harness", "zzverif")
	files := map[string]string{}
	pk := map[string]bool{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		files[filepath.Join(*repo, "internal", "zzverif", rel)] = p
		if d := filepath.Dir(rel); d != "." {
			pk[d] = true
		}
		return nil
	})
	var pkgs []string
	for d := range pk {
		pkgs = append(pkgs, d)
	}
	sort.Strings(pkgs)
	return files, pkgs, err
}

var nameRE = regexp.MustCompile(`^(C\d\d)+_`)

func propsOf(name string) []string {
	return regexp.MustCompile(`C\d\d`).FindAllString(nameRE.FindString(name), -1)
}

func run(tier string, t0 time.Time) (int, error) {
	files, dirs, err := overlayFiles()
	if err != nil {
		return 2, err
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return 2, err
	}
	defer os.RemoveAll(tmp)

	// load
	ov := map[string][]byte{}
	for v, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			return 2, err
		}
		ov[v] = b
		// the native build uses the same text, whatever happens to the file meanwhile
		q := filepath.Join(tmp, fmt.Sprintf("src%d.go", len(ov)))
		if err := os.WriteFile(q, b, 0o644); err != nil {
			return 2, err
		}
		files[v] = q
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, modPath+"/internal/zzverif/"+d)
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     *repo,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return 2, err
	}
	var broken []string
	good := map[string]bool{}
	for _, p := range pkgs {
		bad := false
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			if strings.HasPrefix(q.PkgPath, modPath) {
				for _, e := range q.Errors {
					bad = true
					broken = append(broken, e.Error())
				}
			}
		})
		if !bad {
			good[p.PkgPath] = true
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := sx.NewProgram(prog, modPath)
	loadT := time.Since(t0)

	// harnesses
	infos := map[string]*harnessInfo{}
	var names []string
	docs := map[string]string{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
					docs["{"+fd.Name.Name+"}"] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
	}
	docRE := regexp.MustCompile(`\{\w+\}`)
	for i, p := range pkgs {
		if !good[p.PkgPath] || spkgs[i] == nil {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !nameRE.MatchString(fd.Name.Name) {
					continue
				}
				n := fd.Name.Name
				infos[n] = &harnessInfo{h: &sx.Harness{Name: n, Fn: spkgs[i].Func(n)}, pkg: p.PkgPath, doc: docRE.ReplaceAllStringFunc(strings.TrimSpace(fd.Doc.Text()), func(k string) string { return docs[k] }), props: propsOf(n)}
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if *listAll {
		for _, n := range names {
			fmt.Println(n, infos[n].pkg)
		}
	}
	var sel []*harnessInfo
	re := regexp.MustCompile(*only)
	for _, n := range names {
		hi := infos[n]
		if strings.Contains(n, "_T_") && tier != "thorough" && *only == "" {
			continue
		}
		if *only != "" && !re.MatchString(n) {
			continue
		}
		for _, p := range hi.props {
			if p == *prop {
				sel = append(sel, hi)
			}
		}
	}
	if len(sel) == 0 {
		if len(broken) > 0 {
			return 2, fmt.Errorf("harness does not compile against the tree: %s", strings.Join(broken, "; "))
		}
		return 2, fmt.Errorf("no harness for %s", *prop)
	}
	for _, s := range spkgs {
		if s != nil {
			s.Build()
		}
	}

	// native runner
	r := &runner{tmp: tmp, env: append(goEnv(), "VERIF_TIER="+tier)}
	if err := r.prepare(files, infos, names); err != nil {
		return 2, err
	}
	go r.binary(false)
	ensureLog := func(f string, a ...interface{}) {
		if *verbose {
			fmt.Fprintf(os.Stderr, f+"\n", a...)
		}
	}
	ensureLog("loaded in %v", loadT)

	byName := map[string]*harnessInfo{}
	var hs []*sx.Harness
	for _, s := range sel {
		byName[s.h.Name] = s
		hs = append(hs, s.h)
	}
	type confirmed struct {
		h, label, kind, native, path string
		vec                          []uint64
	}
	var conf []confirmed
	spurious := map[string]int{}
	tried := map[string]int{}
	notTried := map[string]int{}
	repDir := filepath.Join(*verif, "evidence", "replays")
	onCand := func(h *sx.Harness, v *sx.Violation) bool {
		key := h.Name + "/" + v.Kind + "/" + v.Label
		if tried[key] >= 12 {
			notTried[key]++
			return false
		}
		tried[key]++
		res := r.replay(h.Name, v.Vector, v.Kind == "race")
		for i := 0; i < 40 && v.Unordered && (res.Status == "ok" || res.Status == "assume"); i++ {
			res = r.replay(h.Name, v.Vector, v.Kind == "race")
		}
		ensureLog("candidate %s %s %q vec=%v -> native %s %s", h.Name, v.Kind, v.Label, short(v.Vector), res.Status, res.Label)
		if res.Status == "ok" || res.Status == "assume" || res.Status == "error" {
			spurious[key]++
			return false
		}
		os.MkdirAll(repDir, 0o755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", *prop, h.Name, len(conf)))
		rec := map[string]interface{}{
			"property": *prop, "harness": h.Name, "assertion": v.Label, "kind": v.Kind, "inputs": v.Vector,
			"native_result": res.Status + ": " + res.Label,
			"unordered":     v.Unordered,
			"rerun":         fmt.Sprintf("cd %s && ./check.sh %s replay %s", *verif, *prop, path),
		}
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		conf = append(conf, confirmed{h.Name, v.Label, v.Kind, res.Status + ": " + res.Label, path, v.Vector})
		return !*keepGo
	}
	if flag.NArg() > 0 && flag.Arg(0) == "replay" {
		return r.rerun(flag.Arg(1))
	}

	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ex := &sx.Explorer{
		P: P, Workers: *workers, SolverTO: 20000, OnCandidate: onCand, MaxSteps: 20_000_000,
		Deadline: t0.Add(time.Duration(*budget) * time.Second),
		SampleEvery: func(h string, n int64) bool {
			if n < 16 {
				return true
			}
			// powers of two and a sparse tail
			return n&(n-1) == 0 || n%997 == 0
		},
	}
	if err := ex.Run(hs); err != nil {
		return 2, err
	}

	sx.DumpSites()

	// native validation of sampled paths
	validated, mismatches, oddFail := 0, 0, 0
	var samplesOut []interface{}
	if len(conf) == 0 {
		byH := map[string][]sx.Sample{}
		for _, s := range ex.Samples {
			byH[s.Harness] = append(byH[s.Harness], s)
		}
		hn := []string{}
		for k := range byH {
			hn = append(hn, k)
		}
		sort.Strings(hn)
		for _, k := range hn {
			ss := byH[k]
			var batch []sx.Sample
			var odd []sx.Sample
			for _, s := range ss {
				if s.Outcome == sx.Done {
					batch = append(batch, s)
				} else {
					odd = append(odd, s)
				}
			}
			if len(batch) > 60 {
				batch = append(batch[:30:30], batch[len(batch)-30:]...)
			}
			rs := r.batch(k, batch)
			for i, s := range batch {
				if i >= len(rs) {
					break
				}
				n := rs[i]
				if n.Status == "ok" && eqStrs(n.Obs, s.Obs) {
					validated++
					if len(samplesOut) < 6 && i == len(batch)/2 {
						samplesOut = append(samplesOut, map[string]interface{}{"harness": k, "inputs": short(s.Vector), "observed": trunc(s.Obs)})
					}
					continue
				}
				if n.Status == "fail" || n.Status == "panic" || n.Status == "crash" || n.Status == "hang" {
					// the native run itself shows a violation the encoding did not: report it
					onCand(byName[k].h, &sx.Violation{Label: n.Label, Kind: "native", Vector: s.Vector})
				}
				mismatches++
				ensureLog("MISMATCH %s vec=%v native=%+v symbolic=%v", k, short(s.Vector), n, trunc(s.Obs))
			}
			for _, s := range odd {
				res := r.replay(k, s.Vector, false)
				if res.Status == "fail" || res.Status == "panic" || res.Status == "crash" || res.Status == "hang" {
					oddFail++
					onCand(byName[k].h, &sx.Violation{Label: res.Label + " (path outcome: " + s.Msg + ")", Kind: "native", Vector: s.Vector})
					break
				}
			}
		}
	}

	// report
	var paths, trans, steps, asserts, proved, forced, quick int64
	allComplete := true
	perH := []interface{}{}
	var vacuous []string
	for _, s := range sel {
		st := ex.Stats[s.h.Name]
		paths += st.Paths
		trans += st.Decisions + st.Forced
		forced += st.Forced
		quick += st.Quick
		steps += st.Steps
		asserts += st.Asserts
		proved += st.Proved
		if !st.Complete {
			allComplete = false
		}
		if st.Paths == 0 && len(conf) == 0 {
			vacuous = append(vacuous, s.h.Name)
		}
		perH = append(perH, map[string]interface{}{
			"harness": st.Name, "bounds": s.doc, "paths_completed": st.Paths, "paths_outside_assumptions": st.Pruned,
			"branch_decisions": st.Decisions, "decisions_with_one_feasible_side": st.Forced, "instructions": st.Steps,
			"assertions_checked": st.Asserts, "assertions_proved_on_their_path": st.Proved, "deepest_path_decisions": st.MaxDepth,
			"all_paths_explored": st.Complete, "reduced_bound": st.Incomplete, "cover_points": st.Covered,
		})
		ensureLog("%s", st)
	}
	fns := []string{}
	for f := range ex.Funcs {
		fns = append(fns, strings.TrimPrefix(f, modPath+"/"))
	}
	sort.Strings(fns)
	stubs := sx.IntrinsicNames()
	sort.Strings(stubs)
	cov := map[string]interface{}{
		"states": paths, "transitions": trans, "traces_validated_against_impl": validated, "samples": samplesOut,
		"exhaustive_within_bounds": allComplete, "timed_out": ex.TimedOut,
		"functions_encoded": fns, "solver": "cvc5 1.1.2 incremental (QF_BV); z3-new one-shot where cvc5 gives no answer", "queries": ex.Queries, "sat": ex.SatN, "unsat": ex.UnsatN, "unknown": ex.UnkN,
		"decisions_settled_by_simplification_or_cached_answer": quick,
		"solver_time_s": round(ex.SolverT.Seconds()), "slowest_query_s": round(ex.MaxQ.Seconds()),
		"assertions": asserts, "instructions": steps, "harnesses": perH, "replay_mismatches": mismatches,
		"counterexamples_not_reproduced": spurious, "further_counterexamples_not_replayed": notTried, "modelled_library_functions": stubs, "harness_compile_errors": broken, "vacuous_harnesses": vacuous,
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"each result holds for all values within the bounds stated per harness, nothing beyond them",
			"the SSA-to-SMT executor (gosym), cvc5 and z3 are trusted; sampled paths are re-run natively and compared",
			"library functions listed under modelled_library_functions are replaced by models",
			"map iteration order is insertion order; goroutines only through zzverif.Parallel",
		},
		"wall_s": round(time.Since(t0).Seconds()), "violations": len(conf),
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		return 2, err
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d decisions, %d assertions, %d queries, solver %.1fs, validated %d native runs (%d mismatches), complete=%v, %.1fs\n",
		*prop, tier, len(sel), paths, trans, asserts, ex.Queries, ex.SolverT.Seconds(), validated, mismatches, allComplete, time.Since(t0).Seconds())
	if !allComplete {
		for _, s := range sel {
			st := ex.Stats[s.h.Name]
			if !st.Complete {
				fmt.Printf("  reduced bound: %s %v\n", st.Name, st.Incomplete)
			}
		}
	}
	for k, n := range spurious {
		fmt.Printf("  not reproduced natively (ignored): %s x%d\n", k, n)
	}
	if len(vacuous) > 0 {
		fmt.Printf("  no completed path: %v\n", vacuous)
	}
	for _, c := range conf {
		fmt.Printf("counterexample: harness %s, assertion %q, inputs %v, native run: %s\n", c.h, c.label, short(c.vec), c.native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, c.path)
	}
	if len(conf) > 0 {
		return 1, nil
	}
	if _, err := r.binary(false); err != nil {
		return 2, err
	}
	if paths == 0 {
		return 2, fmt.Errorf("nothing explored")
	}
	return 0, nil
}

func seed() int {
	var s int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(v []uint64) interface{} {
	if len(v) > 120 {
		return append(append([]uint64{}, v[:120]...))
	}
	return v
}

func trunc(o []string) []string {
	var r []string
	for i, s := range o {
		if i >= 8 {
			break
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		r = append(r, s)
	}
	return r
}

// ---- native runs

func (r *runner) prepare(files map[string]string, infos map[string]*harnessInfo, names []string) error {
	var b bytes.Buffer
	imp := map[string]string{}
	for _, n := range names {
		p := infos[n].pkg
		if _, ok := imp[p]; !ok {
			imp[p] = fmt.Sprintf("h%d", len(imp))
		}
	}
	b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\tzz \"" + modPath + "/internal/zzverif\"\n")
	for p, a := range imp {
		fmt.Fprintf(&b, "\t%s %q\n", a, p)
	}
	b.WriteString(")\n\nvar reg = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: %s.%s,\n", n, imp[infos[n].pkg], n)
	}
	b.WriteString(`}

type res struct {
	Status string   ` + "`json:\"status\"`" + `
	Label  string   ` + "`json:\"label\"`" + `
	Obs    []string ` + "`json:\"obs\"`" + `
}

func one(f func(), v []uint64) (r res) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(zz.AssumeFailed); ok {
				r = res{Status: "assume"}
			} else {
				r = res{Status: "panic", Label: fmt.Sprint(x)}
			}
		}
		if fs := zz.Failures(); len(fs) > 0 {
			r = res{Status: "fail", Label: fs[0]}
		}
	}()
	zz.Reset(v)
	f()
	return res{Status: "ok", Obs: zz.Observations()}
}

func main() {
	zz.Race = os.Getenv("ZZ_PAR") == "1"
	f := reg[os.Args[1]]
	var vs [][]uint64
	if err := json.NewDecoder(os.Stdin).Decode(&vs); err != nil {
		panic(err)
	}
	out := os.NewFile(3, "out")
	n := 1
	if zz.Race {
		n = 30
	}
	for _, v := range vs {
		var r res
		for i := 0; i < n; i++ {
			r = one(f, v)
		}
		j, _ := json.Marshal(r)
		fmt.Fprintf(out, "%s\n", j)
	}
}
`)
	mainFile := filepath.Join(r.tmp, "main.go")
	if err := os.WriteFile(mainFile, b.Bytes(), 0o644); err != nil {
		return err
	}
	rep := map[string]string{}
	for k, v := range files {
		rep[k] = v
	}
	rep[filepath.Join(*repo, "internal", "zzverif", "zzrun", "main.go")] = mainFile
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	r.roverlay = filepath.Join(r.tmp, "roverlay.json")
	if err := os.WriteFile(r.roverlay, j, 0o644); err != nil {
		return err
	}
	if err := r.hookLocks(rep); err != nil {
		return err
	}
	j, _ = json.Marshal(map[string]interface{}{"Replace": rep})
	r.overlay = filepath.Join(r.tmp, "overlay.json")
	return os.WriteFile(r.overlay, j, 0o644)
}

// hookLocks overlays the repository's files that use locks, sync.Map or sync/atomic with copies
// that use zsync's and zatomic's, which tell the harness where another goroutine may run.
func (r *runner) hookLocks(rep map[string]string) error {
	n := 0
	return filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != *repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return nil // the build will tell
		}
		hooked := map[string]map[string]bool{
			"sync": {"Mutex": true, "RWMutex": true, "Map": true}, "sync/atomic": nil}
		keep := map[string]string{"sync": "Locker", "sync/atomic": "Value"}
		names, used := map[string]string{}, map[string]string{}
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if _, ok := hooked[path]; !ok {
				continue
			}
			name := filepath.Base(path)
			if im.Name != nil {
				name = im.Name.Name
			}
			if name != "." && name != "_" {
				names[name] = path
			}
		}
		type edit struct {
			from, to int
			by       string
		}
		var eds []edit
		ast.Inspect(f, func(x ast.Node) bool {
			if se, ok := x.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && id.Obj == nil {
					if p, ok := names[id.Name]; ok && (hooked[p] == nil || hooked[p][se.Sel.Name]) {
						by := "z" + filepath.Base(p)
						used[id.Name] = by
						eds = append(eds, edit{fs.Position(id.Pos()).Offset, fs.Position(id.End()).Offset, "z" + by})
					}
				}
			}
			return true
		})
		if len(eds) == 0 {
			return nil
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
		out := string(src)
		for _, e := range eds {
			out = out[:e.from] + e.by + out[e.to:]
		}
		k := fs.Position(f.Name.End()).Offset
		imp := ""
		for name, by := range used {
			imp += "; import z" + by + " \"" + modPath + "/internal/zzverif/" + by + "\""
			out += "\nvar _ " + name + "." + keep[names[name]] + "\n"
		}
		out = out[:k] + imp + out[k:]
		n++
		q := filepath.Join(r.tmp, fmt.Sprintf("lock%d.go", n))
		rep[p] = q
		return os.WriteFile(q, []byte(out), 0o644)
	})
}

func (r *runner) binary(race bool) (string, error) {
	build := func(ov, out string, extra ...string) error {
		args := append([]string{"build", "-overlay", ov, "-o", out}, extra...)
		args = append(args, modPath+"/internal/zzverif/zzrun")
		c := exec.Command("go", args...)
		c.Dir = *repo
		c.Env = r.env
		if o, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("native build: %v\n%s", err, o)
		}
		return nil
	}
	if race {
		r.ronce.Do(func() { r.rbin = filepath.Join(r.tmp, "nrace"); r.rerr = build(r.roverlay, r.rbin, "-race") })
		return r.rbin, r.rerr
	}
	r.once.Do(func() { r.bin = filepath.Join(r.tmp, "native"); r.err = build(r.overlay, r.bin) })
	return r.bin, r.err
}

func (r *runner) exec(bin, h string, vecs [][]uint64, race bool, to time.Duration) ([]nativeRes, string, bool) {
	in, _ := json.Marshal(vecs)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, bin, h)
	if !race { // (the race detector reserves address space)
		c = exec.CommandContext(ctx, "bash", "-c", `ulimit -v 12582912; exec "$0" "$1"`, bin, h)
	}
	c.Stdin = bytes.NewReader(in)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err.Error(), false
	}
	c.ExtraFiles = []*os.File{pw}
	c.Env = append(r.env, "GOTRACEBACK=single")
	if race {
		c.Env = append(c.Env, "ZZ_PAR=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	var errb bytes.Buffer
	c.Stderr = &errb
	c.Stdout = nil
	if err := c.Start(); err != nil {
		pw.Close()
		pr.Close()
		return nil, err.Error(), false
	}
	pw.Close()
	var res []nativeRes
	dec := json.NewDecoder(pr)
	for {
		var x nativeRes
		if err := dec.Decode(&x); err != nil {
			break
		}
		res = append(res, x)
	}
	pr.Close()
	err = c.Wait()
	if ctx.Err() != nil {
		return res, "hang", false
	}
	if err != nil {
		return res, "exit: " + err.Error() + ": " + firstLines(errb.String(), 3), false
	}
	return res, "", true
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (r *runner) replay(h string, vec []uint64, race bool) nativeRes {
	bin, err := r.binary(race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nativeRes{Status: "error", Label: err.Error()}
	}
	rs, msg, ok := r.exec(bin, h, [][]uint64{vec}, race, 30*time.Second)
	if ok && len(rs) == 1 {
		return rs[0]
	}
	if msg == "hang" {
		return nativeRes{Status: "hang", Label: "no result within 30 s"}
	}
	if strings.Contains(msg, "exit status 66") || strings.Contains(msg, "DATA RACE") {
		return nativeRes{Status: "race", Label: msg}
	}
	return nativeRes{Status: "crash", Label: msg}
}

func (r *runner) batch(h string, ss []sx.Sample) []nativeRes {
	if len(ss) == 0 {
		return nil
	}
	bin, err := r.binary(false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	var vs [][]uint64
	for _, s := range ss {
		vs = append(vs, s.Vector)
	}
	rs, msg, ok := r.exec(bin, h, vs, false, 60*time.Second)
	if !ok && len(rs) < len(vs) {
		st := "crash"
		if msg == "hang" {
			st = "hang"
		}
		rs = append(rs, nativeRes{Status: st, Label: msg})
	}
	return rs
}

func (r *runner) rerun(path string) (int, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 2, err
	}
	var rec struct {
		Harness string
		Kind    string
		Inputs  []uint64
		// the outcome depends on the order of ranges over maps
		Unordered bool
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		return 2, err
	}
	res := r.replay(rec.Harness, rec.Inputs, rec.Kind == "race")
	for i := 0; i < 40 && rec.Unordered && (res.Status == "ok" || res.Status == "assume"); i++ {
		res = r.replay(rec.Harness, rec.Inputs, rec.Kind == "race")
	}
	fmt.Printf("%s: %s %s\n", rec.Harness, res.Status, res.Label)
	if res.Status == "ok" || res.Status == "assume" {
		return 0, nil
	}
	return 1, nil
}
