package sx

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Program is the loaded SSA program, shared by all workers.
type Program struct {
	Prog    *ssa.Program
	ModPath string // packages with this prefix are "the code under test"
	Harness map[string]*ssa.Function

	mu    sync.Mutex
	infos sync.Map // *ssa.Function -> *fnInfo
	built map[*ssa.Package]bool
}

type fnInfo struct {
	name     string
	intr     intrinsic
	regs     map[ssa.Value]int
	n        int
	hasDefer bool
	inMod    bool
	noBody   bool
}

func NewProgram(p *ssa.Program, mod string) *Program {
	return &Program{Prog: p, ModPath: mod, Harness: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}}
}

func (p *Program) build(pkg *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	name := fullName(fn)
	fi := &fnInfo{name: name, intr: lookupIntrinsic(name)}
	if fi.intr == nil {
		fi = p.mkInfo(fn, name)
	}
	v, _ := p.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (p *Program) mkInfo(fn *ssa.Function, name string) *fnInfo {
	fi := &fnInfo{name: name}
	if pk := fnPkg(fn); pk != nil {
		p.build(pk)
		fi.inMod = strings.HasPrefix(pk.Pkg.Path(), p.ModPath) && !strings.Contains(pk.Pkg.Path(), "/zzverif")
	}
	fi.noBody = fn.Blocks == nil
	fi.regs = map[ssa.Value]int{}
	add := func(v ssa.Value) { fi.regs[v] = len(fi.regs) }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.n = len(fi.regs)
	return fi
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Signature.Recv() != nil || fn.Parent() != nil {
		return fn.RelString(nil)
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return fn.RelString(nil)
}

// Dec is one recorded decision of a path.
type Dec struct {
	V      uint64
	Forced bool
}

// Item is a path prefix still to be explored.
type Item struct {
	H      *Harness
	Prefix []Dec
	Model  map[string]uint64
}

// Nondet is one recorded harness input.
type Nondet struct {
	T *smt.Term
}

type Outcome int

const (
	Done Outcome = iota
	AssumeFail
	Infeasible
	Unsupported
	Aborted
	Stopped // exploration ended while the path ran
	Violated
	StepLimit
)

// pathEnd unwinds the interpreter.
type pathEnd struct {
	kind Outcome
	msg  string
}

type targetPanic struct {
	exit bool  // runtime.Goexit: runs the deferred calls, cannot be recovered
	v    Value // interface{} value
	rt   string
	pos  string
}

type obs struct {
	label string
	v     []*smt.Term
}

// Machine is one worker's interpreter.
type Machine struct {
	P *Program
	c *smt.Ctx
	s *smt.Solver

	globals map[*ssa.Global]Loc
	inited  map[*ssa.Package]int // 1 running, 2 done, 3 failed
	consts  map[*ssa.Const]Value
	initing int
	undo    []func()

	methCache map[methKey]*ssa.Function
	implCache map[implKey]bool

	// path state
	item  *Item
	pc    []*smt.Term
	pos   int
	trace []Dec
	model map[string]uint64
	known map[*smt.Term]bool
	concd map[*smt.Term]uint64
	d     domains
	tabs  map[*smt.Term]set256
	nvar  int

	cache     map[string]answer
	sliceVars []*smt.Term
	NCached   int64
	inputs    []Nondet
	obs       []obs
	covered   map[string]bool
	steps     int
	depth     int
	allocs    *smt.Term
	locks     map[Loc]*lockState
	held      []heldLock
	pools     map[Loc][]Value
	onces     map[Loc]bool
	smaps     map[Loc]*MapV
	smapBase  map[Loc]*MapV
	decs      map[*smt.Term][]*smt.Term
	decOf     map[string]*smt.Term
	children  []Item

	opaqueFmt  bool
	stdout     []*smt.Term
	ilv        []*FuncV    // the operations waiting in Interleave
	ilvBase    int         // how many of held the interrupted operations hold
	points     int         // atomic operations so far
	touched    bool        // one of them since the last point, without a lock
	queued     bool        // a writer waits for every lock
	locked     map[Loc]int // how often each lock was taken
	mapRanges  int         // ranges over maps with more than one entry so far
	watchOn    bool
	watch      map[Loc]*watchEnt
	watchOrder []*watchEnt
	watchOp    int
	curFn      *ssa.Function

	// results
	viol      *Violation
	MaxSteps  int
	Funcs     map[string]bool
	NDecide   int64
	NForced   int64
	NQuick    int64
	NSteps    int64
	Asserts   int64
	Proved    int64
	Notes     map[string]int
	Incompl   map[string]int
	ConcLimit int
}

type Violation struct {
	Unordered bool // depends on the order in which maps are ranged over: native runs vary
	Label     string
	Kind      string
	Vector    []uint64
	Pos       string
}

type methKey struct {
	t types.Type
	n string
}
type implKey struct{ t, i types.Type }

type lockState struct {
	writer  bool
	readers int
}
type heldLock struct {
	l     Loc
	write bool
}

func NewMachine(p *Program, s *smt.Solver) *Machine {
	m := &Machine{P: p, s: s, MaxSteps: 5_000_000, ConcLimit: 600, Funcs: map[string]bool{}, Notes: map[string]int{}, Incompl: map[string]int{}}
	m.reset()
	return m
}

// reset drops all terms and module state.
func (m *Machine) reset() {
	m.c = smt.NewCtx()
	m.tabs = map[*smt.Term]set256{}
	m.cache = map[string]answer{}
	m.globals = map[*ssa.Global]Loc{}
	m.smapBase = map[Loc]*MapV{}
	m.inited = map[*ssa.Package]int{}
	m.consts = map[*ssa.Const]Value{}
	m.methCache = map[methKey]*ssa.Function{}
	m.implCache = map[implKey]bool{}
	m.undo = nil
}

// Refresh bounds memory: drop terms and the solver process when large.
func (m *Machine) Refresh() {
	if m.c.Size() > 1_500_000 || m.s.Defs() > 300_000 {
		m.reset()
		m.s.Restart()
	}
}

func (m *Machine) unsup(f string, a ...interface{}) interface{} {
	return pathEnd{Unsupported, fmt.Sprintf(f, a...) + m.where()}
}

func (m *Machine) where() string {
	if m.curFn == nil {
		return ""
	}
	return " in " + fullName(m.curFn)
}

func (m *Machine) abort(f string, a ...interface{}) {
	panic(pathEnd{Aborted, fmt.Sprintf(f, a...) + m.where()})
}

// ---- path conditions

func (m *Machine) push(t *smt.Term) {
	if t == m.c.True {
		return
	}
	if u := m.simp(t); u != t && !u.IsConst() {
		if t.Op == smt.OpNot {
			m.known[t.K[0]] = false
		} else {
			m.known[t] = true
		}
		t = u
	}
	switch {
	case t.Op == smt.OpAnd:
		m.known[t] = true
		m.push(t.K[0])
		m.push(t.K[1])
		return
	case t.Op == smt.OpNot && t.K[0].Op == smt.OpOr:
		m.known[t.K[0]] = false
		m.push(m.c.Not(t.K[0].K[0]))
		m.push(m.c.Not(t.K[0].K[1]))
		return
	case t.Op == smt.OpEq && t.K[1].IsConst():
		if ps := m.c.Pieces(t.K[0]); len(ps) > 1 {
			m.known[t] = true
			m.concd[t.K[0]] = t.K[1].Val
			for _, p := range ps {
				m.push(m.c.Eq(p.T, m.c.Const(p.T.W, t.K[1].Val>>p.Sh)))
			}
			return
		}
	}
	if v, ok := m.known[t]; ok && v {
		return
	}
	m.pc = append(m.pc, t)
	if t.Op == smt.OpNot {
		m.known[t.K[0]] = false
	}
	m.learn(t)
	if t.Op == smt.OpNot {
		m.known[t.K[0]] = false
	} else {
		m.known[t] = true
		if t.Op == smt.OpEq && t.K[1].IsConst() {
			m.concd[t.K[0]] = t.K[1].Val
		}
	}
}

func (m *Machine) setModel(md map[string]uint64) {
	m.model = md
	m.c.SetModel(md)
}

// check decides pc && extra. Only the conditions connected to extra by variables that are
// not fixed are sent (the model in hand satisfies the rest), and verdicts are remembered.
func (m *Machine) check(extra *smt.Term, want bool) (smt.Result, map[string]uint64) {
	pc := m.pc
	var key string
	if extra != nil {
		pc, key = m.cone(extra)
		if a, ok := m.cache[key]; ok {
			m.NCached++
			return a.r, m.merge(a.md)
		}
	}
	r, md, err := m.s.Check(pc, extra, want || extra != nil)
	if err != nil && m.s.Stopped() {
		panic(pathEnd{Stopped, "stopped"})
	}
	if err != nil {
		m.Incompl["solver error: "+err.Error()]++
		m.s.Restart()
		return smt.Unknown, nil
	}
	if extra == nil {
		return r, md
	}
	if r == smt.Sat {
		used := map[string]uint64{}
		for _, v := range m.sliceVars {
			used[v.Name] = md[v.Name]
		}
		md = used
	}
	if r != smt.Unknown {
		m.cache[key] = answer{r, md}
	}
	return r, m.merge(md)
}

type answer struct {
	r  smt.Result
	md map[string]uint64
}

// merge is the current model with the variables of a solved slice replaced.
func (m *Machine) merge(part map[string]uint64) map[string]uint64 {
	if part == nil {
		return nil
	}
	md := make(map[string]uint64, len(m.model)+len(part))
	for k, v := range m.model {
		md[k] = v
	}
	for k, v := range part {
		md[k] = v
	}
	return md
}

// cone selects the path conditions that bear on extra.
func (m *Machine) cone(extra *smt.Term) ([]*smt.Term, string) {
	in := map[*smt.Term]bool{}
	vs := m.sliceVars[:0]
	var fixed []*smt.Term
	add := func(t *smt.Term) {
		for _, v := range m.c.Vars(t) {
			if in[v] {
				continue
			}
			in[v] = true
			if m.isFixed(v) {
				fixed = append(fixed, v)
			} else {
				vs = append(vs, v)
			}
		}
	}
	add(extra)
	taken := make([]bool, len(m.pc))
	for {
		n := len(vs)
		for i, t := range m.pc {
			if taken[i] {
				continue
			}
			for _, v := range m.c.Vars(t) {
				if in[v] && !m.isFixed(v) {
					taken[i] = true
					add(t)
					break
				}
			}
		}
		if len(vs) == n {
			break
		}
	}
	var out []*smt.Term
	for i, t := range m.pc {
		if taken[i] {
			out = append(out, t)
		}
	}
	sort.Slice(fixed, func(i, j int) bool { return fixed[i].ID < fixed[j].ID })
	for _, v := range fixed {
		x := m.c.Const(v.W, m.d.fixed[v])
		if v.W == 0 {
			out = append(out, v)
			if x.Val == 0 {
				out[len(out)-1] = m.c.Not(v)
			}
			continue
		}
		out = append(out, m.c.Eq(v, x))
	}
	m.sliceVars = append(vs, fixed...)
	ids := make([]int, len(out))
	for i, t := range out {
		ids[i] = int(t.ID)
	}
	sort.Ints(ids)
	key := make([]byte, 0, 4*len(ids)+4)
	for _, i := range append(ids, int(extra.ID)) {
		key = append(key, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return out, string(key)
}

func (m *Machine) spawn(d Dec, md map[string]uint64) {
	p := make([]Dec, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.children = append(m.children, Item{H: m.item.H, Prefix: p, Model: md})
}

func (m *Machine) replaying() bool { return m.pos < len(m.item.Prefix) }

func (m *Machine) nextDec() Dec {
	d := m.item.Prefix[m.pos]
	m.pos++
	m.trace = append(m.trace, d)
	return d
}

// decide forks on a boolean term.
func (m *Machine) decide(t *smt.Term) bool {
	if t.IsConst() {
		return t.Val == 1
	}
	if t.Op == smt.OpNot {
		return !m.decide(t.K[0])
	}
	if v, ok := m.known[t]; ok {
		return v
	}
	if m.initing > 0 {
		panic(m.unsup("symbolic branch during package initialisation"))
	}
	side := func(v bool) *smt.Term {
		if v {
			return t
		}
		return m.c.Not(t)
	}
	if m.replaying() {
		d := m.nextDec()
		v := d.V == 1
		if d.Forced {
			m.known[t] = v
		} else {
			m.push(side(v))
		}
		return v
	}
	m.NDecide++
	v := m.c.Eval(t) == 1
	if ok, forced, alt := m.quick(t, v); ok {
		m.NQuick++
		if xcheck {
			m.crossCheck(t, v, forced, alt)
		}
		if forced {
			m.NForced++
			m.known[t] = v
		} else {
			m.spawn(Dec{b2u(!v), false}, alt)
		}
		m.trace = append(m.trace, Dec{b2u(v), forced})
		if !forced {
			m.push(side(v))
		}
		return v
	}
	r, md := m.check(side(!v), true)
	m.dbgSite(t, r)
	switch r {
	case smt.Unsat:
		m.NForced++
		m.trace = append(m.trace, Dec{b2u(v), true})
		m.known[t] = v
	case smt.Sat:
		m.spawn(Dec{b2u(!v), false}, md)
		m.trace = append(m.trace, Dec{b2u(v), false})
		m.push(side(v))
	default:
		m.Incompl["solver unknown on a branch"]++
		m.trace = append(m.trace, Dec{b2u(v), false})
		m.push(side(v))
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// concU forks over all feasible values of t.
func (m *Machine) concU(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.Val
	}
	if v, ok := m.concd[t]; ok {
		return v
	}
	switch t.Op {
	case smt.OpZExt:
		return m.concU(t.K[0])
	case smt.OpSExt:
		return m.c.SExt(m.c.Const(t.K[0].W, m.concU(t.K[0])), t.W).Val
	case smt.OpAdd:
		if t.K[1].IsConst() {
			return m.c.Bin(smt.OpAdd, m.c.Const(t.W, m.concU(t.K[0])), t.K[1]).Val
		}
	case smt.OpMul:
		if t.K[1].IsConst() {
			return m.c.Bin(smt.OpMul, m.c.Const(t.W, m.concU(t.K[0])), t.K[1]).Val
		}
	}
	if m.initing > 0 {
		panic(m.unsup("symbolic value during package initialisation"))
	}
	fix := func(d Dec) uint64 {
		m.concd[t] = d.V
		if !d.Forced {
			m.push(m.c.Eq(t, m.c.Const(t.W, d.V)))
		}
		m.concd[t] = d.V
		return d.V
	}
	if m.replaying() {
		return fix(m.nextDec())
	}
	m.NDecide++
	if vals, reps, ok := m.quickValues(t); ok {
		m.NQuick++
		for i := range reps {
			m.spawn(Dec{vals[i+1], false}, reps[i])
		}
		d := Dec{vals[0], len(vals) == 1}
		if d.Forced {
			m.NForced++
		}
		m.trace = append(m.trace, d)
		return fix(d)
	}
	v0 := m.c.Eval(t)
	ex := m.c.True
	cur := v0
	count := 0
	forced := true
	type alt struct {
		v  uint64
		md map[string]uint64
	}
	var alts []alt
	for {
		ex = m.c.And(ex, m.c.Not(m.c.Eq(t, m.c.Const(t.W, cur))))
		r, md := m.check(ex, true)
		m.dbgSite(t, r)
		if r == smt.Unsat {
			break
		}
		forced = false
		if r == smt.Unknown {
			m.Incompl["solver unknown while enumerating values"]++
			break
		}
		count++
		if count > m.ConcLimit {
			m.Incompl[fmt.Sprintf("more than %d values of one size or index%s", m.ConcLimit, m.where())]++
			break
		}
		m.c.SetModel(md)
		cur = m.c.Eval(t)
		alts = append(alts, alt{cur, md})
	}
	m.c.SetModel(m.model)
	for _, a := range alts {
		m.spawn(Dec{a.v, false}, a.md)
	}
	if forced {
		m.NForced++
	}
	d := Dec{v0, forced}
	m.trace = append(m.trace, d)
	return fix(d)
}

func (m *Machine) conc(t *smt.Term) int64 {
	v := m.concU(t)
	return m.c.Const(t.W, v).SVal()
}

// choice forks over 0..n-1 without constraints.
func (m *Machine) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if m.replaying() {
		return int(m.nextDec().V)
	}
	for i := n - 1; i >= 1; i-- {
		m.spawn(Dec{uint64(i), false}, m.model)
	}
	m.trace = append(m.trace, Dec{0, false})
	return 0
}

func (m *Machine) assume(t *smt.Term) {
	if t.IsConst() {
		if t.Val == 0 {
			panic(pathEnd{AssumeFail, ""})
		}
		return
	}
	if m.c.Eval(t) == 1 {
		m.push(t)
		return
	}
	r, md := m.check(t, true)
	switch r {
	case smt.Sat:
		m.setModel(md)
		m.push(t)
	case smt.Unsat:
		panic(pathEnd{AssumeFail, ""})
	default:
		m.Incompl["solver unknown on an assumption"]++
		panic(pathEnd{Aborted, "solver unknown on an assumption"})
	}
}

func (m *Machine) fail(kind, label string) {
	vec := make([]uint64, len(m.inputs))
	for i, in := range m.inputs {
		vec[i] = m.c.Eval(in.T)
	}
	m.viol = &Violation{Label: label, Kind: kind, Vector: vec, Unordered: m.mapRanges > 0}
	panic(pathEnd{Violated, label})
}

func (m *Machine) assertT(t *smt.Term, label string) {
	if t.IsConst() && t.Val == 1 {
		m.Asserts++
		m.Proved++
		return
	}
	if m.replaying() {
		return // checked on the parent path under weaker conditions
	}
	m.Asserts++
	if m.c.Eval(t) == 0 {
		m.fail("assert", label)
	}
	if m.known[t] {
		m.Proved++
		return
	}
	var r smt.Result = smt.Unsat
	var md map[string]uint64
	for _, g := range m.groups(t) {
		x, y := m.check(m.c.Not(g), true)
		m.dbgSite(g, x)
		if x != smt.Unsat {
			r, md = x, y
		}
		if x == smt.Sat {
			break
		}
	}
	switch r {
	case smt.Sat:
		m.setModel(md)
		m.fail("assert", label)
	case smt.Unsat:
		m.Proved++
	default:
		m.Incompl["solver unknown on assertion "+label]++
	}
}

// groups splits a conjunction into parts with the same variables, to be proved one by one.
func (m *Machine) groups(t *smt.Term) []*smt.Term {
	if t.Op != smt.OpAnd || len(m.c.Vars(t)) < 3 {
		return []*smt.Term{t}
	}
	var parts []*smt.Term
	var walk func(t *smt.Term)
	walk = func(t *smt.Term) {
		if t.Op == smt.OpAnd {
			walk(t.K[0])
			walk(t.K[1])
			return
		}
		parts = append(parts, t)
	}
	walk(t)
	by := map[string]int{}
	var out []*smt.Term
	var k []byte
	for _, p := range parts {
		k = k[:0]
		for _, v := range m.c.Vars(p) {
			k = strconv.AppendInt(k, int64(v.ID), 10)
			k = append(k, ' ')
		}
		if i, ok := by[string(k)]; ok {
			out[i] = m.c.And(out[i], p)
		} else {
			by[string(k)] = len(out)
			out = append(out, p)
		}
	}
	return out
}

// fresh makes a new input variable.
func (m *Machine) fresh(w uint8) *smt.Term {
	t := m.c.Var(fmt.Sprintf("n%d_%d", m.nvar, w), w)
	m.nvar++
	return t
}

// ---- shared-memory watching

type watchEnt struct {
	locks   map[Loc]bool
	written bool
	ops     map[int]bool
	site    string
}

// access records an access to memory visible to other goroutines (Eraser lock sets, per location).
func (m *Machine) access(l Loc, write bool) {
	if !m.watchOn || m.initing > 0 {
		return
	}
	w := m.watch[l]
	if w == nil {
		w = &watchEnt{ops: map[int]bool{}}
		m.watch[l] = w
		m.watchOrder = append(m.watchOrder, w)
	}
	w.ops[m.watchOp] = true
	cur := map[Loc]bool{}
	for _, h := range m.held {
		if !write || h.write {
			cur[h.l] = true
		}
	}
	if w.locks == nil {
		w.locks = cur
	} else {
		for k := range w.locks {
			if !cur[k] {
				delete(w.locks, k)
			}
		}
	}
	if write {
		w.written = true
	}
	if len(cur) == 0 || w.site == "" {
		rw := "read"
		if write {
			rw = "write"
		}
		w.site = rw + m.where()
	}
}

func (m *Machine) markShared(v Value) {
	switch x := v.(type) {
	case Ptr:
		m.markLoc(x.loc)
	case SliceV:
		if x.arr != nil {
			m.markLoc(x.arr)
		}
	case StructV:
		for _, f := range x {
			m.markShared(f)
		}
	case ArrayV:
		for _, f := range x {
			m.markShared(f)
		}
	case Iface:
		if x.t != nil {
			m.markShared(x.v)
		}
	case *MapV:
		if x != nil && !x.shared {
			x.shared = true
			for _, e := range x.ents {
				m.markShared(e.k)
				m.markShared(e.v)
			}
		}
	case *FuncV:
		if x != nil {
			for _, e := range x.env {
				m.markShared(e)
			}
		}
	}
}

func (m *Machine) markLoc(l Loc) {
	switch x := l.(type) {
	case *Cell:
		if !x.shared && !x.base {
			x.shared = true
			m.markShared(x.v)
		}
	case *StructLoc:
		for _, f := range x.f {
			m.markLoc(f)
		}
	case *ArrayLoc:
		if !x.shared && !x.base {
			x.shared = true
			for _, v := range x.vals {
				m.markShared(v)
			}
			for _, f := range x.subs {
				m.markLoc(f)
			}
		}
	case ElemLoc:
		m.markLoc(x.a)
	}
}

// ---- running one path

// Harness is one entry function.
type Harness struct {
	Name string
	Fn   *ssa.Function
}

type PathResult struct {
	Outcome   Outcome
	Msg       string
	Viol      *Violation
	Vector    []uint64
	Obs       []string
	Covered   map[string]bool
	Depth     int
	Unordered bool // ranged over maps: native runs vary
}

func (m *Machine) initModule() {
	for _, pkg := range m.P.Prog.AllPackages() {
		if strings.HasPrefix(pkg.Pkg.Path(), m.P.ModPath) {
			m.initPkg(pkg)
		}
	}
}

// Run executes one item to its end and returns newly discovered prefixes.
func (m *Machine) Run(it *Item, wantObs bool) (res PathResult, children []Item) {
	m.item = it
	m.pc = m.pc[:0]
	m.pos = 0
	m.trace = m.trace[:0]
	m.known = map[*smt.Term]bool{}
	m.d = newDomains()
	m.concd = map[*smt.Term]uint64{}
	m.nvar = 0
	m.inputs = m.inputs[:0]
	m.obs = nil
	m.covered = map[string]bool{}
	m.steps = 0
	m.depth = 0
	m.locks = map[Loc]*lockState{}
	m.held = nil
	m.pools = map[Loc][]Value{}
	m.smaps = map[Loc]*MapV{}
	m.onces = map[Loc]bool{}
	m.decs = map[*smt.Term][]*smt.Term{}
	m.decOf = map[string]*smt.Term{}
	m.children = nil
	m.opaqueFmt = false
	m.stdout = m.stdout[:0]
	m.ilv, m.queued = nil, false
	m.locked = map[Loc]int{}
	m.mapRanges = 0
	m.watchOn, m.watch, m.watchOrder = false, nil, nil
	m.viol = nil
	m.curFn = nil
	m.allocs = m.c.Const(64, 0)
	if it.Model == nil {
		it.Model = map[string]uint64{}
	}
	m.setModel(it.Model)

	defer func() {
		m.NSteps += int64(m.steps)
		for i := len(m.undo) - 1; i >= 0; i-- {
			m.undo[i]()
		}
		m.undo = m.undo[:0]
		m.initing = 0
	}()

	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					res.Outcome, res.Msg = x.kind, x.msg
				case *targetPanic:
					if m.replaying() {
						res.Outcome, res.Msg = Aborted, "panic while replaying a prefix"
						return
					}
					func() {
						defer func() { recover() }()
						m.fail("panic", "uncaught panic: "+m.panicText(x))
					}()
					res.Outcome, res.Msg = Violated, m.viol.Label
				default:
					if internalCrash {
						panic(r)
					}
					res.Outcome, res.Msg = Unsupported, fmt.Sprintf("internal: %v%s", r, m.where())
				}
			}
		}()
		m.initModule()
		m.callFn(nil, it.H.Fn, nil, nil)
		res.Outcome = Done
	}()
	res.Viol = m.viol
	res.Unordered = m.mapRanges > 0
	res.Depth = len(m.trace)
	res.Covered = m.covered
	if m.viol == nil {
		res.Vector = make([]uint64, len(m.inputs))
		for i, in := range m.inputs {
			res.Vector[i] = m.c.Eval(in.T)
		}
		if wantObs {
			for _, o := range m.obs {
				var b []byte
				for _, t := range o.v {
					b = append(b, byte(m.c.Eval(t)))
				}
				res.Obs = append(res.Obs, fmt.Sprintf("%s=%x", o.label, b))
			}
		}
	}
	return res, m.children
}

var internalCrash = false

// SetInternalCrash makes internal errors fatal (debugging).
func SetInternalCrash(b bool) { internalCrash = b }

func (m *Machine) panicText(p *targetPanic) string {
	if p.rt != "" {
		return p.rt + p.pos
	}
	if i, ok := p.v.(Iface); ok {
		if s, ok := i.v.(Str); ok {
			if t, ok := m.concStr(s); ok {
				return t + p.pos
			}
		}
		if i.t != nil {
			return i.t.String() + p.pos
		}
	}
	return "?" + p.pos
}

// initPkg runs the initialiser of pkg without those of its imports (they run on demand).
func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] != 0 {
		return
	}
	m.inited[pkg] = 1
	m.P.build(pkg)
	m.initing++
	steps := m.steps
	defer func() { m.initing--; m.steps = steps }()
	if skipInit[pkg.Pkg.Path()] {
		m.inited[pkg] = 2
		return
	}
	if f := pkg.Func("init"); f != nil {
		m.callFn(nil, f, nil, nil)
	}
	m.inited[pkg] = 2
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "time": true, "reflect": true,
	"internal/godebug": true, "internal/godebugs": true, "sync": true, "sync/atomic": true, "internal/cpu": true,
	"internal/bytealg": true, "internal/testlog": true, "io/fs": true, "internal/reflectlite": true,
	"internal/abi": true, "unsafe": true, "internal/runtime/atomic": true, "internal/sync": true,
}

func (m *Machine) global(g *ssa.Global) Loc {
	if l, ok := m.globals[g]; ok {
		return l
	}
	m.initing++
	l := m.newLoc(g.Type().(*types.Pointer).Elem())
	m.initing--
	m.globals[g] = l
	if g.Pkg != nil && !(g.Name() == "init$guard") {
		m.initPkg(g.Pkg)
	}
	return l
}
