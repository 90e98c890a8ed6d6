package smt

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one SMT-LIB2 solver process incrementally.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	argv    []string
	gen     uint32
	stack   []*Term // asserted, one push level each
	vars    []*Term
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Time    time.Duration
	MaxTime time.Duration
	toMs    int
	sb      strings.Builder
	Log     io.Writer
	defs    int
	second  bool

	Fallback int

	mu      sync.Mutex // guards cmd's process, aux and stopped
	aux     *Solver
	stopped bool
}

// ErrStopped is returned by Check after Stop.
var ErrStopped = errors.New("stopped")

// Stop makes every running and later Check return ErrStopped at once.
func (s *Solver) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.stopped = true
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
	if s.aux != nil {
		s.aux.Stop()
	}
}

// Stopped reports whether Stop was called.
func (s *Solver) Stopped() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stopped
}

// SlowDir, if set, receives the queries that took over a second.
var SlowDir = os.Getenv("GOSYM_SLOW")

func NewSolver(timeoutMs int, argv ...string) (*Solver, error) {
	if len(argv) == 0 {
		argv = []string{"cvc5", "--incremental", "--lang", "smt2"}
		if e := os.Getenv("GOSYM_SOLVER"); e != "" {
			argv = strings.Fields(e)
		}
	}
	s := &Solver{argv: argv, toMs: timeoutMs, second: true}
	return s, s.start()
}

func (s *Solver) start() error {
	s.mu.Lock()
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	s.mu.Unlock()
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.mu.Lock()
	if s.stopped {
		s.mu.Unlock()
		return ErrStopped
	}
	err = s.cmd.Start()
	s.mu.Unlock()
	if err != nil {
		return err
	}
	s.inC = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.gen++
	s.stack = nil
	s.vars = nil
	s.defs = 0
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n%s", s.toMs, os.Getenv("GOSYM_OPT")))
	} else {
		s.send(fmt.Sprintf("(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.toMs))
	}
	return nil
}

// Restart drops all solver state (used to bound memory). Terms of the old context must not be reused.
func (s *Solver) Restart() error {
	s.Close()
	return s.start()
}

func (s *Solver) Defs() int { return s.defs }

func (s *Solver) Close() {
	s.inC.Close()
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(str string) {
	if s.Log != nil {
		io.WriteString(s.Log, str)
	}
	s.in.WriteString(str)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.Val == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(t.Val, 10) + " " + strconv.Itoa(int(t.W)) + ")"
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpBvNot: "bvnot", OpBvNeg: "bvneg", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return t.Name
	}
	return "t" + strconv.Itoa(int(t.ID))
}

// define emits definitions for t and everything below it (iteratively on kids).
func (s *Solver) define(t *Term) {
	if t.Op == OpConst || t.defd == s.gen {
		return
	}
	if t.Op == OpVar {
		t.defd = s.gen
		s.vars = append(s.vars, t)
		s.send("(declare-const " + t.Name + " " + sortName(t.W) + ")\n")
		return
	}
	for i := uint8(0); i < t.N; i++ {
		s.define(t.K[i])
	}
	t.defd = s.gen
	s.defs++
	b := &s.sb
	b.Reset()
	b.WriteString("(define-fun t")
	b.WriteString(strconv.Itoa(int(t.ID)))
	b.WriteString(" () ")
	b.WriteString(sortName(t.W))
	b.WriteString(" (")
	switch t.Op {
	case OpExtract:
		fmt.Fprintf(b, "(_ extract %d %d)", t.Val>>8, t.Val&0xff)
	case OpZExt:
		fmt.Fprintf(b, "(_ zero_extend %d)", t.W-t.K[0].W)
	case OpSExt:
		fmt.Fprintf(b, "(_ sign_extend %d)", t.W-t.K[0].W)
	default:
		b.WriteString(opNames[t.Op])
	}
	for i := uint8(0); i < t.N; i++ {
		b.WriteByte(' ')
		b.WriteString(s.ref(t.K[i]))
	}
	b.WriteString("))\n")
	s.send(b.String())
}

// Sync makes the asserted stack equal to pc.
func (s *Solver) Sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + s.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc && extra. On Sat and wantModel, a model of all declared variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, map[string]uint64, error) {
	t0 := time.Now()
	s.Sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	s.Queries++
	line, err := s.readLine()
	if err != nil {
		if s.Stopped() {
			err = ErrStopped
		}
		return Unknown, nil, err
	}
	var res Result
	var model map[string]uint64
	switch line {
	case "sat":
		res = Sat
		s.SatN++
		if wantModel {
			model, err = s.model()
			if err != nil {
				return Unknown, nil, err
			}
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	case "unknown", "timeout":
		res = Unknown
		if s.second {
			// second opinion: z3, one shot
			s.Fallback++
			res, model = s.oneShot(pc, extra, s.toMs)
			if s.Stopped() {
				return Unknown, nil, ErrStopped
			}
		}
		switch res {
		case Sat:
			s.SatN++
		case Unsat:
			s.UnsatN++
		default:
			s.UnkN++
		}
	default:
		return Unknown, nil, fmt.Errorf("solver: %s", line)
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if SlowDir != "" && d > time.Second {
		script, _ := Standalone(pc, extra)
		os.WriteFile(fmt.Sprintf("%s/q%d-%s-%dms.smt2", SlowDir, time.Now().UnixNano(), line, d.Milliseconds()), []byte(script), 0o644)
	}
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, model, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model() (map[string]uint64, error) {
	m := map[string]uint64{}
	if len(s.vars) == 0 {
		return m, nil
	}
	const chunk = 400
	for i := 0; i < len(s.vars); i += chunk {
		vs := s.vars[i:min(i+chunk, len(s.vars))]
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range vs {
			b.WriteString(v.Name)
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
		s.send(b.String())
		s.in.Flush()
		if err := s.readModel(m); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// readModel reads one s-expression ((name value) ...).
func (s *Solver) readModel(m map[string]uint64) error {
	depth := 0
	var tok []byte
	var toks []string
	flush := func() {
		if len(tok) > 0 {
			toks = append(toks, string(tok))
			tok = tok[:0]
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		switch c {
		case '(':
			flush()
			depth++
		case ')':
			flush()
			depth--
			if depth == 1 {
				if len(toks) >= 2 {
					v, err := parseVal(toks[1:])
					if err != nil {
						return err
					}
					m[toks[0]] = v
				}
				toks = toks[:0]
			}
			if depth == 0 {
				return nil
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			if depth == 0 {
				l, _ := s.out.ReadString('\n')
				return fmt.Errorf("solver: %c%s", c, l)
			}
			tok = append(tok, c)
			if depth == 1 && string(tok) == "error" {
				l, _ := s.out.ReadString('\n')
				return fmt.Errorf("solver error: %s", l)
			}
		}
	}
}

func parseVal(toks []string) (uint64, error) {
	t := toks[0]
	switch {
	case t == "true":
		return 1, nil
	case t == "false":
		return 0, nil
	case strings.HasPrefix(t, "#x"):
		return strconv.ParseUint(t[2:], 16, 64)
	case strings.HasPrefix(t, "#b"):
		return strconv.ParseUint(t[2:], 2, 64)
	case t == "_" && len(toks) > 1 && strings.HasPrefix(toks[1], "bv"):
		return strconv.ParseUint(toks[1][2:], 10, 64)
	}
	return 0, fmt.Errorf("cannot parse model value %v", toks)
}

// Standalone renders pc && extra as a self-contained script and lists its variables.
func Standalone(pc []*Term, extra *Term) (string, []*Term) {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	d := &Solver{in: bufio.NewWriter(io.Discard), Log: &b, gen: ^uint32(0)}
	saved := map[*Term]uint32{}
	var save func(t *Term)
	save = func(t *Term) {
		if _, ok := saved[t]; ok {
			return
		}
		saved[t] = t.defd
		for i := uint8(0); i < t.N; i++ {
			save(t.K[i])
		}
	}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		save(t)
	}
	for _, t := range all {
		d.define(t)
		d.send("(assert " + d.ref(t) + ")\n")
	}
	for t, v := range saved {
		t.defd = v
	}
	b.WriteString("(check-sat)\n")
	return b.String(), d.vars
}

func (s *Solver) oneShot(pc []*Term, extra *Term, toMs int) (Result, map[string]uint64) {
	script, vars := Standalone(pc, extra)
	z := &Solver{argv: []string{"z3-new", "-in", "-smt2"}, toMs: toMs}
	s.mu.Lock()
	s.aux = z
	z.stopped = s.stopped
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.aux = nil
		s.mu.Unlock()
	}()
	if z.start() != nil {
		return Unknown, nil
	}
	defer z.Close()
	z.send(strings.TrimPrefix(script, "(set-logic QF_BV)\n"))
	z.in.Flush()
	l, err := z.readLine()
	if err != nil {
		return Unknown, nil
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "sat":
		z.vars = vars
		m, err := z.model()
		if err != nil {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}
