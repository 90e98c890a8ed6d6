package sx

import (
	"fmt"
	"os"
	"sort"
	"sync"

	"gosym/smt"
)

var dbgOn = os.Getenv("GOSYM_SITES") != ""
var dbgMu sync.Mutex
var dbgSites = map[string]int{}

func (m *Machine) dbgSite(t *smt.Term, r smt.Result) {
	if !dbgOn {
		return
	}
	k := fmt.Sprintf("%v%s %s", r, m.where(), shape(t, 5))
	dbgMu.Lock()
	dbgSites[k]++
	dbgMu.Unlock()
}

// DumpSites prints where solver queries come from.
func DumpSites() {
	if !dbgOn {
		return
	}
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range dbgSites {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i > 40 {
			break
		}
		fmt.Fprintln(os.Stderr, x.n, x.k)
	}
}

var opNames = []string{"const", "var", "not", "and", "or", "=", "ite", "bvnot", "neg", "&", "|", "^", "+", "-", "*", "/", "%", "s/", "s%", "<<", ">>", ">>>", "<", "<=", "s<", "s<=", "extract", "concat", "zext", "sext"}

func shape(t *smt.Term, d int) string {
	switch {
	case t.IsConst():
		return fmt.Sprintf("%d", t.Val)
	case t.Op == smt.OpVar:
		return fmt.Sprintf("v%d", t.W)
	case d == 0:
		return "..."
	}
	s := "(" + opNames[t.Op]
	for i := 0; i < int(t.N); i++ {
		s += " " + shape(t.K[i], d-1)
	}
	return s + ")"
}

var xcheck = os.Getenv("GOSYM_XCHECK") != ""

// crossCheck compares a decision of the byte domains with the solver's.
func (m *Machine) crossCheck(t *smt.Term, v, forced bool, alt map[string]uint64) {
	o := t
	if v {
		o = m.c.Not(t)
	}
	r, _ := m.check(o, false)
	if (r == smt.Unsat) != forced && r != smt.Unknown {
		panic(fmt.Sprintf("domain decision differs from the solver: forced=%v solver=%v %s", forced, r, shape(t, 8)))
	}
	if !forced {
		m.c.SetModel(alt)
		if m.c.Eval(o) != 1 {
			panic("alternative model does not satisfy the condition " + shape(o, 8))
		}
		for _, p := range m.pc {
			if m.c.Eval(p) != 1 {
				panic("alternative model violates the path condition")
			}
		}
		m.c.SetModel(m.model)
	}
}
