package sx

import (
	"math/bits"

	"gosym/smt"
)

// Byte domains: a sound preprocessing of branch feasibility. For every variable of at most
// 8 bits the set of values allowed by the path condition's unary constraints is kept
// exactly; a branch whose condition depends (given the variables already fixed) on one such
// variable only is decided by that set when it leaves one side, and both sides are feasible
// without a query when the variable occurs in no other kind of constraint. Everything else,
// and every assertion, goes to the solver.

type set256 [4]uint64

func (s *set256) has(v uint64) bool { return s[v>>6]>>(v&63)&1 == 1 }
func (s *set256) add(v uint64)      { s[v>>6] |= 1 << (v & 63) }
func (s *set256) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *set256) first() uint64 {
	for i, w := range s {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}
func (s set256) and(t set256) set256 {
	return set256{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s set256) sub(t set256) set256 {
	return set256{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}

type domains struct {
	dom   map[*smt.Term]*set256
	fixed map[*smt.Term]uint64
	multi map[*smt.Term]bool
}

func newDomains() domains {
	return domains{map[*smt.Term]*set256{}, map[*smt.Term]uint64{}, map[*smt.Term]bool{}}
}

func narrow(v *smt.Term) bool { return v.W <= 8 }

func size(v *smt.Term) uint64 {
	if v.W == 0 {
		return 2
	}
	return 1 << v.W
}

func (m *Machine) domOf(v *smt.Term) *set256 {
	d := m.d.dom[v]
	if d == nil {
		d = &set256{}
		n := size(v)
		for i := uint64(0); i < n; i++ {
			d.add(i)
		}
		m.d.dom[v] = d
	}
	return d
}

func (m *Machine) isFixed(v *smt.Term) bool {
	_, ok := m.d.fixed[v]
	return ok
}

const manyVars = 48

// effective returns the variables of t that are not fixed; ok is false when t has too many variables.
func (m *Machine) effective(t *smt.Term) (free []*smt.Term, ok bool) {
	vs := m.c.Vars(t)
	if len(vs) > manyVars {
		return nil, false
	}
	for _, v := range vs {
		if !m.isFixed(v) {
			free = append(free, v)
			if len(free) > 1 {
				return free, true
			}
		}
	}
	return free, true
}

// table evaluates t for every value of v, the other variables as in the model.
func (m *Machine) table(t, v *smt.Term) set256 {
	pure := len(m.c.Vars(t)) == 1
	if pure {
		if s, ok := m.tabs[t]; ok {
			return s
		}
	}
	var s set256
	n := size(v)
	dom := m.d.dom[v]
	for x := uint64(0); x < n; x++ {
		if !pure && dom != nil && !dom.has(x) {
			continue
		}
		if m.c.EvalWith(t, v, x) == 1 {
			s.add(x)
		}
	}
	if pure {
		m.tabs[t] = s
	}
	return s
}

// learn records a new path condition.
func (m *Machine) learn(t *smt.Term) {
	free, ok := m.effective(t)
	if ok && len(free) == 0 {
		return
	}
	if ok && len(free) == 1 {
		v := free[0]
		if narrow(v) {
			d := m.domOf(v)
			*d = d.and(m.table(t, v))
			if d.count() == 1 {
				m.d.fixed[v] = d.first()
			}
			return
		}
		if t.Op == smt.OpEq && t.K[0] == v && t.K[1].IsConst() {
			m.d.fixed[v] = t.K[1].Val
			return
		}
	}
	for _, v := range m.c.Vars(t) {
		m.d.multi[v] = true
	}
}

// quick decides a condition without the solver: ok tells whether it could; forced whether
// only the model's side is feasible; otherwise alt is a model of the other side.
func (m *Machine) quick(t *smt.Term, val bool) (ok, forced bool, alt map[string]uint64) {
	if m.val3(t) != maybe {
		return true, true, nil
	}
	ch := map[*smt.Term]set256{}
	if !m.flip(t, !val, ch) {
		return
	}
	alt = make(map[string]uint64, len(m.model)+1)
	for k, y := range m.model {
		alt[k] = y
	}
	for v, s := range ch {
		alt[v.Name] = s.first()
	}
	return true, false, alt
}

func (m *Machine) withVar(v *smt.Term, x uint64) map[string]uint64 {
	md := make(map[string]uint64, len(m.model)+1)
	for k, y := range m.model {
		md[k] = y
	}
	md[v.Name] = x
	return md
}

// quickValues enumerates the values of t when they depend on one independent byte only.
func (m *Machine) quickValues(t *smt.Term) (vals []uint64, reps []map[string]uint64, ok bool) {
	free, fin := m.effective(t)
	if !fin || len(free) > 1 {
		return
	}
	if len(free) == 0 {
		return []uint64{m.c.Eval(t)}, nil, true
	}
	v := free[0]
	if !narrow(v) || m.d.multi[v] {
		return
	}
	d := m.domOf(v)
	seen := map[uint64]bool{}
	cur := m.c.Eval(t)
	seen[cur] = true
	vals = []uint64{cur}
	for x := uint64(0); x < size(v); x++ {
		if !d.has(x) {
			continue
		}
		y := m.c.EvalWith(t, v, x)
		if !seen[y] {
			seen[y] = true
			vals = append(vals, y)
			reps = append(reps, m.withVar(v, x))
		}
	}
	return vals, reps, true
}

type tri int8

const (
	no tri = iota - 1
	maybe
	yes
)

// val3 evaluates a condition over the domains: yes/no when every allowed assignment agrees.
func (m *Machine) val3(t *smt.Term) tri {
	switch t.Op {
	case smt.OpConst:
		if t.Val == 1 {
			return yes
		}
		return no
	case smt.OpNot:
		return -m.val3(t.K[0])
	}
	if v, ok := m.known[t]; ok {
		if v {
			return yes
		}
		return no
	}
	switch t.Op {
	case smt.OpAnd:
		a := m.val3(t.K[0])
		if a == no {
			return no
		}
		return min(a, m.val3(t.K[1]))
	case smt.OpOr:
		a := m.val3(t.K[0])
		if a == yes {
			return yes
		}
		return max(a, m.val3(t.K[1]))
	}
	free, ok := m.effective(t)
	if !ok || len(free) > 1 {
		return maybe
	}
	if len(free) == 0 {
		if m.c.Eval(t) == 1 {
			return yes
		}
		return no
	}
	v := free[0]
	if !narrow(v) {
		return maybe
	}
	d := *m.domOf(v)
	tab := m.table(t, v)
	if x := d.and(tab); x.empty() {
		return no
	}
	if x := d.sub(tab); x.empty() {
		return yes
	}
	return maybe
}

// simp drops the parts of a condition the domains already decide.
func (m *Machine) simp(t *smt.Term) *smt.Term {
	switch t.Op {
	case smt.OpNot:
		return m.c.Not(m.simp(t.K[0]))
	case smt.OpAnd:
		return m.c.And(m.simp(t.K[0]), m.simp(t.K[1]))
	case smt.OpOr:
		return m.c.Or(m.simp(t.K[0]), m.simp(t.K[1]))
	}
	switch m.val3(t) {
	case yes:
		return m.c.True
	case no:
		return m.c.False
	}
	return t
}

// flip looks for an assignment of independent bytes under which t takes the value want.
func (m *Machine) flip(t *smt.Term, want bool, out map[*smt.Term]set256) bool {
	switch m.val3(t) {
	case yes:
		return want
	case no:
		return !want
	}
	switch t.Op {
	case smt.OpNot:
		return m.flip(t.K[0], !want, out)
	case smt.OpAnd, smt.OpOr:
		if (t.Op == smt.OpAnd) == want {
			return m.flip(t.K[0], want, out) && m.flip(t.K[1], want, out)
		}
		for _, k := range t.K[:2] {
			if m.val3(k) == maybe && m.flip(k, want, out) {
				return true
			}
		}
		return false
	}
	free, ok := m.effective(t)
	if !ok || len(free) != 1 || !narrow(free[0]) || m.d.multi[free[0]] {
		return false
	}
	v := free[0]
	d, have := out[v]
	if !have {
		d = *m.domOf(v)
	}
	tab := m.table(t, v)
	if want {
		d = d.and(tab)
	} else {
		d = d.sub(tab)
	}
	if d.empty() {
		return false
	}
	out[v] = d
	return true
}
