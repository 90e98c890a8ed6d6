package sx

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Models of sync.Map and sync/atomic.Value: a map owned by the location of the value.

var anyT = types.NewInterfaceType(nil, nil)

func (m *Machine) smap(p Value) *MapV {
	l := p.(Ptr).loc
	if l == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	if mp := m.smapBase[l]; mp != nil {
		return mp
	}
	if mp := m.smaps[l]; mp != nil {
		return mp
	}
	mp := &MapV{kt: anyT, vt: anyT, idx: map[string]int{}, base: m.initing > 0}
	if mp.base {
		m.smapBase[l] = mp
	} else {
		m.smaps[l] = mp
	}
	return mp
}

func (m *Machine) smapGet(mp *MapV, k Value) (Value, bool) {
	if i := m.mapFind(mp, k); i >= 0 {
		return mp.ents[i].v, true
	}
	return Iface{}, false
}

func init() {
	b := func(m *Machine, x bool) Value { return m.c.Bool(x) }
	key := func(m *Machine) Value { return Iface{types.Typ[types.Bool], m.c.True} }
	noNil := func(m *Machine, v Value) {
		if v.(Iface).t == nil {
			m.goPanicRT("sync/atomic: store of nil value into Value")
		}
	}
	for n, f := range map[string]func(m *Machine, a []Value) Value{
		"(*sync.Map).Load": func(m *Machine, a []Value) Value {
			v, ok := m.smapGet(m.smap(a[0]), a[1])
			return TupleV{v, b(m, ok)}
		},
		"(*sync.Map).Store": func(m *Machine, a []Value) Value { m.mapSet(m.smap(a[0]), a[1], a[2]); return nil },
		"(*sync.Map).LoadOrStore": func(m *Machine, a []Value) Value {
			mp := m.smap(a[0])
			if v, ok := m.smapGet(mp, a[1]); ok {
				return TupleV{v, b(m, true)}
			}
			m.mapSet(mp, a[1], a[2])
			return TupleV{a[2], b(m, false)}
		},
		"(*sync.Map).LoadAndDelete": func(m *Machine, a []Value) Value {
			mp := m.smap(a[0])
			v, ok := m.smapGet(mp, a[1])
			m.mapDel(mp, a[1])
			return TupleV{v, b(m, ok)}
		},
		"(*sync.Map).Delete": func(m *Machine, a []Value) Value { m.mapDel(m.smap(a[0]), a[1]); return nil },
		"(*sync.Map).Swap": func(m *Machine, a []Value) Value {
			mp := m.smap(a[0])
			v, ok := m.smapGet(mp, a[1])
			m.mapSet(mp, a[1], a[2])
			return TupleV{v, b(m, ok)}
		},
		"(*sync/atomic.Value).Load": func(m *Machine, a []Value) Value {
			v, _ := m.smapGet(m.smap(a[0]), key(m))
			return v
		},
		"(*sync/atomic.Value).Store": func(m *Machine, a []Value) Value {
			noNil(m, a[1])
			m.mapSet(m.smap(a[0]), key(m), a[1])
			return nil
		},
		"(*sync/atomic.Value).Swap": func(m *Machine, a []Value) Value {
			noNil(m, a[1])
			v, _ := m.smapGet(m.smap(a[0]), key(m))
			m.mapSet(m.smap(a[0]), key(m), a[1])
			return v
		},
		"(*sync/atomic.Value).CompareAndSwap": func(m *Machine, a []Value) Value {
			noNil(m, a[2])
			v, _ := m.smapGet(m.smap(a[0]), key(m))
			if m.decide(m.eq(anyT, v, a[1])) {
				m.mapSet(m.smap(a[0]), key(m), a[2])
				return m.c.True
			}
			return m.c.False
		},
	} {
		intrinsics[n] = atomicOp(f)
	}
	intrinsics["(*sync.Map).Range"] = func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		m.point(fr)
		mp := m.smap(a[0])
		for _, e := range append([]*mapEnt(nil), mp.ents...) {
			if e.dead {
				continue
			}
			if !m.decide(m.call(fr, a[1].(*FuncV), []Value{e.k, e.v}).(*smt.Term)) {
				break
			}
		}
		return nil, true
	}
}
