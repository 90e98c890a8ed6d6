package hoid

import (
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// Observations repeated between modifications: what one call found must not linger.

var pool = [][]uint32{{1}, {1, 1}, {1, 2}, {1, 3}, {1, 1, 5}, {2}, {3, 1}}

// pooled is an OID of the pool, or 1.x with an arbitrary x.
func pooled() []uint32 {
	k := zz.Choice(len(pool) + 1)
	if k == len(pool) {
		return []uint32{1, zz.U32()}
	}
	return append([]uint32(nil), pool[k]...)
}

// between observes two trees of the same contents before and after each of two arbitrary
// modifications of the first and after one of the second.
func between(look func(*model)) {
	m, o := newModel(), newModel()
	for _, id := range [][]uint32{{1, 1}, {1, 2}, {1, 3, 1}, {2}} {
		m.add(id)
		o.add(id)
	}
	look(m)
	look(o)
	modify := func(m *model) {
		switch zz.Choice(3) {
		case 0:
			m.add(pooled())
		case 1:
			m.remove(pooled())
		default:
			m.clear()
		}
	}
	modify(m)
	look(m)
	look(o)
	if zz.Choice(2) == 1 {
		m, o = o, m
	}
	modify(m)
	look(m)
	look(o)
}

// One lookup (of 1, 1.1, 1.2, 1.3, 1.1.5, 2, 3.1 or 1.x) repeated before, between and after two modifications (add or remove of any of these OIDs, clear) of one or of two trees.
func C14_Between() {
	id := pooled()
	between(func(m *model) { m.get(id) })
}

// One lookup (start empty, 1, 1.1, 1.2, 1.3, 2 or 1.x, include, no end or end 2) repeated before, between and after two modifications (add or remove of 1, 1.1, 1.2, 1.3, 1.1.5, 2, 3.1 or 1.x, clear) of one or of two trees.
func C15_Between() {
	var start, end []uint32
	switch k := zz.Choice(7); k {
	case 0:
	case 6:
		start = []uint32{1, zz.U32()}
	case 5:
		start = []uint32{2}
	default:
		start = pool[k-1]
	}
	if zz.Choice(2) == 1 {
		end = []uint32{2}
	}
	incl := zz.Choice(2) == 1
	between(func(m *model) {
		zz.Assert(m.t.GetNextNode(start, end, incl) == m.next(start, end, incl), nextLabel)
	})
}

// A traversal repeated before, between and after two modifications (add or remove of 1, 1.1, 1.2, 1.3, 1.1.5, 2, 3.1 or 1.x, clear) of one or of two trees; an empty tree has no leaves.
func C16_Between() {
	between(func(m *model) {
		m.leaves()
		invariants(m.t.GetNode(nil))
	})
}

// All lookups that one may make on a tree, in any order, do not change what the others find: two of get, next and traversal, on 1, 1.1, 1.2, 1.3, 1.1.5, 2, 3.1 or 1.x, then all of them.
func C14C15C16_Looks() {
	m := newModel()
	for _, id := range [][]uint32{{1, 1}, {1, 2}, {1, 3, 1}, {2}} {
		m.add(id)
	}
	for i := 0; i < 2; i++ {
		switch zz.Choice(3) {
		case 0:
			m.t.GetNode(pooled())
		case 1:
			m.t.GetNextNode(pooled(), nil, zz.Choice(2) == 1)
		default:
			m.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
				for i := range id {
					id[i] = 7
				}
			})
		}
	}
	m.all()
	m.leaves()
	id := []uint32{1, 1}
	zz.Assert(m.t.GetNextNode(id, nil, false) == m.next(id, nil, false), nextLabel)
	zz.Assert(m.t.GetNextNode(nil, []uint32{1, 3}, true) == m.next(nil, []uint32{1, 3}, true), nextLabel)
}

// A walk of one or two steps at a time, each from the leaf found last (from the start after the last leaf), before, between and after two modifications (add or remove of 1, 1.1, 1.2, 1.3, 1.1.5, 2, 3.1 or 1.x, clear) of one or of two trees.
func C15_WalkBetween() {
	n := zz.Range(1, 2)
	var at [2][]uint32
	i := 0
	between(func(m *model) {
		for k := 0; k < n; k++ {
			x := m.t.GetNextNode(at[i], nil, false)
			zz.Assert(x == m.next(at[i], nil, false), nextLabel)
			at[i] = nil
			if x != nil {
				at[i] = pathOf(x)
			}
		}
		i = 1 - i
	})
}

type mark struct{}

func (mark) Error() string { return "" }

// Data of eleven kinds at a leaf, at an inner node and at a node that is removed and added again does not change what any operation finds.
func C14C15C16_Data() {
	data := []interface{}{nil, 0, "", false, mark{}, []byte(nil), (*oid.Node)(nil), []uint32{1, 1}, oid.NewTree(), &oid.Node{}, struct{}{}}
	d := data[zz.Choice(len(data))]
	m := newModel()
	m.free = true
	look := func() {
		m.all()
		m.leaves()
		incl := zz.Choice(2) == 1
		for _, id := range [][]uint32{nil, {1}, {1, 1}, {1, 1, 5}, {1, 2}, {2}} {
			zz.Assert(m.t.GetNextNode(id, nil, incl) == m.next(id, nil, incl), nextLabel)
		}
	}
	for _, id := range [][]uint32{{1, 1}, {1, 2}, {1, 1, 5}, {2}} {
		m.add(id)
	}
	k := zz.Choice(4)
	for i, id := range [][]uint32{{1, 1}, {1, 1, 5}, {2}, {1, 2}} {
		if k == 3 || k == i {
			m.t.GetNode(id).Data = d
		}
	}
	look()
	m.remove([]uint32{1, 1, 5})
	m.remove([]uint32{2})
	m.add([]uint32{2})
	m.add([]uint32{1, 2, 7})
	look()
}

// Arguments that are parts of one array of five words, each 1..4: a lookup of the next node between two of them, then an addition, a lookup, another next and a removal, on a tree of six leaves; the array stays as it is.
func C14C15_SharedArgs() {
	m := newModel()
	for _, id := range [][]uint32{{1, 1}, {1, 3}, {2, 2, 2}, {2, 3}, {3}, {4, 1}} {
		m.add(id)
	}
	w := make([]uint32, 5)
	for i := 0; i < 3; i++ {
		w[i] = uint32(zz.Range(1, 4))
	}
	keep := append([]uint32(nil), w...)
	i, j := zz.Range(0, 3), zz.Range(1, 3)
	start, end := w[:i], w[:j]
	if zz.Choice(2) == 1 {
		end = w[1:j]
	}
	incl := zz.Choice(2) == 1
	look := func() {
		want := m.next(append([]uint32(nil), start...), append([]uint32(nil), end...), incl)
		zz.Assert(m.t.GetNextNode(start, end, incl) == want, nextLabel)
		zz.Assert(zz.EqU32s(w, keep), "arguments and what lies behind them are unchanged")
	}
	look()
	m.add(start)
	m.get(end)
	look()
	m.remove(end)
	m.all()
	zz.Assert(zz.EqU32s(w, keep), "arguments and what lies behind them are unchanged")
}
