package hoid

import (
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// wide is a tree in which one node has many children, with a sorted list of them as reference.
type wide struct {
	t    *oid.Tree
	base []uint32
	sub  []uint32 // ascending
	node []*oid.Node
}

func (w *wide) id(x uint32) []uint32 { return append(append([]uint32(nil), w.base...), x) }

// at is the position of the first child not below x.
func (w *wide) at(x uint32) int {
	lo, hi := 0, len(w.sub)
	for lo < hi {
		m := (lo + hi) / 2
		if w.sub[m] < x {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo
}

func (w *wide) add(x uint32) {
	n := w.t.AddNode(w.id(x))
	i := w.at(x)
	if i < len(w.sub) && w.sub[i] == x {
		zz.Assert(n == nil, "AddNode of a present OID returns nil")
		return
	}
	zz.Assert(n != nil && n == w.t.GetNode(w.id(x)), "AddNode of a new OID returns its node")
	if n != nil {
		zz.Assert(n.Data == nil, "a new node has no data")
		n.Data = x
	}
	w.sub = append(w.sub, 0)
	copy(w.sub[i+1:], w.sub[i:])
	w.sub[i] = x
	w.node = append(w.node, nil)
	copy(w.node[i+1:], w.node[i:])
	w.node[i] = n
}

func (w *wide) remove(x uint32) {
	ok := w.t.RemoveNode(w.id(x))
	i := w.at(x)
	there := i < len(w.sub) && w.sub[i] == x
	zz.Assert(ok == there, "RemoveNode reports whether the node was there")
	if there {
		w.sub = append(w.sub[:i], w.sub[i+1:]...)
		w.node = append(w.node[:i], w.node[i+1:]...)
	}
}

func (w *wide) get(x uint32) {
	n := w.t.GetNode(w.id(x))
	i := w.at(x)
	if i < len(w.sub) && w.sub[i] == x {
		zz.Assert(n == w.node[i] && n.Data == w.sub[i], "GetNode returns the node it always returned, with its data")
	} else {
		zz.Assert(n == nil, "GetNode of an absent OID returns nil")
	}
}

// all compares the whole tree: the children of the wide node, lookups, traversal.
func (w *wide) all() {
	root := w.t.GetNode(nil)
	invariants(root)
	p := w.t.GetNode(w.base)
	zz.Assert(p != nil && len(p.Children) == len(w.sub), "the children of the wide node")
	if p == nil || len(p.Children) != len(w.sub) {
		return
	}
	for i := range w.sub {
		c := p.Children[i]
		zz.Assert(c == w.node[i] && c.Subid == w.sub[i] && c.Data == w.sub[i], "every child is in place")
	}
	for i := 0; i < len(w.sub); i += 1 + len(w.sub)/16 {
		zz.Assert(w.t.GetNode(w.id(w.sub[i])) == w.node[i], "every OID of the set is found at its node")
	}
	zz.Assert(count(root) == 1+len(w.base)+len(w.sub), "the tree has no other nodes")
	i := 0
	good := true
	w.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
		if i < len(w.sub) {
			good = zz.And(good, n == w.node[i], zz.EqU32s(id, w.id(w.sub[i])))
		}
		i++
	})
	if len(w.sub) > 0 {
		zz.Assert(i == len(w.sub), "the visitor is called once per leaf")
		zz.Assert(good, "leaves come in ascending order with their own OIDs")
	} else {
		zz.Assert(i == 1, "the only leaf is visited")
	}
}

// newWide builds the tree with n children 10, 20, ... added in the given order.
func newWide(n, order int) *wide {
	w := &wide{t: oid.NewTree(), base: []uint32{1, 3}}
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2: // alternately from both ends
			k = i / 2
			if i&1 == 1 {
				k = n - 1 - i/2
			}
		}
		w.add(uint32(10 * (k + 1)))
	}
	return w
}

func wideSize() int { return zz.Pick(1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 33, 65) }

// A node with 1..65 (thorough 1..300) children (boundary numbers) added in ascending, descending or alternating order; an arbitrary child added, removed or looked up; then the whole tree.
func C14C16_Large() {
	n := wideSize()
	if zz.Thorough() {
		n = zz.Pick(64, 100, 127, 129, 256, 257, 300)
	}
	w := newWide(n, zz.Choice(3))
	k := zz.Choice(3)
	x := zz.U32()
	switch k {
	case 0:
		w.add(x)
	case 1:
		w.remove(x)
	default:
		w.get(x)
		return
	}
	w.all()
	w.get(10)
	w.get(uint32(10*n) + 1)
}

// Shrinking: of 1..65 children all but 0..2 removed from the front, from the back or alternately; then an arbitrary child added or looked up, and the whole tree.
func C14C16_Shrink() {
	n := wideSize()
	w := newWide(n, zz.Choice(2))
	k := zz.Choice(3)
	order := zz.Choice(3)
	for i := 0; i < n-k; i++ {
		j := 0
		if order == 1 || order == 2 && i&1 == 1 {
			j = len(w.sub) - 1
		}
		w.remove(w.sub[j])
	}
	w.all()
	x := zz.U32()
	w.add(x)
	w.get(zz.U32())
	w.all()
}

// history runs n operations on OIDs of length 1..4 over three sub-identifiers, determined by the seed.
func (m *model) history(seed uint32, n int) {
	r := seed*2654435761 + 12345
	next := func(k uint32) uint32 {
		r = r*1664525 + 1013904223
		return r >> 16 % 32768 % k
	}
	for i := 0; i < n; i++ {
		id := make([]uint32, 1+next(4))
		for j := range id {
			id[j] = 3 + 2*next(3)
		}
		switch next(8) {
		case 0, 1:
			m.remove(id)
		case 2:
			if next(8) == 0 {
				m.clear()
			}
		default:
			m.add(id)
		}
	}
}

// Long histories: 24 (thorough 96) different sequences of 60 fixed operations on OIDs of length 1..4 over three sub-identifiers, then one arbitrary operation on an OID of length 1..2 (thorough 1..3), or an arbitrary lookup of length 1..3.
func C14_HistoryLong() {
	m := newModel()
	m.history(uint32(zz.Choice(bound(24, 96))), 60)
	m.all()
	if zz.Choice(2) == 0 {
		m.get(arb(zz.Range(1, 3)))
		return
	}
	m.op(1, bound(2, 3))
	m.all()
}

// Long histories: 48 (thorough 400) different sequences of 60 fixed operations on OIDs of length 1..4 over three sub-identifiers, one arbitrary add or removal (length 1..2), then traversal and invariants.
func C16_HistoryLong() {
	m := newModel()
	m.history(uint32(1000+zz.Choice(bound(48, 400))), 60)
	if zz.Choice(2) == 0 {
		m.add(arb(zz.Range(1, 2)))
	} else {
		m.remove(arb(zz.Range(1, 2)))
	}
	invariants(m.t.GetNode(nil))
	m.leaves()
}

// Long histories: 24 (thorough 96) different sequences of 40 fixed operations on OIDs of length 1..4 over three sub-identifiers, then the lookup with arbitrary start of length 0..3 and no end, or fixed start and arbitrary end of length 1..3.
func C15_HistoryLong() {
	m := newModel()
	m.history(uint32(5000+zz.Choice(bound(24, 96))), 40)
	if zz.Choice(2) == 0 {
		m.checkNext(arb(zz.Range(0, 3)), nil, nextLabel)
	} else {
		m.checkNext([]uint32{5, 3}, arb(zz.Range(1, 3)), nextLabel)
	}
}

// A wide tree: 1..65 (thorough 1..300) children of one node, each third with a child of its own; arbitrary start of length 1..4 (no end, or a fixed end), or a fixed start and an arbitrary end of length 3..4.
func C15_Large() {
	n := wideSize()
	if zz.Thorough() {
		n = zz.Pick(64, 100, 127, 129, 256, 257, 300)
	}
	t := oid.NewTree()
	var ids [][]uint32
	var nodes []*oid.Node
	for i := 1; i <= n; i++ {
		id := []uint32{1, 3, uint32(10 * i)}
		if i%3 == 0 {
			id = append(id, uint32(i))
		}
		ids = append(ids, id)
		nodes = append(nodes, t.AddNode(append([]uint32(nil), id...)))
	}
	tail := func() []uint32 { return append([]uint32{1, 3}, arb(zz.Range(1, 2))...) }
	var start, end []uint32
	switch zz.Choice(3) {
	case 0:
		start = tail()
		if zz.Choice(4) == 0 {
			start = arb(1)
		}
	case 1:
		start, end = tail(), ids[n/2]
	default:
		start, end = ids[n/2], tail()
	}
	incl := zz.Choice(2) == 1
	got := t.GetNextNode(start, end, incl)
	lo, hi := 0, n
	for lo < hi {
		m := (lo + hi) / 2
		below := refLt(ids[m], start)
		if !incl {
			below = zz.Or(below, zz.EqU32s(ids[m], start))
		}
		if below {
			lo = m + 1
		} else {
			hi = m
		}
	}
	var want *oid.Node
	if lo < n && (len(end) == 0 || refLt(ids[lo], end)) {
		want = nodes[lo]
	}
	zz.Assert(got == want, nextLabel)
}

// A walk over 1..65 children, each third with two children of its own, from the empty OID and from an arbitrary child visits the remaining leaves in order.
func C15_WalkLong() {
	n := wideSize()
	t := oid.NewTree()
	var ids [][]uint32
	for i := 1; i <= n; i++ {
		if i%3 != 0 {
			ids = append(ids, []uint32{1, 3, uint32(10 * i)})
			continue
		}
		ids = append(ids, []uint32{1, 3, uint32(10 * i), 0}, []uint32{1, 3, uint32(10 * i), 4294967295})
	}
	for i := range ids {
		t.AddNode(append([]uint32(nil), ids[(i*7)%len(ids)]...))
	}
	if len(ids)%7 == 0 {
		for i := range ids {
			t.AddNode(append([]uint32(nil), ids[i]...))
		}
	}
	var cur []uint32
	i := 0
	if zz.Choice(2) == 1 {
		cur = []uint32{1, 3, zz.U32()}
		for i < len(ids) && (refLt(ids[i], cur) || zz.EqU32s(ids[i], cur)) {
			i++
		}
	}
	for ; ; i++ {
		n := t.GetNextNode(cur, nil, false)
		if n == nil {
			break
		}
		if i >= len(ids) {
			zz.Assert(false, "a walk ends after the last leaf")
			return
		}
		cur = pathOf(n)
		zz.Assert(zz.EqU32s(cur, ids[i]), "a walk visits the leaves in order")
	}
	zz.Assert(i == len(ids), "a walk visits every leaf")
}

// Deep branches: paths of 11, 16, 31..33, 63..65, 127..130 sub-identifiers with three leaves under each; the OIDs handed to the visitor are right and do not share storage.
func C16_Deeper() { deepStorage(zz.Pick(11, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130)) }

// Leaves hanging off every level of a path of 8, 33 or 130 sub-identifiers, the deepest first or last in order; one sub-identifier arbitrary.
func C16_Comb() {
	n := zz.Pick(8, 33, 130)
	side := uint32(zz.Pick(1, 9))
	t := oid.NewTree()
	path := make([]uint32, n)
	for i := range path {
		path[i] = 5
	}
	t.AddNode(append([]uint32(nil), path...))
	var want [][]uint32
	for i := 0; i < n; i++ {
		id := append(append([]uint32(nil), path[:i]...), side)
		want = append(want, id)
		t.AddNode(append([]uint32(nil), id...))
	}
	if side == 1 {
		want = append(want, path)
	} else {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
		want = append([][]uint32{path}, want...)
	}
	x := zz.U32()
	id := append(append([]uint32(nil), path[:n/2]...), x, 7)
	t.AddNode(id)
	var got [][]uint32
	t.ForRangeLeaves(func(id []uint32, n *oid.Node) { got = append(got, id) })
	k := 0
	for i := range got {
		if i > 0 {
			zz.Assert(refLt(got[i-1], got[i]), "leaves come in strictly ascending order")
		}
		if k < len(want) && len(got[i]) == len(want[k]) && zz.EqU32s(got[i], want[k]) {
			k++
			continue
		}
		if k < len(want) && x == side && zz.EqU32s(got[i][:len(got[i])-1], want[k]) {
			k++
		}
		zz.Assert(zz.EqU32s(got[i], id), "each visit passes a leaf's own OID")
	}
	zz.Assert(k == len(want), "every leaf is visited")
	invariants(t.GetNode(nil))
}

// Huge trees: 129..2049 children of one node, one of them around the first, a middle or the last place added, removed or looked up (its sub-identifier arbitrary there); then the whole tree.
func C14C16_Huge() {
	n := zz.Pick(129, 255, 256, 257, 513, 1025, 1100, 2049)
	w := newWide(n, 0)
	k := zz.Choice(3)
	at := uint32(10 * zz.Pick(1, n/2, n))
	x := zz.U32()
	zz.Assume(x+10 > at && x < at+10)
	switch k {
	case 0:
		w.add(x)
	case 1:
		w.remove(x)
	default:
		w.get(x)
	}
	w.all()
	w.get(10)
}

// Lookups in huge trees: 129..1100 children of one node; a start that is arbitrary around the first, a middle or the last child, no end or an end further on.
func C15_Huge() {
	n := zz.Pick(129, 257, 513, 1100)
	w := newWide(n, 0)
	at := uint32(10 * zz.Pick(1, n/2, n))
	x := zz.U32()
	zz.Assume(x+10 > at && x < at+10)
	var end []uint32
	switch zz.Choice(3) {
	case 0:
	case 1:
		end = w.id(at)
	default:
		end = w.id(uint32(10*n) + 1)
	}
	incl := zz.Choice(2) == 1
	start := w.id(x)
	if end != nil && !incl {
		start = append(start, 0)
	}
	got := w.t.GetNextNode(append([]uint32(nil), start...), end, incl)
	lo := 0
	for lo < n && (w.sub[lo]+20 < at || refLt(w.id(w.sub[lo]), start) || !incl && len(start) == 3 && w.sub[lo] == x) {
		lo++
	}
	var want *oid.Node
	if lo < n && (end == nil || refLt(w.id(w.sub[lo]), end)) {
		want = w.node[lo]
	}
	zz.Assert(got == want, nextLabel)
}

// Many leaves in all: 40 nodes of 33 children each, or 300 of 5; one more leaf with an arbitrary sub-identifier around the 20th node; traversal and a walk from leaf to leaf give all of them in order.
func C15C16_ManyLeaves() {
	a, b := 40, 33
	if zz.Choice(2) == 1 {
		a, b = 300, 5
	}
	t := oid.NewTree()
	x := zz.U32()
	zz.Assume(x > 190 && x < 210)
	own := []uint32{1, x, 7}
	var want [][]uint32
	for i := 1; i <= a; i++ {
		for j := 1; j <= b; j++ {
			id := []uint32{1, uint32(10 * i), uint32(10 * j)}
			t.AddNode(append([]uint32(nil), id...))
			want = append(want, id)
		}
	}
	t.AddNode(append([]uint32(nil), own...))
	k := 0
	for k < len(want) && refLt(want[k], own) {
		k++
	}
	want = append(want[:k:k], append([][]uint32{own}, want[k:]...)...)
	i, good := 0, true
	t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
		if i < len(want) {
			good = zz.And(good, zz.EqU32s(id, want[i]))
		}
		i++
	})
	zz.Assert(i == len(want), "the visitor is called once per leaf")
	zz.Assert(good, "leaves come in ascending order with their own OIDs")
	var cur []uint32
	for i = 0; ; i++ {
		n := t.GetNextNode(cur, nil, false)
		if n == nil {
			break
		}
		if i >= len(want) {
			zz.Assert(false, "a walk ends after the last leaf")
			return
		}
		cur = pathOf(n)
		zz.Assert(zz.EqU32s(cur, want[i]), "a walk visits the leaves in order")
	}
	zz.Assert(i == len(want), "a walk visits every leaf")
}
