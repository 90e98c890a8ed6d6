package hoid

import (
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// ---- C26: operations are atomic

// res is what an operation returned.
type res struct {
	kind int
	ok   bool
	node *oid.Node
	seen [][]uint32
}

type op struct {
	kind int
	a, b []uint32
	incl bool
}

func (o op) on(t *oid.Tree) (r res) {
	r.kind = o.kind
	switch o.kind {
	case 0:
		r.node = t.AddNode(o.a)
	case 1:
		r.node = t.GetNode(o.a)
	case 2:
		r.node = t.GetNextNode(o.a, o.b, o.incl)
	case 3:
		r.ok = t.RemoveNode(o.a)
	case 4:
		t.ForRangeLeaves(func(id []uint32, n *oid.Node) { r.seen = append(r.seen, id) })
	default:
		t.Clear()
	}
	return
}

// same tells whether two outcomes on two trees are the same; nodes are the same when they stand at the same place, in the tree or cut off it.
func same(t, u *oid.Tree, x, y res) bool {
	if x.ok != y.ok || (x.node == nil) != (y.node == nil) || len(x.seen) != len(y.seen) {
		return false
	}
	c := true
	for i := range x.seen {
		c = zz.And(c, zz.EqU32s(x.seen[i], y.seen[i]))
	}
	if x.node != nil {
		c = zz.And(c, zz.EqU32s(pathOf(x.node), pathOf(y.node)), len(x.node.Children) == len(y.node.Children),
			inTree(t, x.node) == inTree(u, y.node))
	}
	return c
}

func inTree(t *oid.Tree, n *oid.Node) bool {
	root := t.GetNode(nil)
	for ; n.Parent != nil; n = n.Parent {
		listed := false
		for _, c := range n.Parent.Children {
			listed = listed || c == n
		}
		if !listed {
			return false
		}
	}
	return n == root
}

// flat lists the nodes in order: depth, sub-identifier, whether it carries data.
func flat(n *oid.Node, depth uint32, r []uint32) []uint32 {
	d := uint32(0)
	if n.Data != nil {
		d = 1
	}
	r = append(r, depth, n.Subid, d)
	for _, c := range n.Children {
		r = flat(c, depth+1, r)
	}
	return r
}

// span is when an operation ran.
type span struct{ from, to int }

// timed runs f and notes when.
func timed(now *int, sp *span, f func()) func() {
	return func() {
		*now++
		sp.from = *now
		f()
		*now++
		sp.to = *now
	}
}

// atomic builds the same tree three times and compares the interleaving with both orders.
func atomic(build func() *oid.Tree, f, g op) {
	t := build()
	var rf, rg res
	var now int
	var sf, sg span
	zz.Interleave(timed(&now, &sf, func() { rf = f.on(t) }), timed(&now, &sg, func() { rg = g.on(t) }))
	u := build()
	uf := f.on(u)
	ug := g.on(u)
	v := build()
	vg := g.on(v)
	vf := f.on(v)
	ft := flat(t.GetNode(nil), 0, nil)
	zz.Assert(zz.Or(
		zz.And(same(t, u, rf, uf), same(t, u, rg, ug), zz.EqU32s(ft, flat(u.GetNode(nil), 0, nil))),
		zz.And(sg.from < sf.to, same(t, v, rf, vf), same(t, v, rg, vg), zz.EqU32s(ft, flat(v.GetNode(nil), 0, nil)))),
		"two concurrent operations act one after the other")
	zz.Cover("interleaved")
	zz.ObserveU("nodes", uint64(len(ft)/3))
}

func small() *oid.Tree {
	t := oid.NewTree()
	for _, id := range [][]uint32{{1, 1}, {1, 2}, {3}} {
		t.AddNode(id).Data = 1
	}
	return t
}

// narrow has inner nodes of one child each.
func narrow() *oid.Tree {
	t := oid.NewTree()
	for _, id := range [][]uint32{{1, 1, 4}, {3}} {
		t.AddNode(id).Data = 1
	}
	return t
}

func anyOp(n int) op {
	o := op{kind: zz.Choice(6)}
	if o.kind < 4 {
		o.a = arb(n)
	}
	if o.kind == 2 {
		o.b, o.incl = arb(zz.Pick(0, n)), zz.Choice(2) == 1
	}
	return o
}

// Every pair of the six operations (add, get, next, remove, traverse, clear) on a tree of two subtrees with inner nodes of two children or of one child each; OIDs of one arbitrary sub-identifier for both or of two for both; the second runs as a whole at any point where the first has released its locks or performs an atomic operation.
func C26_Pairs() {
	n := zz.Range(1, 2)
	b := small
	if zz.Choice(2) == 1 {
		b = narrow
	}
	atomic(b, anyOp(n), anyOp(n))
}

// The same with OIDs of one, two or three sub-identifiers of which only the last is arbitrary.
func C26_Below() {
	mk := func(k int) (o op) {
		o.kind = zz.Choice(6)
		x := zz.U32()
		if o.kind < 4 {
			switch k {
			case 0:
				o.a = []uint32{1, x}
			case 1:
				o.a = []uint32{1, 1, x}
			default:
				o.a = []uint32{x}
			}
		}
		if o.kind == 2 {
			o.incl = zz.Choice(2) == 1
		}
		return
	}
	f, g := mk(zz.Choice(3)), mk(zz.Choice(3))
	b := small
	if zz.Choice(2) == 1 {
		b = narrow
	}
	atomic(b, f, g)
}

// Every pair of operations on an empty tree, OIDs of length 0..2.
func C26_Empty() {
	n := zz.Range(0, 2)
	atomic(oid.NewTree, anyOp(n), anyOp(n))
}

// Every pair of operations on a tree with a node of 20 children and a branch 12 deep; fixed OIDs of existing and missing nodes with one arbitrary sub-identifier.
func C26_Large() {
	build := func() *oid.Tree {
		t := oid.NewTree()
		for i := 1; i <= 20; i++ {
			t.AddNode([]uint32{1, uint32(10 * i)})
		}
		t.AddNode(make([]uint32, 12))
		return t
	}
	one := func(x uint32) (o op) {
		o.kind = zz.Choice(6)
		if o.kind < 4 {
			switch zz.Choice(3) {
			case 0:
				o.a = []uint32{1, x}
			case 1:
				o.a = []uint32{1, 50, 5, 5}
			default:
				o.a = make([]uint32, zz.Pick(11, 13))
			}
		}
		return
	}
	f := one(zz.U32())
	atomic(build, f, one(uint32(zz.Pick(50, 55))))
}

var orders = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Three operations (every triple of kinds; fixed OIDs: a leaf, its sibling, its parent, or a missing child below it) at once: the first may be interrupted by the second and that by the third, wherever no lock is held or an atomic operation is performed, also between a failed attempt to take one and the next.
func C26_Triples() {
	ids := [][]uint32{{1, 1}, {1}, {1, 1, 5}}
	mk := func() (o op) {
		o.kind = zz.Choice(6)
		if o.kind < 4 {
			o.a = ids[zz.Choice(3)]
		}
		return
	}
	ops := [3]op{mk(), mk(), mk()}
	t := small()
	var rs [3]res
	var fs []func()
	var now int
	var sp [3]span
	for i := range ops {
		i := i
		fs = append(fs, timed(&now, &sp[i], func() { rs[i] = ops[i].on(t) }))
	}
	zz.Interleave(fs...)
	ft := flat(t.GetNode(nil), 0, nil)
	c := false
	for _, o := range orders {
		if sp[o[1]].to < sp[o[0]].from || sp[o[2]].to < sp[o[0]].from || sp[o[2]].to < sp[o[1]].from {
			continue // one that ended before another began comes first
		}
		u := small()
		var us [3]res
		for _, i := range o {
			us[i] = ops[i].on(u)
		}
		c = zz.Or(c, zz.And(same(t, u, rs[0], us[0]), same(t, u, rs[1], us[1]), same(t, u, rs[2], us[2]),
			zz.EqU32s(ft, flat(u.GetNode(nil), 0, nil))))
		if zz.Sure(c) {
			break
		}
	}
	zz.Assert(c, "three concurrent operations act one after the other")
	zz.Cover("interleaved")
}
