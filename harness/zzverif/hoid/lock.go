package hoid

import (
	"runtime"

	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// treeOp is the k-th operation of the interface with arbitrary OIDs of length n.
func treeOp(t *oid.Tree, k, n int) func() {
	a, b := arb(n), arb(n)
	switch k {
	case 0:
		return func() { t.AddNode(a) }
	case 1:
		return func() { t.GetNode(a) }
	case 2:
		return func() { t.GetNextNode(a, b, true) }
	case 3:
		return func() { t.RemoveNode(a) }
	case 4:
		return func() { t.ForRangeLeaves(func([]uint32, *oid.Node) {}) }
	default:
		return func() { t.Clear() }
	}
}

func someTree() *oid.Tree {
	t := oid.NewTree()
	t.AddNode([]uint32{1, 1})
	t.AddNode([]uint32{1, 2})
	t.AddNode([]uint32{3})
	return t
}

// Two concurrent operations of every pair of kinds on one tree of five nodes, arbitrary OIDs of length 1..2.
func C17_Pairs() {
	t := someTree()
	n := zz.Range(1, 2)
	f, g := treeOp(t, zz.Choice(6), n), treeOp(t, zz.Choice(6), n)
	zz.Share(t)
	zz.Parallel("two tree operations", f, g)
}

// Two concurrent operations on an empty tree, and on one that was cleared, arbitrary OIDs of length 0..1.
func C17_PairsEmpty() {
	t := oid.NewTree()
	if zz.Choice(2) == 1 {
		t = someTree()
		t.Clear()
	}
	n := zz.Range(0, 1)
	f, g := treeOp(t, zz.Choice(6), n), treeOp(t, zz.Choice(6), n)
	zz.Share(t)
	zz.Parallel("two tree operations", f, g)
}

// Two concurrent operations of every pair of kinds on a tree with a node of 1, 9 or 40 children and a branch 12 or 130 deep; OIDs in the wide node (arbitrary last sub-identifier for one of the operations), or of length 4, 13 or 131.
func C17_PairsLarge() {
	n := zz.Pick(1, 9, 40)
	t := oid.NewTree()
	for i := 1; i <= n; i++ {
		t.AddNode([]uint32{1, uint32(10 * i)})
	}
	deep := make([]uint32, 12)
	if n == 9 {
		deep = make([]uint32, 130)
	}
	t.AddNode(deep)
	x := zz.U32()
	one := func(x uint32) func() {
		k := zz.Choice(6)
		var a, b []uint32
		switch zz.Choice(3) {
		case 0:
			a, b = []uint32{1, x}, []uint32{2}
		case 1:
			a, b = []uint32{1, 10, 5, 5}, nil
		default:
			a, b = make([]uint32, len(deep)+1), []uint32{1, 10}
		}
		switch k {
		case 0:
			return func() { t.AddNode(a) }
		case 1:
			return func() { t.GetNode(a) }
		case 2:
			return func() { t.GetNextNode(a, b, false) }
		case 3:
			return func() { t.RemoveNode(a) }
		case 4:
			return func() { t.ForRangeLeaves(func([]uint32, *oid.Node) {}) }
		default:
			return func() { t.Clear() }
		}
	}
	f, g := one(x), one(uint32(zz.Pick(10, 15)))
	zz.Share(t)
	zz.Parallel("two tree operations", f, g)
}

// Concurrent operations on two different trees share nothing.
func C17_TwoTrees() {
	t, u := someTree(), someTree()
	f, g := treeOp(t, zz.Choice(6), 1), treeOp(u, zz.Choice(6), 1)
	zz.Parallel("operations on two trees", f, g)
}

// Every operation releases what it acquired: any operation followed by any other (arbitrary OIDs of length 0..2) completes.
func C17_Release() {
	t := someTree()
	n := zz.Range(0, 2)
	treeOp(t, zz.Choice(6), n)()
	treeOp(t, zz.Choice(6), n)()
	t.Clear()
	zz.Assert(t.GetNode([]uint32{1}) == nil, "the tree is usable after the operations")
}

// A visitor that panics at its 1st, 2nd or 3rd leaf: the lock is released, later operations complete.
func C17_PanickingVisitor() {
	t := someTree()
	k := zz.Choice(3)
	seen := 0
	p := zz.Panics(func() {
		t.ForRangeLeaves(func([]uint32, *oid.Node) {
			if seen == k {
				panic("visitor")
			}
			seen++
		})
	})
	zz.Assert(p, "the visitor's panic reaches the caller")
	treeOp(t, zz.Choice(6), 1)()
	zz.Assert(t.AddNode([]uint32{9, 9, 9, 9}) != nil, "the tree is writable after a visitor panicked")
}

// A visitor that ends its goroutine (runtime.Goexit, as t.FailNow does) at its 1st, 2nd or 3rd leaf: the lock is released, later operations complete.
func C17_ExitingVisitor() {
	t := someTree()
	k := zz.Choice(3)
	seen := 0
	e := zz.Exits(func() {
		t.ForRangeLeaves(func([]uint32, *oid.Node) {
			if seen == k {
				runtime.Goexit()
			}
			seen++
		})
	})
	zz.Assert(e, "the goroutine of the visitor ends")
	treeOp(t, zz.Choice(6), 1)()
	zz.Assert(t.AddNode([]uint32{9, 9, 9, 9}) != nil, "the tree is writable after a visitor ended its goroutine")
}

// Every operation (arbitrary OIDs of length 0..2) while a writer is about to wait for the lock: none takes the lock for reading twice.
func C17_Queued() {
	t := someTree()
	f := treeOp(t, zz.Choice(6), zz.Range(0, 2))
	zz.Queued(f)
	zz.Assert(t.GetNode(nil) != nil, "the tree is usable after the operation")
}
