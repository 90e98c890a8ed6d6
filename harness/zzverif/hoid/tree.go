package hoid

import (
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// model is the reference: a prefix-closed set of non-empty OIDs with the node of each.
type entry struct {
	id   []uint32
	node *oid.Node
	data int // what the node's Data was set to
}

type model struct {
	t    *oid.Tree
	e    []entry
	data int
	free bool // the data of nodes is not judged
}

func (m *model) find(id []uint32) int {
	for i := range m.e {
		if len(m.e[i].id) == len(id) && zz.EqU32s(m.e[i].id, id) {
			return i
		}
	}
	return -1
}

// add performs AddNode on the tree and the reference and compares.
func (m *model) add(id []uint32) {
	n := m.t.AddNode(id)
	if len(id) == 0 || m.find(id) >= 0 {
		zz.Assert(n == nil, "AddNode of a present OID returns nil")
		return
	}
	zz.Assert(n != nil, "AddNode of a new OID returns its node")
	for k := 1; k <= len(id); k++ {
		p := append([]uint32(nil), id[:k]...)
		if m.find(p) >= 0 {
			continue
		}
		q := m.t.GetNode(p)
		zz.Assert(q != nil, "every prefix of an added OID is present")
		if k == len(id) {
			zz.Assert(q == n, "AddNode returns the node at the OID")
		}
		m.data++
		if q != nil {
			zz.Assert(q.Data == nil, "a new node has no data")
			q.Data = m.data
		}
		m.e = append(m.e, entry{p, q, m.data})
	}
}

// remove performs RemoveNode on both.
func (m *model) remove(id []uint32) {
	ok := m.t.RemoveNode(id)
	if len(id) == 0 {
		zz.Assert(!ok, "RemoveNode of the root reports false")
		return
	}
	zz.Assert(ok == (m.find(id) >= 0), "RemoveNode reports whether the node was there")
	var keep []entry
	for _, e := range m.e {
		if len(e.id) >= len(id) && zz.EqU32s(e.id[:len(id)], id) {
			continue
		}
		keep = append(keep, e)
	}
	m.e = keep
}

func (m *model) clear() {
	m.t.Clear()
	m.e = nil
}

// get compares one lookup.
func (m *model) get(id []uint32) {
	n := m.t.GetNode(id)
	if len(id) == 0 {
		zz.Assert(n != nil && n.Parent == nil, "GetNode of the empty OID is the root")
		return
	}
	i := m.find(id)
	if i < 0 {
		zz.Assert(n == nil, "GetNode of an absent OID returns nil")
		return
	}
	zz.Assert(n == m.e[i].node, "GetNode returns the node it always returned")
	zz.Assert(n != nil && (m.free || n.Data == m.e[i].data), "node data stays with its node")
}

// all compares every entry, the path and the size of the tree.
func (m *model) all() {
	for _, e := range m.e {
		n := m.t.GetNode(e.id)
		zz.Assert(n == e.node, "every OID of the set is found at its node")
		zz.Assert(n != nil && (m.free || n.Data == e.data), "node data stays with its node")
		for k := len(e.id) - 1; k >= 0; k-- {
			if n == nil {
				zz.Assert(false, "the path of a node has the length of its OID")
				return
			}
			zz.Assert(n.Subid == e.id[k], "the path of a node spells its OID")
			n = n.Parent
		}
		zz.Assert(n != nil && n.Parent == nil, "the path of a node ends at the root")
	}
	zz.Assert(count(m.t.GetNode(nil)) == len(m.e)+1, "the tree has no other nodes")
}

func count(n *oid.Node) int {
	c := 1
	for _, ch := range n.Children {
		c += count(ch)
	}
	return c
}

// invariants checks order and parent links below n.
func invariants(n *oid.Node) {
	for i, c := range n.Children {
		zz.Assert(c != nil && c.Parent == n, "a child's parent is the node that lists it")
		if i > 0 {
			zz.Assert(n.Children[i-1].Subid < c.Subid, "children are strictly sorted by sub-identifier")
		}
		invariants(c)
	}
}

// leaf tells whether entry i has no descendants.
func (m *model) leaf(i int) bool {
	a := m.e[i].id
	for j := range m.e {
		b := m.e[j].id
		if len(b) == len(a)+1 && zz.EqU32s(b[:len(a)], a) {
			return false
		}
	}
	return true
}

// op is one arbitrary operation: clear, add or remove of an arbitrary OID of length lo..hi.
func (m *model) op(lo, hi int) {
	w := hi - lo + 1
	k := zz.Choice(2*w + 1)
	switch {
	case k < w:
		m.add(arb(lo + k))
	case k < 2*w:
		m.remove(arb(lo + k - w))
	default:
		m.clear()
	}
}

func newModel() *model { return &model{t: oid.NewTree()} }

// Histories of 3 operations (thorough 4) on OIDs of length 0..2 with arbitrary sub-identifiers, then an arbitrary lookup.
func C14_History() {
	m := newModel()
	m.add(arb(zz.Range(1, 2)))
	for i := 0; i < bound(2, 3); i++ {
		m.op(0, 2)
	}
	m.all()
	m.get(arb(zz.Range(0, 3)))
}

// Histories from a fresh tree whose first operation is already a removal or clear, and operations on longer OIDs (length 3).
func C14_HistoryDeep() {
	m := newModel()
	m.op(3, 3)
	m.add(arb(3))
	m.op(2, 3)
	m.all()
	m.get(arb(3))
}

// A wide node with 3..6 (thorough 3..9) children 10, 20, ...; then add, remove and look up arbitrary one- or two-element OIDs.
func C14C16_Wide() {
	m := newModel()
	n := zz.Range(3, bound(6, 9))
	for i := 1; i <= n; i++ {
		m.add([]uint32{uint32(10 * i)})
	}
	m.add(arb(1))
	m.remove(arb(1))
	m.add(arb(zz.Range(1, 2)))
	m.all()
	invariants(m.t.GetNode(nil))
	m.leaves()
}

// Removing the first, middle or last of n=2..6 children and adding one again at an arbitrary place.
func C14C16_RemoveAdd() {
	m := newModel()
	n := zz.Range(2, 6)
	for i := n; i >= 1; i-- {
		m.add([]uint32{7, uint32(10 * i)})
	}
	m.remove([]uint32{7, uint32(10 * zz.Range(1, n))})
	x := zz.U32()
	m.add([]uint32{7, x})
	m.add([]uint32{7, x, zz.U32()})
	m.all()
	invariants(m.t.GetNode(nil))
	m.leaves()
}

// A deep tree: a path of boundary length up to 130, arbitrary sub-identifiers at two depths; add a branch, remove it, look up.
func C14_Deep() {
	n := zz.Pick(20, 64, 127, 128, 129, 130)
	a := make([]uint32, n)
	for i := range a {
		a[i] = 1
	}
	m := newModel()
	m.add(append([]uint32(nil), a...))
	b := append([]uint32(nil), a...)
	b[n-1] = zz.U32()
	m.add(b)
	k := zz.Pick(0, n/2, n-1)
	c := append([]uint32(nil), a[:k+1]...)
	c[k] = zz.U32()
	m.remove(c)
	m.get(a)
	m.get(b)
	zz.Assert(count(m.t.GetNode(nil)) == len(m.e)+1, "the tree has no other nodes")
}

// Clear empties a tree of any size and leaves it usable: up to 3 nodes before, arbitrary OIDs of length 1..2 after.
func C14_Clear() {
	m := newModel()
	for i := zz.Choice(3); i > 0; i-- {
		m.add([]uint32{uint32(i), 1})
	}
	m.clear()
	m.get(arb(zz.Range(0, 2)))
	m.all()
	m.add(arb(zz.Range(1, 2)))
	m.all()
}

// The tree keeps its own copy: changing the slice passed to AddNode afterwards changes nothing (length 1..3).
func C14_NoAlias() {
	m := newModel()
	id := arb(zz.Range(1, 3))
	keep := append([]uint32(nil), id...)
	m.t.AddNode(id)
	zz.Assert(zz.EqU32s(id, keep), "AddNode does not change the OID")
	for i := range id {
		id[i]++
	}
	m.t.GetNode(id)
	m.t.RemoveNode(append(append([]uint32(nil), keep...), 5))
	n := m.t.GetNode(keep)
	zz.Assert(n != nil && n.Subid == keep[len(keep)-1], "the tree does not refer to the caller's OID")
}

// ---- GetNext

// next is the reference: the least leaf in the range.
func (m *model) next(start, end []uint32, incl bool) *oid.Node {
	best := -1
	for i := range m.e {
		a := m.e[i].id
		if !m.leaf(i) {
			continue
		}
		in := refLt(start, a)
		if incl {
			in = zz.Or(in, zz.EqU32s(start, a))
		}
		if len(end) > 0 {
			in = zz.And(in, refLt(a, end))
		}
		if !in {
			continue
		}
		if best < 0 || refLt(a, m.e[best].id) {
			best = i
		}
	}
	if best < 0 {
		return nil
	}
	return m.e[best].node
}

func (m *model) checkNext(start, end []uint32, label string) {
	incl := zz.Choice(2) == 1
	ks, ke := append([]uint32(nil), start...), append([]uint32(nil), end...)
	got := m.t.GetNextNode(start, end, incl)
	want := m.next(ks, ke, incl)
	zz.Assert(got == want, label)
	zz.Assert(zz.And(zz.EqU32s(start, ks), zz.EqU32s(end, ke)), "GetNextNode does not change the range")
	if got != nil {
		zz.ObserveU("subid", uint64(got.Subid))
	}
}

const nextLabel = "GetNextNode returns the least leaf of the range"

// Trees of 0..2 added OIDs of length 1..2, start and end of length 0..2 (thorough 0..3), all sub-identifiers arbitrary.
func C15_Small() {
	m := newModel()
	for i := zz.Choice(3); i > 0; i-- {
		m.add(arb(zz.Range(1, 2)))
	}
	h := bound(2, 3)
	m.checkNext(arb(zz.Range(0, h)), arb(zz.Range(0, h)), nextLabel)
}

// One leaf of length 1..4 against start and end of length 0..4, arbitrary sub-identifiers.
func C15_OneLeaf() {
	m := newModel()
	m.add(arb(zz.Range(1, bound(3, 4))))
	h := bound(4, 5)
	m.checkNext(arb(zz.Range(0, h)), arb(zz.Range(0, h)), nextLabel)
}

// A fixed three-level tree with leaves at every depth; start and end arbitrary, length 0..3 (thorough 0..4).
func C15_FixedTree() {
	m := newModel()
	for _, id := range [][]uint32{{1, 1}, {1, 3, 2}, {1, 3, 5}, {2}, {4, 0}, {4, 4294967295, 1}, {7, 7, 7}} {
		m.add(id)
	}
	h := bound(3, 4)
	m.checkNext(arb(zz.Range(0, h)), arb(zz.Range(0, h)), nextLabel)
}

// A flat tree of three arbitrary one-element OIDs, start and end of length 0..2.
func C15_Flat() {
	m := newModel()
	m.add(arb(1))
	m.add(arb(1))
	m.add(arb(zz.Range(1, 2)))
	m.checkNext(arb(zz.Range(0, 2)), arb(zz.Range(0, 1)), nextLabel)
}

// After removals: two added OIDs of length 1..2, one arbitrary removal of length 1..2 (its parent may become a leaf), then the lookup.
func C15_AfterRemove() {
	m := newModel()
	m.add(arb(2))
	m.add(arb(zz.Range(1, 2)))
	m.remove(arb(zz.Range(1, 2)))
	m.checkNext(arb(zz.Range(0, 2)), arb(zz.Range(0, 1)), nextLabel)
}

// Deep leaves: OIDs of length 20 and 128 sharing a long prefix; start or end that prefix, the leaf, or differing in an arbitrary sub-identifier.
func C15_Deep() {
	n := zz.Pick(20, 128)
	a := make([]uint32, n)
	for i := range a {
		a[i] = 3
	}
	m := newModel()
	m.add(append([]uint32(nil), a...))
	m.add(append(append([]uint32(nil), a[:n-1]...), 9))
	m.add(append(append([]uint32(nil), a[:n/2]...), 5))
	mk := func() []uint32 {
		k := zz.Pick(0, n/2, n-1, n)
		id := append([]uint32(nil), a[:k]...)
		if zz.Choice(2) == 1 {
			id = append(id, zz.U32())
		}
		return id
	}
	m.checkNext(mk(), mk(), nextLabel)
}

// A walk: repeated exclusive GetNext from the empty OID visits the leaves in order and ends (2..3 added OIDs of length 1..2).
func C15_Walk() {
	m := newModel()
	for i := zz.Range(2, bound(2, 3)); i > 0; i-- {
		m.add(arb(zz.Range(1, 2)))
	}
	var cur []uint32
	seen := 0
	for {
		n := m.t.GetNextNode(cur, nil, false)
		if n == nil {
			break
		}
		id := pathOf(n)
		zz.Assert(refLt(cur, id), "each step of a walk goes up")
		i := m.find(id)
		zz.Assert(i >= 0 && m.leaf(i), "each step of a walk is a leaf")
		cur = id
		seen++
		if seen > 4 {
			zz.Assert(false, "a walk ends")
			return
		}
	}
	leaves := 0
	for i := range m.e {
		if m.leaf(i) {
			leaves++
		}
	}
	zz.Assert(seen == leaves, "a walk visits every leaf")
}

func pathOf(n *oid.Node) (id []uint32) {
	for ; n != nil && n.Parent != nil; n = n.Parent {
		id = append([]uint32{n.Subid}, id...)
	}
	return
}

// ---- traversal

// leaves compares ForRangeLeaves with the reference.
func (m *model) leaves() {
	var ids [][]uint32
	var nodes []*oid.Node
	m.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
		ids = append(ids, id)
		nodes = append(nodes, n)
	})
	total := 0
	for i := range m.e {
		if m.leaf(i) {
			total++
		}
	}
	zz.Assert(len(ids) == total, "the visitor is called once per leaf")
	for i := range ids {
		if i > 0 {
			zz.Assert(refLt(ids[i-1], ids[i]), "leaves come in strictly ascending order")
		}
		j := m.find(ids[i])
		zz.Assert(j >= 0 && m.leaf(j) && m.e[j].node == nodes[i], "each visit passes a leaf and its own OID")
	}
}

// Histories of 3 operations (thorough 4) on OIDs of length 0..2, then the traversal and the structural invariants.
func C16_History() {
	m := newModel()
	m.add(arb(zz.Range(1, 2)))
	for i := 0; i < bound(2, 3); i++ {
		m.op(1, 2)
	}
	invariants(m.t.GetNode(nil))
	m.leaves()
}

// Three adds of OIDs of length 1..3 (thorough four), then traversal and invariants.
func C16_Adds() {
	m := newModel()
	for i := 0; i < bound(3, 4); i++ {
		m.add(arb(zz.Range(1, 3-i/3)))
	}
	invariants(m.t.GetNode(nil))
	m.leaves()
}

// Deep branches with shared prefixes of length up to 10: the OIDs handed to the visitor do not share storage.
func C16_DeepStorage() { deepStorage(zz.Range(1, 10)) }

func deepStorage(k int) {
	p := make([]uint32, k)
	for i := range p {
		p[i] = uint32(i)
	}
	m := newModel()
	x, y, z := zz.U32(), zz.U32(), zz.U32()
	m.add(oid.Cat(p, x))
	m.add(oid.Cat(p, y))
	m.add(oid.Cat(p, y, z))
	m.leaves()
	// a visitor that appends to and overwrites what it was given disturbs no other visit
	var ids [][]uint32
	m.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
		c := append([]uint32(nil), id...)
		_ = append(id, 99)
		id[len(id)-1] ^= 1
		ids = append(ids, c)
	})
	for _, id := range ids {
		j := m.find(id)
		zz.Assert(j >= 0 && m.leaf(j), "a visit is not disturbed by what an earlier visitor did with its OID")
	}
	invariants(m.t.GetNode(nil))
}
