// Package hoid holds the harnesses about package oid.
package hoid

import (
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// arb is an OID of n arbitrary sub-identifiers.
func arb(n int) []uint32 { return zz.U32s(n) }

// refLt is "a sorts before b", computed without forking.
func refLt(a, b []uint32) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	// from the last common position backwards
	r := len(a) < len(b)
	for i := n - 1; i >= 0; i-- {
		r = zz.Or(a[i] < b[i], zz.And(a[i] == b[i], r))
	}
	return r
}

func bound(q, t int) int {
	if zz.Thorough() {
		return t
	}
	return q
}

// Two OIDs of length 0..5 (thorough 0..8) with arbitrary 32-bit sub-identifiers.
func C12_Compare() {
	m := bound(5, 8)
	a, b := arb(zz.Range(0, m)), arb(zz.Range(0, m))
	lt, gt, eq := refLt(a, b), refLt(b, a), zz.EqU32s(a, b)
	c := oid.Compare(a, b)
	zz.ObserveU("cmp", uint64(c))
	zz.Assert(zz.Or(zz.And(c == -1, lt), zz.And(c == 1, gt), zz.And(c == 0, eq)), "Compare is the sign of the lexicographic order")
}

// The six comparison helpers on OIDs of length 0..3 (thorough 0..5), arbitrary contents.
func C12_Helpers() {
	m := bound(3, 5)
	a, b := arb(zz.Range(0, m)), arb(zz.Range(0, m))
	lt, gt, eq := refLt(a, b), refLt(b, a), zz.EqU32s(a, b)
	zz.Assert(oid.Lt(a, b) == lt, "Lt")
	zz.Assert(oid.Gt(a, b) == gt, "Gt")
	zz.Assert(oid.Eq(a, b) == eq, "Eq")
	zz.Assert(oid.Ne(a, b) == !eq, "Ne")
	zz.Assert(oid.Le(a, b) == !gt, "Le")
	zz.Assert(oid.Ge(a, b) == !lt, "Ge")
}

// Long OIDs: lengths 16..129 around boundaries, a common arbitrary prefix, one arbitrary differing position.
func C12_CompareLong() {
	n := zz.Pick(16, 64, 127, 128, 129, 255, 256, 257)
	a := make([]uint32, n)
	for i := range a {
		a[i] = uint32(i)
	}
	b := append([]uint32(nil), a...)
	k := zz.Pick(0, n/2, n-1)
	a[k], b[k] = zz.U32(), zz.U32()
	d := zz.Choice(3)
	b = b[:n-d]
	if k >= len(b) {
		zz.Assume(false)
	}
	c := oid.Compare(a, b)
	zz.Assert(zz.Or(zz.And(c == -1, refLt(a, b)), zz.And(c == 1, refLt(b, a)), zz.And(c == 0, zz.EqU32s(a, b))), "Compare of long OIDs")
	zz.Assert(oid.Compare(b, a) == -c, "Compare is antisymmetric")
	zz.Assert(oid.HasPrefix(a, b...) == zz.EqU32s(a[:len(b)], b), "HasPrefix of long OIDs")
}

// Compare on three OIDs of length 0..2 (thorough 0..3): transitivity.
func C12_Transitive() {
	m := bound(2, 3)
	a, b, c := arb(zz.Range(0, m)), arb(zz.Range(0, m)), arb(zz.Range(0, m))
	ab, bc, ac := oid.Compare(a, b), oid.Compare(b, c), oid.Compare(a, c)
	if ab <= 0 && bc <= 0 {
		zz.Assert(ac <= 0, "Compare is transitive")
		if ab < 0 || bc < 0 {
			zz.Assert(ac < 0, "Compare is strictly transitive")
		}
	}
}

// HasPrefix on OIDs of length 0..5, arbitrary contents.
func C12_HasPrefix() {
	m := bound(5, 8)
	a, b := arb(zz.Range(0, m)), arb(zz.Range(0, m))
	want := false
	if len(b) <= len(a) {
		want = zz.EqU32s(a[:len(b)], b)
	}
	zz.Assert(oid.HasPrefix(a, b...) == want, "HasPrefix")
}

// Two comparisons and prefix tests in a row, of OIDs of 1..2 arbitrary words each, the first OID or none of them shared.
func C12_Twice() {
	a, b, c, d := arb(zz.Range(1, 2)), arb(zz.Range(1, 2)), arb(zz.Range(1, 2)), arb(zz.Range(1, 2))
	if zz.Choice(2) == 1 {
		c = a
	}
	for i := 0; i < 2; i++ {
		cmp := oid.Compare(a, b)
		zz.Assert(zz.Or(zz.And(cmp == -1, refLt(a, b)), zz.And(cmp == 1, refLt(b, a)), zz.And(cmp == 0, zz.EqU32s(a, b))), "Compare")
		want := false
		if len(b) <= len(a) {
			want = zz.EqU32s(a[:len(b)], b)
		}
		zz.Assert(oid.HasPrefix(a, b...) == want, "HasPrefix")
		a, b = c, d
	}
}

// Two OIDs cut out of one array of five arbitrary words (every start and length): comparison, helpers, prefix test.
func C12_SameArray() {
	w := zz.U32s(5)
	i, j := zz.Range(0, 4), zz.Range(0, 4)
	a, b := w[i:zz.Range(i, 5)], w[j:zz.Range(j, 5)]
	ac, bc := append([]uint32(nil), a...), append([]uint32(nil), b...)
	lt, gt, eq := refLt(ac, bc), refLt(bc, ac), zz.EqU32s(ac, bc)
	c := oid.Compare(a, b)
	zz.Assert(zz.Or(zz.And(c == -1, lt), zz.And(c == 1, gt), zz.And(c == 0, eq)), "Compare of OIDs in one array")
	zz.Assert(zz.And(oid.Lt(a, b) == lt, oid.Gt(a, b) == gt, oid.Eq(a, b) == eq, oid.Ne(a, b) == !eq, oid.Le(a, b) == !gt, oid.Ge(a, b) == !lt), "helpers on OIDs in one array")
	want := false
	if len(bc) <= len(ac) {
		want = zz.EqU32s(ac[:len(bc)], bc)
	}
	zz.Assert(oid.HasPrefix(a, b...) == want, "HasPrefix of OIDs in one array")
	t := oid.Cat(a, b...)
	zz.Assert(zz.EqU32s(t, append(append([]uint32(nil), ac...), bc...)), "Cat of OIDs in one array")
}

// withSlack puts the OID in an array with arbitrary words behind it (spare capacity).
func withSlack(n, spare int) (id, whole []uint32) {
	whole = zz.U32s(n + spare)
	return whole[:n], whole
}

// Clone and Cat: OIDs of length 0..4 with 0..4 words of spare capacity behind them, 0..4 appended words.
func C12_CloneCat() {
	id, whole := withSlack(zz.Range(0, 4), zz.Range(0, 4))
	sub, swhole := withSlack(zz.Range(0, 4), zz.Choice(2)*2)
	keep := append([]uint32(nil), whole...)
	skeep := append([]uint32(nil), swhole...)

	c := oid.Clone(id)
	zz.Assert(zz.EqU32s(c, keep[:len(id)]), "Clone has the contents")
	t := oid.Cat(id, sub...)
	want := append(append([]uint32(nil), keep[:len(id)]...), skeep[:len(sub)]...)
	zz.Assert(zz.EqU32s(t, want), "Cat has the contents")
	t2 := oid.Cat(id, sub...)
	// the results are fresh: writing to them changes nothing else, and vice versa
	for i := range c {
		c[i] ^= 0xffffffff
	}
	for i := range t {
		t[i] ^= 0xffffffff
	}
	_ = append(c, 77)
	_ = append(t, 77)
	zz.Assert(zz.EqU32s(whole, keep), "Clone and Cat leave the OID and what lies behind it unchanged")
	zz.Assert(zz.EqU32s(swhole, skeep), "Cat leaves the appended words unchanged")
	zz.Assert(zz.EqU32s(t2, want), "results of two calls share nothing")
	c2 := oid.Clone(id)
	for i := range whole {
		whole[i]++
	}
	for i := range swhole {
		swhole[i]++
	}
	zz.Assert(zz.EqU32s(t2, want), "Cat result does not refer to its arguments")
	zz.Assert(zz.EqU32s(c2, keep[:len(id)]), "Clone result does not refer to its argument")
}

// Clone and Cat of OIDs of 5..40, 64, 128, 129 or 300 words with 1, 4 or 40 words of spare capacity: 0..4 words appended twice, the results written to and grown.
func C12_CloneCatSpare() {
	n := zz.Range(5, 44)
	if n > 40 {
		n = []int{64, 128, 129, 300}[n-41]
	}
	whole := make([]uint32, n+zz.Pick(1, 4, 40))
	for i := range whole {
		whole[i] = uint32(i * 5)
	}
	whole[n-1], whole[n] = zz.U32(), zz.U32()
	keep := append([]uint32(nil), whole...)
	id, k := whole[:n], zz.Range(0, 4)
	x, y := zz.U32s(k), zz.U32s(k)
	a := oid.Cat(id, x...)
	b := oid.Cat(id, y...)
	c := oid.Clone(id)
	zz.Assert(zz.EqU32s(whole, keep), "Clone and Cat leave the OID and what lies behind it unchanged")
	zz.Assert(zz.EqU32s(a, append(append([]uint32(nil), keep[:n]...), x...)), "results of two calls share nothing")
	zz.Assert(zz.EqU32s(b, append(append([]uint32(nil), keep[:n]...), y...)), "results of two calls share nothing")
	_ = append(a, 1)
	_ = append(c, 2)
	a[0], c[n-1] = 9, 9
	zz.Assert(zz.EqU32s(whole, keep), "Clone and Cat leave the OID and what lies behind it unchanged")
	zz.Assert(zz.EqU32s(b[:n], keep[:n]), "results of two calls share nothing")
}

// Cloning and extending an OID of boundary length (up to 300 words).
func C12_CloneCatLong() {
	n := zz.Pick(1, 63, 64, 127, 128, 129, 255, 256, 300)
	id := make([]uint32, n)
	for i := range id {
		id[i] = uint32(i * 7)
	}
	id[n-1], id[n/2] = zz.U32(), zz.U32()
	x, y := zz.U32(), zz.U32()
	zz.Assert(zz.EqU32s(oid.Clone(id), id), "Clone of a long OID")
	c := oid.Cat(id, x, y)
	zz.Assert(len(c) == n+2, "Cat length")
	zz.Assert(zz.And(zz.EqU32s(c[:n], id), c[n] == x, c[n+1] == y), "Cat of a long OID")
}
