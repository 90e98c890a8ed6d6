// Package hhex checks the hex dumps and the byte diff.
package hhex

import (
	"github.com/alexispb/mygosnmp/hex"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
)

func bound(quick, thorough int) int {
	if zz.Thorough() {
		return thorough
	}
	return quick
}

// digit is the upper-case hex digit of a nibble.
func digit(n byte) byte { return zz.IteU8(n < 10, '0'+n, 'A'+n-10) }

func hex2(b byte) string { return string([]byte{digit(b >> 4), digit(b & 15)}) }

func offset(i uint32) string {
	return hex2(byte(i>>24)) + hex2(byte(i>>16)) + hex2(byte(i>>8)) + hex2(byte(i))
}

// row is an offset and up to four bytes; the layout after the last byte is left open.
func row(off int, b []byte, trail string) string {
	s := offset(uint32(off))
	if len(b) == 0 {
		return s + trail + trail
	}
	s += " "
	for _, x := range b {
		s += " " + hex2(x)
	}
	return s + trail
}

func refSub(prefix string, b []byte, i1, i2 int, trail string) string {
	if i1 == i2 {
		return prefix + row(i1, nil, trail)
	}
	var s []byte
	for i := i1; i < i2; i += 4 {
		if i > i1 {
			s = append(s, '\n')
		}
		j := i + 4
		if j > i2 {
			j = i2
		}
		s = append(append(s, prefix...), row(i, b[i:j], trail)...)
	}
	return string(s)
}

// dec is the decimal text of a 64-bit signed number.
func dec(v int64) string {
	if v < 0 {
		return "-" + zz.Dec(-uint64(v))
	}
	return zz.Dec(uint64(v))
}

func refMsg(prefix string, b []byte, i1, i2 int64) string {
	return prefix + "out of range: i1 = " + dec(i1) + ", i2 = " + dec(i2) + ", len(data) = " + dec(int64(len(b)))
}

// same compares with the reference, with or without a space after the last byte of a line.
func same(s, withSpace, without string) bool {
	return zz.Or(zz.EqStr(s, withSpace), zz.EqStr(s, without))
}

func checkSub(f func() string, prefix string, b []byte, i1, i2 int) {
	keep := append([]byte(nil), b...)
	var s string
	zz.Assert(!zz.Panics(func() { s = f() }), "a dump does not panic")
	if i1 < 0 || i1 > i2 || i2 > len(b) {
		zz.Assert(zz.EqStr(s, refMsg(prefix, b, int64(i1), int64(i2))), "out of range gives the documented message")
	} else {
		zz.Cover("dumped")
		zz.Assert(same(s, refSub(prefix, keep, i1, i2, " "), refSub(prefix, keep, i1, i2, "")), "the dump shows exactly the range")
	}
	zz.Assert(zz.EqBytes(b, keep), "dumping leaves the data unchanged")
	zz.Observe("text", []byte(s))
}

// Data of 0..10 (thorough 0..17) arbitrary bytes, an arbitrary prefix of 0 or 2 bytes, every pair of indices from -2 to len+2.
func C18_Sub() {
	b := zz.Bytes(zz.Range(0, bound(10, 17)))
	prefix := zz.Str(zz.Pick(0, 2))
	i1, i2 := zz.Range(-2, len(b)+2), zz.Range(-2, len(b)+2)
	checkSub(func() string { return hex.DumpSub(prefix, b, i1, i2) }, prefix, b, i1, i2)
}

// Data of 0..13 (thorough 0..40) arbitrary bytes; Dump, and DumpTail of every size from -2 to len+2.
func C18_TailDump() {
	b := zz.Bytes(zz.Range(0, bound(13, 40)))
	prefix := []string{"", "    ", "a\nb"}[zz.Choice(3)]
	if zz.Choice(2) == 0 {
		checkSub(func() string { return hex.Dump(prefix, b) }, prefix, b, 0, len(b))
		return
	}
	n := zz.Range(-2, len(b)+2)
	checkSub(func() string { return hex.DumpTail(prefix, b, n) }, prefix, b, len(b)-n, len(b))
}

// Data of 30..67 bytes (some lengths), arbitrary contents, ranges around the ends and the middle.
func C18_Long() {
	b := zz.Bytes(zz.Pick(30, 63, 64, 65, 67))
	i1 := zz.Pick(0, 1, 2, 3, 4, 15, 16, 17, len(b)-1, len(b))
	i2 := zz.Pick(0, 16, 29, len(b)-4, len(b)-1, len(b), len(b)+1)
	checkSub(func() string { return hex.DumpSub("  ", b, i1, i2) }, "  ", b, i1, i2)
}

// filled has n fixed bytes, three of them (first, middle, last) arbitrary.
func filled(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 11)
	}
	for _, j := range []int{0, n / 2, n - 1} {
		if j >= 0 && j < n {
			b[j] = zz.U8()
		}
	}
	return b
}

// Every length from 0 to 140, and 255..257 and 1000: three arbitrary bytes, the rest fixed; Dump, or DumpSub of all but the first one to three and last zero to two bytes.
func C18_Sweep() {
	n := zz.Range(0, 144)
	if n > 140 {
		n = []int{255, 256, 257, 1000}[n-141]
	}
	b := filled(n)
	if zz.Choice(2) == 0 {
		checkSub(func() string { return hex.Dump(" ", b) }, " ", b, 0, n)
		return
	}
	i1, i2 := zz.Range(1, 3), n-zz.Range(0, 2)
	checkSub(func() string { return hex.DumpSub("", b, i1, i2) }, "", b, i1, i2)
}

// A prefix of 8, 20, 64 or 300 bytes, its first and last arbitrary, before 5 arbitrary bytes.
func C18_LongPrefix() {
	p := string(filled(zz.Pick(8, 20, 64, 300)))
	b := zz.Bytes(5)
	checkSub(func() string { return hex.Dump(p, b) }, p, b, 0, 5)
}

// One index an arbitrary 64-bit number, the other -1, 0, 3, 5, 6 or an extreme; data of 5 bytes: never a panic, and the documented message when out of range.
func C18_WildIndex() {
	b := zz.Bytes(5)
	w := int64(zz.U64())
	o := []int64{-1, 0, 3, 5, 6, -1 << 63, 1<<63 - 1}[zz.Choice(7)]
	i1, i2 := w, o
	if zz.Choice(2) == 1 {
		i1, i2 = o, w
	}
	wild(b, i1, i2, func() string { return hex.DumpSub("p", b, int(i1), int(i2)) })
}

// DumpTail of an arbitrary 64-bit size, data of 0, 1 or 5 bytes.
func C18_WildTail() {
	b := zz.Bytes(zz.Pick(0, 1, 5))
	w := int64(zz.U64())
	wild(b, int64(len(b))-w, int64(len(b)), func() string { return hex.DumpTail("p", b, int(w)) })
}

func wild(b []byte, i1, i2 int64, f func() string) {
	var s string
	zz.Assert(!zz.Panics(func() { s = f() }), "a dump does not panic")
	if i1 < 0 || i1 > i2 || i2 > int64(len(b)) {
		zz.Assert(zz.EqStr(s, refMsg("p", b, i1, i2)), "out of range gives the documented message")
		return
	}
	x, y := int(zz.Concrete(uint64(i1))), int(zz.Concrete(uint64(i2)))
	zz.Assert(same(s, refSub("p", b, x, y, " "), refSub("p", b, x, y, "")), "the dump shows exactly the range")
}

// An empty range at any offset below 2^31 of data of any size below 2^31 shows that offset.
func C18_AnyOffset() {
	n, k := zz.U32(), zz.U32()
	zz.Assume(zz.And(n < 1<<31, k <= n))
	b := make([]byte, n)
	var s string
	zz.Assert(!zz.Panics(func() { s = hex.DumpSub("> ", b, int(k), int(k)) }), "a dump does not panic")
	zz.Assert(zz.Or(zz.EqStr(s, "> "+offset(k)), zz.EqStr(s, "> "+offset(k)+"  ")), "an empty range shows the offset")
}

// Ranges across the offsets 256, 65536 and 131072 with 8 arbitrary bytes there.
func C18_HighOffsets() {
	k := zz.Pick(256, 65536, 131072)
	b := make([]byte, k+4)
	for i := k - 4; i < k+4; i++ {
		b[i] = zz.U8()
	}
	i1, i2 := k-zz.Range(0, 4), k+zz.Range(0, 4)
	var s string
	zz.Assert(!zz.Panics(func() { s = hex.DumpSub("", b, i1, i2) }), "a dump does not panic")
	zz.Assert(same(s, refSub("", b, i1, i2, " "), refSub("", b, i1, i2, "")), "the dump shows exactly the range")
}

// Ranges of 1 or 5 (thorough also 4 and 9) zero bytes at any offset below 2^31, of data of any size below 2^31.
func C18_AnyRange() {
	n, k := zz.U32(), zz.U32()
	m := zz.Pick(1, 5)
	if zz.Thorough() {
		m = zz.Pick(1, 4, 5, 9)
	}
	zz.Assume(zz.And(n < 1<<31, k < 1<<31, k+uint32(m) <= n))
	b := make([]byte, n)
	var s string
	zz.Assert(!zz.Panics(func() { s = hex.DumpSub("> ", b, int(k), int(k)+m) }), "a dump does not panic")
	want := func(trail string) (w string) {
		for i := 0; i < m; i += 4 {
			if i > 0 {
				w += "\n"
			}
			w += "> " + row(int(k)+i, make([]byte, clamp(4, m-i)), trail)
		}
		return
	}
	zz.Assert(same(s, want(" "), want("")), "the dump shows exactly the range")
}

// Data of 4095..4097, 5000 or 9000 bytes, three of them arbitrary; Dump, or DumpSub of all but the first and the last.
func C18_Large() {
	n := zz.Pick(4095, 4096, 4097, 5000, 9000)
	b := filled(n)
	if zz.Choice(2) == 0 {
		checkSub(func() string { return hex.Dump(" ", b) }, " ", b, 0, n)
		return
	}
	checkSub(func() string { return hex.DumpSub("", b, 1, n-1) }, "", b, 1, n-1)
}

// ---- C19: byte diff

func clamp(i, n int) int {
	if i > n {
		return n
	}
	return i
}

func refDiff(a, b []byte, trail string) string {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	var s []byte
	for i := 0; i < n; i += 4 {
		if i > 0 {
			s = append(s, '\n')
		}
		x, y := a[clamp(i, len(a)):clamp(i+4, len(a))], b[clamp(i, len(b)):clamp(i+4, len(b))]
		if zz.EqBytes(x, y) {
			s = append(s, " "+row(i, x, trail)...)
		} else {
			s = append(s, "\u250C"+row(i, x, trail)+"\n\u2514"+row(i, y, trail)...)
		}
	}
	return string(s)
}

func checkDiff(a, b []byte) {
	ka, kb := append([]byte(nil), a...), append([]byte(nil), b...)
	var s string
	zz.Assert(!zz.Panics(func() { s = hex.DumpDiff(a, b) }), "DumpDiff does not panic")
	equal := zz.EqBytes(ka, kb)
	zz.Assert((s == "") == equal, "empty exactly when the slices are equal")
	if !equal {
		zz.Cover("different")
		zz.Assert(same(s, refDiff(ka, kb, " "), refDiff(ka, kb, "")), "every row of both is shown and marked when different")
	}
	zz.Assert(zz.And(zz.EqBytes(a, ka), zz.EqBytes(b, kb)), "the slices are unchanged")
	zz.Observe("text", []byte(s))
}

// Two slices of 0..9 (thorough 0..13) arbitrary bytes each.
func C19_Bytes() {
	m := bound(9, 13)
	checkDiff(zz.Bytes(zz.Range(0, m)), zz.Bytes(zz.Range(0, m)))
}

// Three slices of 3..5 arbitrary bytes: the first against the second, then against the third or the third against the second.
func C19_BytesTwice() {
	a, b, c := zz.Bytes(zz.Range(3, 5)), zz.Bytes(zz.Range(3, 5)), zz.Bytes(zz.Range(3, 5))
	checkDiff(a, b)
	if zz.Choice(2) == 0 {
		checkDiff(a, c)
	} else {
		checkDiff(c, b)
	}
}

// Two slices of up to 24 bytes, equal but for one arbitrary byte at any position and a length difference of up to 5.
func C19_BytesLong() {
	a := zz.Bytes(zz.Pick(12, 15, 16, 17, 20, 24))
	b := append([]byte(nil), a...)
	b[zz.Choice(len(b))] = zz.U8()
	checkDiff(a, b[:len(b)-zz.Choice(6)])
}

// Every length from 25 to 140 and 255..257, 1000: equal but for one arbitrary byte (first, middle or last), and a length difference of 0, 1, 4 or (from 140 on) 130.
func C19_BytesSweep() {
	n := zz.Range(25, 144)
	if n > 140 {
		n = []int{255, 256, 257, 1000}[n-141]
	}
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(i * 11)
	}
	b := append([]byte(nil), a...)
	b[zz.Pick(0, n/2, n-1)] = zz.U8()
	d := []int{0, 1, 4, 130}[zz.Choice(4)]
	if d > n {
		d = n
	}
	b = b[:n-d]
	if zz.Choice(2) == 1 {
		a, b = b, a
	}
	checkDiff(a, b)
}

// The same slice twice, and nil against empty.
func C19_BytesSame() {
	a := zz.Bytes(zz.Range(0, 9))
	if zz.Choice(2) == 0 {
		checkDiff(a, a)
	} else {
		checkDiff(nil, a)
	}
}

// Two slices of one array of 0..6 (thorough 0..9) arbitrary bytes, each any part of it, prefixes and overlapping parts among them.
func C19_BytesParts() {
	m := bound(6, 9)
	a := zz.Bytes(m)
	i, k := zz.Range(0, m), zz.Range(0, m)
	checkDiff(a[i:zz.Range(i, m)], a[k:zz.Range(k, m)])
}

// Slices of 4096, 4097, 5000 or 9000 bytes, equal but for one arbitrary byte (first, middle or last), and a length difference of 0, 1 or half.
func C19_BytesLarge() {
	n := zz.Pick(4096, 4097, 5000, 9000)
	a := filled(n)
	b := append([]byte(nil), a...)
	b[zz.Pick(0, n/2, n-1)] = zz.U8()
	b = b[:n-zz.Pick(0, 1, n/2)]
	if zz.Choice(2) == 1 {
		a, b = b, a
	}
	checkDiff(a, b)
}

// Two or three dumps of 0..9 arbitrary bytes each (in two places of one array or in different ones), all texts looked at after the last; the bytes changed between the dumps.
func C18_Kept() {
	n := zz.Range(2, 3)
	b := zz.Bytes(9)
	var got, with, without []string
	for i := 0; i < n; i++ {
		m := zz.Pick(0, 4, 9)
		switch zz.Choice(3) {
		case 0:
			got = append(got, hex.Dump("p", b[:m]))
			with, without = append(with, refSub("p", b[:m], 0, m, " ")), append(without, refSub("p", b[:m], 0, m, ""))
		case 1:
			got = append(got, hex.DumpSub("", b, 9-m, 9))
			with, without = append(with, refSub("", b, 9-m, 9, " ")), append(without, refSub("", b, 9-m, 9, ""))
		default:
			got = append(got, hex.DumpTail(" ", b[:9:9], m))
			with, without = append(with, refSub(" ", b, 9-m, 9, " ")), append(without, refSub(" ", b, 9-m, 9, ""))
		}
		b = append([]byte(nil), b...)
		if zz.Choice(2) == 0 {
			b[0], b[5] = ^b[0], b[5]+1
		}
	}
	for i := range got {
		zz.Assert(same(got[i], with[i], without[i]), "a dump does not change later")
	}
}

// Data of 5 bytes dumped, changed in place, and dumped again.
func C18_Changed() {
	b := zz.Bytes(5)
	checkSub(func() string { return hex.Dump("", b) }, "", b, 0, 5)
	b[zz.Choice(5)] = zz.U8()
	checkSub(func() string { return hex.Dump("", b) }, "", b, 0, 5)
	checkSub(func() string { return hex.DumpTail("", b, 3) }, "", b, 2, 5)
}

// Two parts of one array of 20, 65, 80, 300 or 5000 bytes, three of them arbitrary: with the same first byte or starts 1 or 4 apart, of lengths that differ by 0, 1, 4 or 10.
func C19_BytesPartsLarge() {
	n := zz.Pick(20, 65, 80, 300, 5000)
	a := filled(n)
	i, d := zz.Pick(0, 1, 4), zz.Pick(0, 1, 4, 10)
	x, y := a[:n-4-d], a[i:i+n-4]
	if zz.Choice(2) == 1 {
		x, y = y, x
	}
	checkDiff(x, y)
}

// Two diffs of 5 bytes each, kept, and one of them repeated after a byte was changed in place.
func C19_BytesKept() {
	a, b := zz.Bytes(5), zz.Bytes(5)
	ka, kb := append([]byte(nil), a...), append([]byte(nil), b...)
	s := hex.DumpDiff(a, b)
	a[4], b[0] = 7, zz.U8()
	checkDiff(a, b)
	checkDiff(b[:4], a)
	if zz.EqBytes(ka, kb) {
		zz.Assert(s == "", "empty exactly when the slices are equal")
	} else {
		zz.Assert(same(s, refDiff(ka, kb, " "), refDiff(ka, kb, "")), "a diff does not change later")
	}
}
