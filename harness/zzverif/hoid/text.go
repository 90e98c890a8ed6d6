package hoid

import (
	"strings"

	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/oid"
)

// dotted is the reference text of an OID.
func dotted(id []uint32) string {
	s := ""
	for i, x := range id {
		if i > 0 {
			s += "."
		}
		s += zz.Dec(uint64(x))
	}
	return s
}

// refNumber reads a decimal number below 2^32 of any length.
func refNumber(s string) (v uint32, ok bool) {
	all := len(s) > 0
	for i := 0; i < len(s); i++ {
		all = zz.And(all, s[i]-'0' < 10)
	}
	if !all {
		return 0, false
	}
	const max = "4294967295"
	over := false
	t := s
	if len(s) >= len(max) {
		t = s[len(s)-len(max):]
		for i := len(max) - 1; i >= 0; i-- {
			over = zz.Or(max[i] < t[i], zz.And(t[i] == max[i], over))
		}
		for i := 0; i < len(s)-len(max); i++ {
			over = zz.Or(over, s[i] != '0')
		}
	}
	if over {
		return 0, false
	}
	var w uint64
	for i := 0; i < len(t); i++ {
		w = w*10 + uint64(t[i]-'0')
	}
	return uint32(w), true
}

// refParse is an independent reading of the grammar: one optional leading dot, then
// nothing or at most 128 decimal numbers below 2^32 separated by single dots.
func refParse(s string) (id []uint32, ok bool) {
	if len(s) > 0 && s[0] == '.' {
		s = s[1:]
	}
	if len(s) == 0 {
		return nil, true
	}
	start, n := 0, 1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			n++
		}
	}
	if n > 128 {
		return nil, false
	}
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			v, ok := refNumber(s[start:i])
			if !ok {
				return nil, false
			}
			id = append(id, v)
			start = i + 1
		}
	}
	return id, true
}

func parse(s string) (id []uint32, ok bool) {
	ok = !zz.Panics(func() { id = oid.Parse(s) })
	return
}

func checkParse(s, label string) {
	id, ok := parse(s)
	want, wok := refParse(s)
	zz.Assert(ok == wok, label+": accepted exactly when well formed")
	if ok && wok {
		zz.Assert(zz.EqU32s(id, want), label+": value")
		zz.ObserveU("n", uint64(len(id)))
	}
}

// Every byte string of length 0..7 (thorough 0..10).
func C13_ParseAll() {
	checkParse(zz.Str(zz.Range(0, bound(7, 10))), "arbitrary text")
}

// One number of 1..12 or 19..22 arbitrary digits, optionally after a dot or after "1.": overflow of 32 and 64 bits.
func C13_ParseDigits() {
	n := zz.Pick(1, 2, 3, 8, 9, 10, 11, 12, 19, 20, 21, 22)
	b := zz.Bytes(n)
	for i := range b {
		zz.Assume(zz.And(b[i] >= '0', b[i] <= '9'))
	}
	if n > 12 {
		// keep the long numbers to the neighbourhood of 2^64
		p := "18446744073709551"
		for i := 0; i < len(p) && i < n-1; i++ {
			zz.Assume(b[i] == p[i])
		}
	}
	checkParse([]string{"", ".", "1."}[zz.Choice(3)]+string(b), "number")
}

// A list of 1..130 numbers (boundary counts) with an arbitrary 3-byte piece spliced in at the start, middle or end.
func C13_ParseLong() {
	n := zz.Pick(1, 2, 64, 126, 127, 128, 129, 130, 257)
	s := strings.Repeat("4294967295.", n-1) + "7"
	x := string(zz.Bytes(zz.Choice(3)))
	switch zz.Choice(3) {
	case 0:
		s = x + s
	case 1:
		k := len(s) / 2
		s = s[:k] + x + s[k:]
	default:
		s = s + x
	}
	checkParse(s, "long text")
}

// A text of 0..4 arbitrary bytes parsed, its result changed, another text of 0..2 bytes parsed, and the first again: each gives what it says.
func C13_Twice() {
	s, t := zz.Str(zz.Range(0, 4)), zz.Str(zz.Range(0, 2))
	id, ok := parse(s)
	if ok {
		for i := range id {
			id[i]++
		}
	}
	if zz.Choice(2) == 1 {
		checkParse(t, "another text")
	}
	checkParse(s, "the text again")
}

// Numbers with 20, 300, 1500 or 5000 leading zeros before two arbitrary characters, alone or after another number; 2 or 128 numbers, each the greatest, of them each with 0, 3 or 30 zeros in front.
func C13_ParseZeros() {
	var s string
	if zz.Choice(2) == 0 {
		s = []string{"", ".", "1."}[zz.Choice(3)] + strings.Repeat("0", zz.Pick(20, 300, 1500, 5000)) + string(zz.Bytes(2))
	} else {
		x := strings.Repeat("0", zz.Pick(0, 3, 30)) + "4294967295"
		s = strings.Repeat(x+".", zz.Pick(1, 127)) + x
	}
	checkParse(s, "text with leading zeros")
}

// Printing then parsing: OIDs of length 0..2 (thorough 0..3) with arbitrary 32-bit sub-identifiers, with and without leading dot.
func C13_RoundTrip() {
	id := arb(zz.Range(0, bound(2, 3)))
	keep := append([]uint32(nil), id...)
	s := oid.String(id)
	zz.Assert(zz.EqStr(s, dotted(keep)), "printed text is dotted decimal")
	zz.Assert(zz.EqU32s(id, keep), "printing does not change the OID")
	if zz.Choice(2) == 1 {
		s = "." + s
	}
	got, ok := parse(s)
	zz.Assert(ok, "the printed text parses")
	if ok {
		zz.Assert(zz.EqU32s(got, keep), "and gives the OID back")
	}
}

// Long OIDs (length up to 128, boundary values at every position, one arbitrary sub-identifier): print, parse, compare.
func C13_RoundTripLong() {
	n := zz.Pick(5, 17, 63, 64, 100, 127, 128)
	id := make([]uint32, n)
	vals := []uint32{0, 1, 9, 10, 99, 100, 4294967295, 2147483648, 65536}
	for i := range id {
		id[i] = vals[i%len(vals)]
	}
	id[zz.Pick(0, n/2, n-1)] = zz.U32()
	s := oid.String(id)
	zz.Assert(zz.EqStr(s, dotted(id)), "printed text is dotted decimal")
	var sb strings.Builder
	sb.WriteString("x")
	oid.Fprint(&sb, id)
	zz.Assert(zz.EqStr(sb.String(), "x"+s), "Fprint appends the same text")
	got, ok := parse(s)
	zz.Assert(ok, "the printed text parses")
	if ok {
		zz.Assert(zz.EqU32s(got, id), "and gives the OID back")
	}
}

// An OID of 1, 2, 3, 20 or 127 sub-identifiers printed, changed in place in one position (grown or cut by one), and printed again, then the first text looked at again; before and between, texts are parsed.
func C13_Changed() {
	n := zz.Pick(1, 2, 3, 20, 127)
	id := make([]uint32, n, n+1)
	for i := range id {
		id[i] = uint32(i)
	}
	k := zz.Pick(0, n/2, n-1)
	id[k] = uint32(zz.Pick(7, 4000000000))
	a, wa := oid.String(id), dotted(id)
	zz.Assert(zz.EqStr(a, wa), "printed as dotted decimal")
	p := oid.Parse(a)
	switch zz.Choice(3) {
	case 0:
		id[k] = uint32(zz.Pick(8, 5, 4000000001))
	case 1:
		id = append(id, 3)
	default:
		id = id[:n-1]
	}
	wb := dotted(id)
	b := oid.String(id)
	zz.Assert(zz.EqStr(b, wb), "printed as dotted decimal")
	zz.Assert(zz.EqStr(oid.String(p), wa), "parsing the printed form gives the OID")
	p[0]++
	q := oid.Parse(wa)
	zz.Assert(zz.EqStr(oid.String(q), wa), "parsing the same text again gives the OID")
	q = oid.Parse("." + wb)
	zz.Assert(zz.EqU32s(q, id), "parsing the printed form gives the OID")
	zz.Assert(zz.EqStr(a, wa) && zz.EqStr(b, wb), "a text does not change later")
}
