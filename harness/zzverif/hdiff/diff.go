// Package hdiff checks the line diff.
package hdiff

import (
	"strings"

	"github.com/alexispb/mygosnmp/internal"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
)

func bound(quick, thorough int) int {
	if zz.Thorough() {
		return thorough
	}
	return quick
}

func lines(s string) (r []string) {
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			r = append(r, s[k:i])
			k = i + 1
		}
	}
	return append(r, s[k:])
}

// ref is the diff, line by line; a missing line counts as an empty one.
func ref(a, b string) string {
	x, y := lines(a), lines(b)
	var s []byte
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p == q {
			s = append(s, " "+p...)
		} else {
			s = append(s, "\u250C"+p+"\n\u2514"+q...)
		}
		s = append(s, '\n')
	}
	return string(s)
}

func check(a, b string) {
	var s string
	zz.Assert(!zz.Panics(func() { s = internal.StringsLinesDiff(a, b) }), "StringsLinesDiff does not panic")
	equal := zz.EqStr(a, b)
	zz.Assert((s == "") == equal, "empty exactly when the strings are equal")
	if !equal {
		zz.Cover("different")
		w := ref(a, b)
		zz.Assert(zz.Or(zz.EqStr(s, w), zz.EqStr(s, w[:len(w)-1])), "every line of both is shown and marked when different")
	}
	zz.Observe("text", []byte(s))
}

// Two arbitrary strings of 0..3 (thorough 0..4) bytes each, newlines included.
func C19_Lines() {
	m := bound(3, 4)
	check(zz.Str(zz.Range(0, m)), zz.Str(zz.Range(0, m)))
}

// Two texts of up to 4 lines of up to 3 arbitrary bytes, differing in one line or in the number of lines.
func C19_LinesLong() {
	n := zz.Range(1, 4)
	a, b := "", ""
	k := zz.Choice(n)
	for i := 0; i < n; i++ {
		if i > 0 {
			a += "\n"
			b += "\n"
		}
		x := zz.Bytes(zz.Pick(0, 3))
		for _, c := range x {
			zz.Assume(c != '\n')
		}
		a += string(x)
		if i == k {
			b += zz.Str(zz.Pick(0, 1, 3))
		} else {
			b += string(x)
		}
	}
	for i := zz.Choice(3); i > 0; i-- {
		b += "\nmore"
	}
	if zz.Choice(2) == 0 {
		a, b = b, a
	}
	check(a, b)
}

// Many lines (5..40, 100) and long lines (up to 300 bytes), equal or different in one line (first, middle, last) by two arbitrary bytes, or with up to 20 lines missing on one side.
func C19_LinesMany() {
	n := zz.Range(5, 41)
	if n == 41 {
		n = 100
	}
	long := zz.Pick(3, 60, 300)
	if n > 12 && long == 300 {
		long = 17
	}
	k := zz.Pick(0, n/2, n-1)
	a, b := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			a += "\n"
			b += "\n"
		}
		x := make([]byte, (i*5)%long)
		for j := range x {
			x[j] = 'a' + byte((i+j)%20)
		}
		a += string(x)
		if i == k {
			b += string(x) + zz.Str(zz.Choice(3))
		} else {
			b += string(x)
		}
	}
	for i := zz.Pick(0, 1, 20); i > 0; i-- {
		b += "\nmore"
	}
	if zz.Choice(2) == 0 {
		a, b = b, a
	}
	check(a, b)
}

// Three texts of 0..2 arbitrary bytes: the first against the second, then against the third or the third against the second.
func C19_LinesTwice() {
	a, b, c := zz.Str(zz.Range(0, 2)), zz.Str(zz.Range(0, 2)), zz.Str(zz.Range(0, 2))
	check(a, b)
	if zz.Choice(2) == 0 {
		check(a, c)
	} else {
		check(c, b)
	}
}

// Texts of 500, 1100 or 2100 short lines, or lines of 5000 bytes, equal or different in the first, a middle or the last line by two arbitrary bytes, or with 600 lines missing on one side.
func C19_LinesLarge() {
	n := zz.Pick(3, 500, 1100, 2100)
	line := "abc"
	if n == 3 {
		line = strings.Repeat("0123456789", 500)
	}
	a := strings.Repeat(line+"\n", n)
	x := zz.Str(zz.Pick(0, 2))
	i := zz.Pick(0, n/2, n-1) * (len(line) + 1)
	b := a[:i] + line + x + a[i+len(line):]
	switch zz.Choice(3) {
	case 0:
		b += strings.Repeat("m\n", 600)
	case 1:
		a += strings.Repeat("m\n", 600)
	}
	check(a, b)
}

// Two parts of one string of 4 (thorough 6) arbitrary bytes, prefixes and overlapping parts among them.
func C19_LinesParts() {
	m := bound(4, 6)
	a := zz.Str(m)
	i, k := zz.Range(0, m), zz.Range(0, m)
	check(a[i:zz.Range(i, m)], a[k:zz.Range(k, m)])
}

type inner struct{ N int32 }
type outer struct {
	A uint8
	B string
	C []uint32
	D inner
	E interface{}
}

// StructsDiff of two structs with arbitrary 8-bit fields is empty exactly when their texts, here their fields, are equal.
func C19_Structs() {
	x := outer{A: zz.U8(), B: "b", C: []uint32{1, 2}, D: inner{int32(zz.Pick(-1, 5))}, E: nil}
	y := x
	y.A = zz.U8()
	y.D.N = int32(zz.Pick(-1, 5))
	if zz.Choice(2) == 1 {
		y.C = []uint32{1}
	}
	var s string
	zz.Assert(!zz.Panics(func() { s = internal.StructsDiff(x, y) }), "StructsDiff does not panic")
	equal := x.A == y.A && x.D == y.D && len(x.C) == len(y.C)
	zz.Assert((s == "") == equal, "empty exactly when the structs are equal")
}
