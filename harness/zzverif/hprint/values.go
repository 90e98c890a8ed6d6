package hprint

import (
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/ipa"
)

func dotted(id []uint32) string {
	var s []byte
	for i, x := range id {
		if i > 0 {
			s = append(s, '.')
		}
		s = append(s, zz.Dec(uint64(x))...)
	}
	return string(s)
}

func signed(v int64) string {
	if v < 0 {
		return "-" + zz.Dec(-uint64(v))
	}
	return zz.Dec(uint64(v))
}

func octets(a [4]byte) string {
	return zz.Dec(uint64(a[0])) + "." + zz.Dec(uint64(a[1])) + "." + zz.Dec(uint64(a[2])) + "." + zz.Dec(uint64(a[3]))
}

// valueText is the notation of each syntax; "?" when the value does not match the tag.
func valueText(tag byte, v interface{}) string {
	switch tag {
	case 5, 128, 129, 130:
		return ""
	case 2:
		if x, ok := v.(int32); ok {
			return signed(int64(x))
		}
	case 4:
		if x, ok := v.(string); ok {
			return x
		}
	case 6:
		if x, ok := v.([]uint32); ok {
			return dotted(x)
		}
	case 64:
		if x, ok := v.([4]byte); ok {
			return octets(x)
		}
	case 65, 66, 67:
		if x, ok := v.(uint32); ok {
			return zz.Dec(uint64(x))
		}
	case 68:
		if x, ok := v.([]byte); ok {
			s := []byte{'{'}
			for i, b := range x {
				if i > 0 {
					s = append(s, ' ')
				}
				s = append(s, zz.Dec(uint64(b))...)
			}
			return string(append(s, '}'))
		}
	case 70:
		if x, ok := v.(uint64); ok {
			return zz.Dec(x)
		}
	}
	return "?"
}

func tagText(tag byte) string {
	n, ok := asnName(tag)
	if !ok {
		n = "?" + zz.Dec(uint64(tag))
	}
	return n
}

func varbindText(vb asn.Varbind) string {
	return "{" + dotted(vb.Oid) + " " + tagText(byte(vb.Tag)) + ": " + valueText(byte(vb.Tag), vb.Value) + "}"
}

func checkVarbind(vb asn.Varbind) {
	id := append([]uint32(nil), vb.Oid...)
	want := varbindText(vb)
	s := text(vb.String)
	if vb.Tag == 66 {
		zz.Assert(zz.Or(zz.EqStr(s, want), zz.EqStr(s, strings.Replace(want, " Unsigned32: ", " Gauge32: ", 1))), "the varbind text")
	} else {
		zz.Assert(zz.EqStr(s, want), "the varbind text")
	}
	var sb strings.Builder
	sb.WriteString("x")
	zz.Assert(!zz.Panics(func() { vb.Fprint(&sb) }), "printing does not panic")
	zz.Assert(zz.EqStr(sb.String(), "x"+s), "Fprint appends the same text")
	zz.Assert(zz.EqU32s(id, vb.Oid) && zz.EqStr(varbindText(vb), want), "printing leaves the varbind unchanged")
	zz.Observe("text", []byte(s))
}

// Every IP address (four arbitrary octets), String and Fprint.
func C22_Address() {
	a := [4]byte{zz.U8(), zz.U8(), zz.U8(), zz.U8()}
	want := octets(a)
	s := text(func() string { return ipa.String(a) })
	zz.Assert(zz.EqStr(s, want), "four decimal octets in order")
	var sb strings.Builder
	sb.WriteString("x")
	zz.Assert(!zz.Panics(func() { ipa.Fprint(&sb, a) }), "printing does not panic")
	zz.Assert(zz.EqStr(sb.String(), "x"+want), "Fprint appends the same text")
}

// Two addresses printed in a row, the first and the last octets of each arbitrary.
func C22_AddressTwice() {
	for i := 0; i < 2; i++ {
		a := [4]byte{zz.U8(), 7, 0, zz.U8()}
		zz.Assert(zz.EqStr(text(func() string { return ipa.String(a) }), octets(a)), "four decimal octets in order")
	}
}

// Two varbinds of one syntax printed in a row, their values arbitrary (8 bits wide, or two bytes, or two sub-identifiers).
func C22_Twice() {
	t := asn.Tag(zz.Pick(2, 4, 6, 65, 66, 67, 68, 70))
	for i := 0; i < 2; i++ {
		vb := asn.Varbind{Oid: []uint32{1, 3, 6}, Tag: t}
		switch t {
		case 2:
			vb.Value = int32(int8(zz.U8()))
		case 4:
			vb.Value = zz.Str(2)
		case 6:
			vb.Value = []uint32{uint32(zz.U8()), uint32(zz.U8())}
		case 68:
			vb.Value = zz.Bytes(2)
		case 70:
			vb.Value = uint64(zz.U8()) << 32
		default:
			vb.Value = uint32(zz.U8()) << 24
		}
		checkVarbind(vb)
	}
}

// Varbinds of every numeric syntax and IpAddress with arbitrary values (IP octets: two arbitrary).
func C22_Numbers() {
	vb := asn.Varbind{Oid: []uint32{1, 3, 6}}
	switch zz.Choice(6) {
	case 0:
		vb.Tag, vb.Value = 2, int32(zz.U32())
	case 1:
		vb.Tag, vb.Value = 65, zz.U32()
	case 2:
		vb.Tag, vb.Value = 66, zz.U32()
	case 3:
		vb.Tag, vb.Value = 67, zz.U32()
	case 4:
		vb.Tag, vb.Value = 70, zz.U64()
	default:
		vb.Tag, vb.Value = 64, [4]byte{zz.U8(), 0, 255, zz.U8()}
	}
	checkVarbind(vb)
}

// Varbinds with octet strings of 0..5 arbitrary bytes, opaques of 0..3 arbitrary bytes, OID values of 0..2 arbitrary sub-identifiers.
func C22_Strings() {
	vb := asn.Varbind{Oid: []uint32{0}}
	switch zz.Choice(3) {
	case 0:
		vb.Tag, vb.Value = 4, zz.Str(zz.Range(0, 5))
	case 1:
		vb.Tag, vb.Value = 68, zz.Bytes(zz.Range(0, 3))
	default:
		vb.Tag, vb.Value = 6, zz.U32s(zz.Range(0, 2))
	}
	checkVarbind(vb)
}

// Varbind OIDs of 0..2 arbitrary sub-identifiers (thorough 3) and of length 128.
func C22_Oids() {
	vb := asn.Varbind{Tag: 5}
	if n := zz.Range(0, bound(3, 4)); n == bound(3, 4) {
		vb.Oid = make([]uint32, 128)
		for i := range vb.Oid {
			vb.Oid[i] = 1<<32 - 1 - uint32(i)
		}
	} else {
		vb.Oid = zz.U32s(n)
	}
	checkVarbind(vb)
}

// Values and OIDs of 4..40, 64, 65, 100, 128, 129, 300 bytes or sub-identifiers, one arbitrary element (first, middle or last), the rest fixed.
func C22_Long() {
	n := zz.Range(4, 46)
	if n > 40 {
		n = []int{64, 65, 100, 128, 129, 300}[n-41]
	}
	longText(n)
}

// Values and OIDs of 1000, 1023..1025, 1500, 4097 or 5000 bytes or sub-identifiers, one arbitrary element (first, middle or last), the rest fixed.
func C22_Large() { longText(zz.Pick(1000, 1023, 1024, 1025, 1500, 4097, 5000)) }

func longText(n int) {
	k := zz.Pick(0, n/2, n-1)
	vb := asn.Varbind{Oid: []uint32{1, 3}}
	id := make([]uint32, n)
	b := make([]byte, n)
	for i := range id {
		id[i], b[i] = uint32(i*16777259), byte(32+i%90)
	}
	switch zz.Choice(5) {
	case 0:
		b[k] = zz.U8()
		vb.Tag, vb.Value = 4, string(b)
	case 1:
		b[k] = zz.U8()
		vb.Tag, vb.Value = 68, b
	case 2:
		id[k] = zz.U32()
		vb.Tag, vb.Value = 6, id
	case 3:
		id[k] = zz.U32()
		vb.Oid, vb.Tag, vb.Value = id, 2, int32(-1)
	default:
		id[k] = zz.U32()
		checkRange(agentx.SearchRange{StartOid: id, EndOid: id[:n-1], StartIncluded: 1})
		return
	}
	checkVarbind(vb)
}

type myBytes []byte
type myStr string
type myU32 uint32
type myU64 uint64
type myI32 int32
type myWords []uint32
type myAddr [4]byte

// odd is a value of one of many Go types.
func odd() interface{} {
	switch zz.Choice(30) {
	case 0:
		return nil
	case 1:
		return int32(-7)
	case 2:
		return uint32(7)
	case 3:
		return uint64(7)
	case 4:
		return int64(7)
	case 5:
		return 7
	case 6:
		return "s"
	case 7:
		return []byte{1, 2}
	case 8:
		return []byte(nil)
	case 9:
		return []uint32{1, 3}
	case 10:
		return []uint32(nil)
	case 11:
		return [4]byte{1, 2, 3, 4}
	case 12:
		return &[4]byte{1, 2, 3, 4}
	case 13:
		return myBytes{1}
	case 14:
		return myStr("x")
	case 15:
		return uint16(3)
	case 16:
		return byte(3)
	case 17:
		return true
	case 18:
		return []int{1}
	case 19:
		return struct{}{}
	case 20:
		return func() {}
	case 21:
		return asn.Tag(4)
	case 22:
		return [5]byte{1}
	case 23:
		return myU32(7)
	case 24:
		return myU64(7)
	case 25:
		return myI32(7)
	case 26:
		return myWords{1, 3}
	case 27:
		return myAddr{1, 2, 3, 4}
	case 28:
		return []int32{1}
	default:
		return map[string]int{}
	}
}

// Every tag (8 bits) with a value of each of 29 Go types.
func C22_Mismatch() {
	v := odd()
	checkVarbind(asn.Varbind{Oid: []uint32{1}, Tag: asn.Tag(zz.U8()), Value: v})
}

// Search ranges with OIDs of 0..1 arbitrary sub-identifiers (one of them 2) and any include byte.
func C22_Range() {
	k := zz.Choice(3)
	r := agentx.SearchRange{StartIncluded: zz.U8()}
	switch k {
	case 0:
		r.StartOid, r.EndOid = zz.U32s(1), zz.U32s(zz.Choice(2))
	case 1:
		r.StartOid, r.EndOid = zz.U32s(2), []uint32{1, 3}
	default:
		r.StartOid, r.EndOid = nil, zz.U32s(2)
	}
	checkRange(r)
}

func checkRange(r agentx.SearchRange) {
	a, b := append([]uint32(nil), r.StartOid...), append([]uint32(nil), r.EndOid...)
	want := "{StartOid: " + dotted(a) + " EndOid: " + dotted(b) + " StartIncluded: " + zz.Dec(uint64(r.StartIncluded)) + "}"
	s := text(r.String)
	zz.Assert(zz.EqStr(s, want), "the range text")
	var sb strings.Builder
	sb.WriteString("x")
	zz.Assert(!zz.Panics(func() { r.Fprint(&sb) }), "printing does not panic")
	zz.Assert(zz.EqStr(sb.String(), "x"+want), "Fprint appends the same text")
	zz.Assert(zz.EqU32s(a, r.StartOid) && zz.EqU32s(b, r.EndOid), "printing leaves the range unchanged")
	zz.Observe("text", []byte(s))
}
