package hagx

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/pduerror"
)

func bound(quick, thorough int) int {
	if zz.Thorough() {
		return thorough
	}
	return quick
}

func anyHeader(tag, fl byte) agentx.Pdu {
	return agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(fl),
		SessionId: zz.U32(), TransactionId: zz.U32(), PacketId: zz.U32(), PayloadSize: int32(zz.U32())}
}

// anyParams are the parameters of the given PDU type, with OIDs of n sub-identifiers and
// a description of d bytes.
func anyParams(tag byte, n, d int) agentx.PayloadParams {
	switch kindOf(tag) {
	case kOpen:
		return agentx.OpenParams{Timeout: zz.U8(), Oid: zz.U32s(n), Description: zz.Str(d)}
	case kClose:
		return agentx.CloseParams{Reason: agentx.CloseReason(zz.U8())}
	case kRegister:
		return agentx.RegisterParams{Timeout: zz.U8(), Priority: zz.U8(), RangeSubid: zz.U8(), Subtree: zz.U32s(n), UpperBound: zz.U32()}
	case kUnregister:
		return agentx.UnregisterParams{Priority: zz.U8(), RangeSubid: zz.U8(), Subtree: zz.U32s(n), UpperBound: zz.U32()}
	case kGetBulk:
		return agentx.GetBulkParams{NonRepeaters: int16(zz.U16()), MaxRepeatitions: int16(zz.U16())}
	case kAddCaps:
		return agentx.AddAgentCapsParams{Oid: zz.U32s(n), Description: zz.Str(d)}
	case kRemoveCaps:
		return agentx.RemoveAgentCapsParams{Oid: zz.U32s(n)}
	case kResponse:
		return agentx.ResponseParams{SysUpTime: zz.U32(), Error: pduerror.Error(zz.U16()), Index: int16(zz.U16())}
	}
	return agentx.NoParams{}
}

var vbTags = []asn.Tag{2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130}

// anyValue is a value of the given syntax, n bytes or sub-identifiers long.
func anyValue(t asn.Tag, n int) interface{} {
	switch t {
	case 2:
		return int32(zz.U32())
	case 4:
		return zz.Str(n)
	case 6:
		return zz.U32s(n)
	case 64:
		return [4]byte{zz.U8(), zz.U8(), zz.U8(), zz.U8()}
	case 65, 66, 67:
		return zz.U32()
	case 68:
		return zz.Bytes(n)
	case 70:
		return zz.U64()
	}
	return nil
}

// oidLens are lengths around the prefix compression.
func oidLen() int { return zz.Pick(0, 1, 2, 4, 5, 6, 7) }

// Every PDU type 1..18, arbitrary flags, ids and parameter values; context of 0..5 bytes; OIDs of 2 sub-identifiers; one range, one varbind.
func genTypes() agentx.Pdu { return typesWith(zz.U8()) }

func typesWith(fl byte) agentx.Pdu {
	p := anyHeader(byte(zz.Range(1, 18)), fl)
	if p.Flags&fCtx != 0 {
		p.Context = zz.Str(zz.Range(0, 5))
	} else {
		p.Context = "ignored"
	}
	p.Params = anyParams(byte(p.Tag), 2, 1)
	p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(2), EndOid: zz.U32s(1), StartIncluded: zz.U8()}}
	p.Varbinds = []asn.Varbind{{Oid: zz.U32s(2), Tag: 2, Value: int32(zz.U32())}}
	return p
}

// The eight PDU types with parameters: arbitrary parameter values, OIDs of 0,1,2,4,5,6,7 arbitrary sub-identifiers, descriptions of 0..5 bytes, both byte orders.
func genParams() agentx.Pdu {
	tag := byte(zz.Pick(1, 2, 3, 4, 7, 16, 17, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, SessionId: zz.U32()}
	n, d := 0, 0
	switch kindOf(tag) {
	case kOpen, kAddCaps:
		n, d = oidLen(), zz.Range(0, 5)
	case kRegister, kUnregister, kRemoveCaps:
		n = oidLen()
	}
	p.Params = anyParams(tag, n, d)
	return p
}

// PDU types 5..7: one range with OIDs of 0,1,2,4,5,6,7 x 0,1,5,6 arbitrary sub-identifiers and arbitrary include byte, or 0, 2 or 3 ranges of OIDs of 1 and 0..1; both byte orders.
func genRanges() agentx.Pdu {
	tag := byte(zz.Range(5, 7))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, PacketId: zz.U32()}
	p.Params = agentx.NoParams{}
	if tag == 7 {
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(zz.U16()), MaxRepeatitions: int16(zz.U16())}
	}
	n := zz.Range(0, 3)
	for i := 0; i < n; i++ {
		r := agentx.SearchRange{StartIncluded: zz.U8()}
		if n == 1 {
			r.StartOid, r.EndOid = zz.U32s(oidLen()), zz.U32s(zz.Pick(0, 1, 5, 6))
		} else {
			r.StartOid, r.EndOid = zz.U32s(1), zz.U32s(zz.Range(0, 1))
		}
		p.Ranges = append(p.Ranges, r)
	}
	return p
}

// The five PDU types with varbinds: one varbind of each of the 13 syntaxes, name of 0,1,2,4,5,6,7 (values of fixed size) or 1 arbitrary sub-identifiers, arbitrary value; strings and opaques of 0..9 bytes, OID values of 0..2,4..7 sub-identifiers; both byte orders.
func genVarbind() agentx.Pdu {
	tag := byte(zz.Pick(8, 12, 14, 15, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, PacketId: zz.U32()}
	p.Params = anyParams(tag, 0, 0)
	t := vbTags[zz.Choice(len(vbTags))]
	on, n := 1, 0
	switch t {
	case 4, 68:
		n = zz.Range(0, bound(9, 13))
	case 6:
		n = oidLen()
	default:
		if tag == 8 {
			on = oidLen()
		}
	}
	p.Varbinds = []asn.Varbind{{Oid: zz.U32s(on), Tag: t, Value: anyValue(t, n)}}
	return p
}

// 2 (thorough 3) varbinds of any syntaxes with variable-size values of 3 bytes or 1 sub-identifier; or 4..12 varbinds of mixed syntaxes; both byte orders, PDU types 8 and 18.
func genVarbinds() agentx.Pdu {
	tag := byte(zz.Pick(8, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, PacketId: zz.U32()}
	p.Params = anyParams(tag, 0, 0)
	k := zz.Choice(3)
	n := bound(2, 3)
	if k > 0 {
		n = zz.Range(4, bound(12, 24))
	}
	if k == 0 && tag == 18 && !zz.Thorough() {
		zz.Assume(false)
	}
	for i := 0; i < n; i++ {
		t := vbTags[(i*(1+4*k))%len(vbTags)]
		if k == 0 {
			t = vbTags[zz.Choice(len(vbTags))]
		}
		m := 1
		if t != 6 {
			m = 3
		}
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: zz.U32s(1), Tag: t, Value: anyValue(t, m)})
	}
	return p
}

// longOid has n sub-identifiers, under the compressible prefix 1.3.6.1.x when pre is 1, the rest
// concrete except the first, the middle and the last.
func longOid(n, pre int) []uint32 {
	id := make([]uint32, n)
	for i := range id {
		id[i] = uint32(i * 16777259)
	}
	k := 0
	if pre == 1 && n >= 5 {
		id[0], id[1], id[2], id[3], id[4] = 1, 3, 6, 1, zz.U32()
		k = 5
	}
	for _, j := range []int{k, (k + n) / 2, n - 1} {
		if j >= 0 && j < n {
			id[j] = zz.U32()
		}
	}
	return id
}

func longBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	for _, j := range []int{0, n / 2, n - 1} {
		if j >= 0 && j < n {
			b[j] = zz.U8()
		}
	}
	return b
}

// Long contents: OIDs of 126..134 or 254..262 sub-identifiers (with and without the 1.3.6.1 prefix) in every place an OID can stand, strings, opaques, descriptions and contexts of 127..129, 253..260 or 65533..65537 bytes, 33..80 ranges, 40 or 300 varbinds, 70 or 9 varbinds of 1000 or 8000 bytes; three arbitrary elements in each, the rest fixed; both byte orders.
func genLong() agentx.Pdu { return longWith(65533, 65535, 65536, 65537) }

func longWith(sizes ...int) agentx.Pdu {
	most := 17
	if sizes[0] < 60000 {
		most = 16
	}
	k := zz.Choice(most)
	var id []uint32
	var s []byte
	n := 0
	switch {
	case k < 9:
		n = zz.Range(126, 134)
		if zz.Choice(2) == 1 {
			n += 128
		}
		id = longOid(n, zz.Choice(2))
	case k < 14:
		switch zz.Choice(3) {
		case 0:
			n = zz.Range(127, 129)
		case 1:
			n = zz.Range(253, 260)
		default:
			n = zz.Pick(sizes...)
		}
		s = longBytes(n)
	case k == 14:
		n = zz.Pick(33, 80)
	case k == 15:
		n = zz.Pick(40, 300)
	default:
		n = zz.Pick(9, 70)
	}
	return place(k, n, id, s)
}

// Every length in turn: OIDs of 0..134 sub-identifiers in every place an OID can stand (each length from 5 on with and without the 1.3.6.1 prefix), strings, opaques, descriptions and contexts of 0..132 bytes and of 19 lengths up to 4097, 0..36 ranges, 0..36 varbinds of mixed syntaxes, up to 36 identical ranges or varbinds; up to three arbitrary elements in each, the rest fixed; both byte orders.
func genSweep() agentx.Pdu { return sweepWith(true) }

// Most lengths in turn: OIDs of 0..40, 63..66, 99..101 and 126..131 sub-identifiers in every place an OID can stand (each length from 5 on with and without the 1.3.6.1 prefix), strings, opaques, descriptions and contexts of 0..40, 60..68, 96..101, 126..131, 255..257 and 512..513 bytes, 0..36 ranges, 0..36 varbinds of mixed syntaxes, up to 36 identical ranges or varbinds; up to three arbitrary elements in each, the rest fixed; both byte orders.
func genSteps() agentx.Pdu { return sweepWith(false) }

func ranges(b ...int) int {
	i := 2 * zz.Choice(len(b)/2)
	return zz.Range(b[i], b[i+1])
}

func sweepWith(all bool) agentx.Pdu {
	k := zz.Choice(18)
	n := 0
	switch {
	case k >= 16:
		if all {
			n = zz.Range(0, 36)
		} else {
			n = zz.Pick(2, 3, 9, 17, 33)
		}
		k++
	case k < 9:
		if all {
			n = zz.Range(0, 134)
		} else {
			n = ranges(0, 40, 63, 66, 99, 101, 126, 131)
		}
		pre := 0
		if n >= 5 {
			pre = zz.Choice(2)
		}
		return place(k, n, longOid(n, pre), nil)
	case k < 14:
		if !all {
			n = ranges(0, 40, 60, 68, 96, 101, 126, 131, 255, 257, 512, 513)
		} else if zz.Choice(2) == 0 {
			n = zz.Range(0, 132)
		} else {
			n = zz.Pick(160, 191, 192, 193, 255, 256, 257, 384, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4097)
		}
		return place(k, n, nil, longBytes(n))
	default:
		n = zz.Range(0, 36)
	}
	return place(k, n, nil, nil)
}

// place puts an OID, a string or a number of elements in the k-th place a PDU has for them.
func place(k, n int, id []uint32, s []byte) agentx.Pdu {
	p := agentx.Pdu{Flags: agentx.Flags(zz.U8()) & fNet, PacketId: zz.U32(), Params: agentx.NoParams{}}
	switch k {
	case 0:
		p.Tag, p.Params = 1, agentx.OpenParams{Oid: id, Description: "d"}
	case 1:
		p.Tag, p.Params = 3, agentx.RegisterParams{Subtree: id, RangeSubid: zz.U8(), UpperBound: zz.U32()}
	case 2:
		p.Tag, p.Params = 4, agentx.UnregisterParams{Subtree: id, RangeSubid: zz.U8(), UpperBound: zz.U32()}
	case 3:
		p.Tag, p.Params = 16, agentx.AddAgentCapsParams{Oid: id, Description: "d"}
	case 4:
		p.Tag, p.Params = 17, agentx.RemoveAgentCapsParams{Oid: id}
	case 5:
		p.Tag, p.Ranges = 5, []agentx.SearchRange{{StartOid: id, EndOid: []uint32{1}, StartIncluded: zz.U8()}}
	case 6:
		p.Tag, p.Ranges = 6, []agentx.SearchRange{{StartOid: []uint32{1}, EndOid: id, StartIncluded: zz.U8()}}
	case 7:
		p.Tag, p.Varbinds = 8, []asn.Varbind{{Oid: id, Tag: 65, Value: zz.U32()}}
	case 8:
		p.Tag, p.Varbinds = 12, []asn.Varbind{{Oid: []uint32{1}, Tag: 6, Value: id}}
	case 9:
		p.Tag, p.Params = 1, agentx.OpenParams{Description: string(s)}
	case 10:
		p.Tag, p.Params = 16, agentx.AddAgentCapsParams{Description: string(s)}
	case 11:
		p.Tag, p.Flags, p.Context = 13, p.Flags|fCtx, string(s)
	case 12:
		p.Tag, p.Varbinds = 14, []asn.Varbind{{Oid: []uint32{1}, Tag: 4, Value: string(s)}, {Oid: []uint32{2}, Tag: 65, Value: zz.U32()}}
	case 13:
		p.Tag, p.Varbinds = 15, []asn.Varbind{{Oid: []uint32{1}, Tag: 68, Value: s}, {Oid: []uint32{2}, Tag: 65, Value: zz.U32()}}
	case 14:
		p.Tag = 5
		for i := n; i > 0; i-- {
			r := agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, 1, uint32(i)}, EndOid: []uint32{1, 3, uint32(i)}, StartIncluded: byte(i)}
			if i%16 == 0 {
				r.StartOid[6], r.StartIncluded = zz.U32(), zz.U8()
			}
			p.Ranges = append(p.Ranges, r)
		}
	case 15:
		p.Tag, p.Params = 18, agentx.ResponseParams{SysUpTime: zz.U32()}
		for i := n; i > 0; i-- {
			vb := asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, 1, uint32(i)}, Tag: 65, Value: uint32(i)}
			if i%16 == 0 {
				vb.Value = zz.U32()
			}
			if n <= 36 {
				vb = mixed(i)
			}
			p.Varbinds = append(p.Varbinds, vb)
		}
	case 16:
		p.Tag = 8
		size := 1000
		if n < 70 {
			size = 8000
		}
		for i := 0; i < n; i++ {
			vb := asn.Varbind{Oid: []uint32{1, 3, 6, uint32(i)}, Tag: 4, Value: string(make([]byte, size))}
			if i == n-1 {
				vb.Value = string(longBytes(size))
			}
			p.Varbinds = append(p.Varbinds, vb)
		}
	case 17:
		p.Tag = 6
		r := agentx.SearchRange{StartIncluded: zz.U8()}
		if zz.Choice(2) == 1 {
			r.StartOid, r.EndOid = zz.U32s(1), []uint32{1, 3, 6, 1, 2, 1}
		}
		for i := 0; i < n; i++ {
			p.Ranges = append(p.Ranges, r)
		}
	case 18:
		p.Tag = 14
		vb := mixed(zz.Choice(len(vbTags)))
		for i := 0; i < n; i++ {
			p.Varbinds = append(p.Varbinds, vb)
		}
	}
	return p
}

// mixed is a fixed varbind of a syntax that depends on i.
func mixed(i int) asn.Varbind {
	vb := asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, 1, uint32(i)}, Tag: vbTags[i%len(vbTags)]}
	switch vb.Tag {
	case 2:
		vb.Value = int32(-i)
	case 4:
		vb.Value = "abcdefghijklmnopqrstuvwxyz0123456789"[:i%36]
	case 6:
		vb.Value = []uint32{1, 3, 6, 1, uint32(i)}
	case 64:
		vb.Value = [4]byte{byte(i), 2, 3, 4}
	case 65, 66, 67:
		vb.Value = uint32(i) << 20
	case 68:
		vb.Value = make([]byte, i%7)
	case 70:
		vb.Value = uint64(i) << 40
	}
	return vb
}

// Hundreds of elements: 255..257, 300 or, in two, 600 varbinds of all syntaxes, or search ranges; the OID and the value, or the OIDs and the include byte, of the first, the 255th or the last arbitrary; both byte orders.
func genHundreds() agentx.Pdu { return hundreds(zz.Pick(255, 256, 257, 300, 600)) }

func hundreds(n int) agentx.Pdu {
	at := zz.Pick(0, 254, n-1)
	p := agentx.Pdu{Flags: agentx.Flags(zz.Pick(0, fNet)), Params: agentx.NoParams{}}
	if zz.Choice(2) == 0 {
		p.Tag = agentx.PduTag(zz.Pick(5, 6))
		for i := 0; i < n; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{uint32(i)}, StartIncluded: byte(i & 1)})
		}
		p.Ranges[at] = agentx.SearchRange{StartOid: zz.U32s(2), EndOid: zz.U32s(1), StartIncluded: zz.U8() & 1}
		return p
	}
	p.Tag = agentx.PduTag(zz.Pick(8, 14))
	for i := 0; i < n; i++ {
		p.Varbinds = append(p.Varbinds, mixed(i))
	}
	p.Varbinds[at] = asn.Varbind{Oid: zz.U32s(2), Tag: 65, Value: zz.U32()}
	return p
}

// Payloads of hundreds of elements, made by the reference encoder. {genHundreds}
func inHundreds() in { return sweepIn(genHundreds()) }

// Three varbinds or three search ranges, whose OIDs (one or three sub-identifiers each, the ends of ranges also none), values and include bytes are arbitrary, so equal or not; syntaxes Null, Counter32, OctetString of 2.
func genTriple() agentx.Pdu {
	p := agentx.Pdu{Flags: agentx.Flags(zz.Pick(0, fNet)), Params: agentx.NoParams{}}
	n := zz.Pick(1, 3)
	if zz.Choice(2) == 0 {
		p.Tag = agentx.PduTag(zz.Pick(5, 6))
		for i := 0; i < 3; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: zz.U32s(n), EndOid: zz.U32s(n * zz.Choice(2)), StartIncluded: zz.U8() & 1})
		}
		return p
	}
	p.Tag = agentx.PduTag(zz.Pick(8, 12))
	for i := 0; i < 3; i++ {
		vb := asn.Varbind{Oid: zz.U32s(n)}
		switch zz.Choice(3) {
		case 0:
			vb.Tag = 5
		case 1:
			vb.Tag, vb.Value = 65, zz.U32()
		default:
			vb.Tag, vb.Value = 4, zz.Str(2)
		}
		p.Varbinds = append(p.Varbinds, vb)
	}
	return p
}

// Two PDUs of one type and byte order (all 18, both) one after the other; their identifiers, parameters (OIDs of 2 sub-identifiers), contexts, range and varbind arbitrary, so alike or not.
func genTwice() (p, q agentx.Pdu) {
	tag, fl := byte(zz.Range(1, 18)), byte(zz.Pick(0, fNet))
	if allowed(tag)&fCtx != 0 && zz.Choice(2) == 1 {
		fl |= fCtx
	}
	one := func() agentx.Pdu {
		p := anyHeader(tag, fl)
		p.Context = zz.Str(2)
		p.Params = anyParams(tag, 2, 1)
		p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(2), EndOid: zz.U32s(1), StartIncluded: zz.U8()}}
		p.Varbinds = []asn.Varbind{{Oid: zz.U32s(2), Tag: 2, Value: int32(zz.U32())}}
		return p
	}
	return one(), one()
}

// A payload of 0..8 arbitrary bytes for type 2, 13, 17 or 18 after one of the same length for type 2 or 13.
func inTwice(first func(in)) in {
	n := 4 * zz.Range(0, 2)
	first(in{header(byte(zz.Pick(2, 13)), 0, n), zz.Bytes(n)})
	return in{header(byte(zz.Pick(2, 13, 17, 18)), zz.U8()&fNet, n), zz.Bytes(n)}
}

// Payloads of three elements, made by the reference encoder. {genTriple}
func inTriple() in { return sweepIn(genTriple()) }

// odd is a parameter value no PDU type takes.
type odd struct{ agentx.NoParams }

// Any tag byte, any flags byte, and every kind of parameters (each of the nine, nil, a pointer to and a struct embedding one, nil pointers), with or without ranges and varbinds.
func genKinds() agentx.Pdu { return kindsWith(zz.U8()) }

func kindsWith(fl byte) agentx.Pdu {
	p := anyHeader(zz.U8(), fl)
	k := zz.Choice(14)
	if k < 8 {
		p.Params = anyParams([]byte{1, 2, 3, 4, 7, 16, 17, 18}[k], 1, 1)
	}
	switch k {
	case 8:
		p.Params = agentx.NoParams{}
	case 10:
		p.Params = &agentx.NoParams{}
	case 11:
		p.Params = odd{}
	case 12:
		p.Params = (*agentx.OpenParams)(nil)
	case 13:
		p.Params = &agentx.ResponseParams{}
	}
	if zz.Choice(2) == 1 {
		p.Context = "c"
		p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(1)}}
		p.Varbinds = []asn.Varbind{{Oid: zz.U32s(1), Tag: 2, Value: int32(zz.U32())}}
	}
	return p
}

type (
	myInt   int32
	myU32   uint32
	myU64   uint64
	myStr   string
	myBytes []byte
	myWords []uint32
	myAddr  [4]byte
)

// oddValue is a value of one of 26 Go types, named and pointer types among them.
func oddValue() interface{} {
	switch zz.Choice(28) {
	case 0:
		return int32(zz.U32())
	case 1:
		return zz.U32()
	case 2:
		return zz.U64()
	case 3:
		return zz.Str(2)
	case 4:
		return zz.Bytes(2)
	case 5:
		return zz.U32s(2)
	case 6:
		return [4]byte{zz.U8(), 1, 2, 3}
	case 7:
		return nil
	case 8:
		return int(zz.U32())
	case 9:
		return int64(zz.U64())
	case 10:
		return zz.Bool()
	case 11:
		return zz.U8()
	case 12:
		return []uint32(nil)
	case 13:
		return []byte(nil)
	case 14:
		return [3]byte{zz.U8()}
	case 15:
		return myInt(zz.U32())
	case 16:
		return []string{"a"}
	case 17:
		return new(uint32)
	case 18:
		return myU32(zz.U32())
	case 19:
		return myU64(zz.U64())
	case 20:
		return myStr(zz.Str(2))
	case 21:
		return myBytes(zz.Bytes(2))
	case 22:
		return myWords(zz.U32s(2))
	case 23:
		return myAddr{zz.U8(), 1, 2, 3}
	case 24:
		s := zz.Str(1)
		return &s
	case 25:
		return &[4]byte{zz.U8(), 1, 2, 3}
	case 26:
		return []int32{int32(zz.U32())}
	default:
		return zz.Bytes(4)
	}
}

// One varbind with any tag byte and a value of any of 26 Go types (matching or not), first or last of two varbinds, in every PDU type.
func genMismatch() agentx.Pdu {
	p := agentx.Pdu{Tag: agentx.PduTag(zz.Range(1, 18)), Flags: agentx.Flags(zz.U8()) & fNet}
	p.Params = anyParams(byte(p.Tag), 1, 1)
	if p.Tag == 18 {
		p.Params = agentx.ResponseParams{SysUpTime: zz.U32()}
	}
	vb := asn.Varbind{Oid: zz.U32s(1), Tag: asn.Tag(zz.U8()), Value: oddValue()}
	good := asn.Varbind{Oid: zz.U32s(1), Tag: 4, Value: "xyz"}
	if zz.Choice(2) == 1 {
		p.Varbinds = []asn.Varbind{good, vb}
	} else {
		p.Varbinds = []asn.Varbind{vb, good}
	}
	return p
}

// Each of the 18 PDU types, both byte orders, no context flag, small carried fields; the fields the type does not carry hold anything: a context of 0, 3 or 300 bytes, ranges and varbinds with OIDs of 129, 134 or 300 sub-identifiers, varbinds of unknown syntax, of the wrong Go type or without a value, any announced size.
func genCarried() agentx.Pdu {
	tag := byte(zz.Range(1, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, SessionId: zz.U32(), PayloadSize: int32(zz.U32())}
	p.Params = anyParams(tag, 1, 1)
	k := zz.Choice(4)
	p.Context = string(make([]byte, []int{0, 3, 300, 3}[k]))
	id := make([]uint32, []int{129, 134, 300, 5}[k])
	if k == 1 {
		id[0], id[1], id[2], id[3], id[4] = 1, 3, 6, 1, 4
	}
	if hasRanges(tag) {
		p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(1), EndOid: zz.U32s(2), StartIncluded: zz.U8()}}
	} else {
		p.Ranges = []agentx.SearchRange{{StartOid: id}, {EndOid: id, StartIncluded: zz.U8()}}
	}
	if hasVarbinds(tag) {
		p.Varbinds = []asn.Varbind{{Oid: zz.U32s(1), Tag: 65, Value: zz.U32()}}
	} else {
		p.Varbinds = []asn.Varbind{{Oid: id, Tag: 65, Value: zz.U32()}, {Tag: asn.Tag(zz.Pick(0, 1, 69, 255)), Value: uint32(1)}, {Tag: 4, Value: int32(5)}, {Tag: 6, Value: id}, {Tag: 68}}
		if zz.Choice(2) == 1 {
			p.Varbinds = p.Varbinds[zz.Range(1, 4):]
		}
	}
	return p
}
