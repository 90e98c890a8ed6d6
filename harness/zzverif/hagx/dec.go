package hagx

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
)

// ---- headers

func refHeader(b []byte) (p agentx.Pdu, ok bool) {
	if len(b) != 20 {
		return p, false
	}
	tag, fl := b[1], b[2]
	n := get32(b[16:20], fl&fNet != 0)
	ok = zz.And(b[0] == 1, tag >= 1, tag <= 18, b[3] == 0, n < 1<<31, n&3 == 0)
	if !ok {
		return
	}
	if fl&^allowed(tag) != 0 {
		return p, false
	}
	be := fl&fNet != 0
	return agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(fl), SessionId: get32(b[4:8], be),
		TransactionId: get32(b[8:12], be), PacketId: get32(b[12:16], be), PayloadSize: int32(n)}, true
}

// Every byte sequence of 0..24 bytes (thorough also 25..64): accepted exactly when well formed, and the fields.
func C05_Header() {
	c05(zz.Bytes(zz.Range(0, bound(24, 64))))
}

// An arbitrary header of 20 bytes after another one of type 1, 13 or 18, its size, identifiers and byte order arbitrary.
func C05_Twice() {
	b := zz.Bytes(20)
	b[0], b[1], b[2], b[3] = 1, byte(zz.Pick(1, 13, 18)), b[2]&fNet, 0
	agentx.DecodePduHeader(b)
	c05(zz.Bytes(20))
}

func c05(b []byte) {
	var p agentx.Pdu
	var ok bool
	zz.Assert(!zz.Panics(func() { p, ok = agentx.DecodePduHeader(b) }), "DecodePduHeader does not panic")
	want, wok := refHeader(b)
	zz.Assert(ok == wok, "accepted exactly when well formed")
	if ok && wok {
		zz.Cover("accepted")
		zz.Assert(zz.And(eqHeader(p, want), p.PayloadSize == want.PayloadSize), "header fields")
		zz.Assert(p.Context == "" && p.Params == nil && len(p.Ranges) == 0 && len(p.Varbinds) == 0, "payload fields stay empty")
		zz.ObserveU("session", uint64(p.SessionId))
		zz.ObserveU("size", uint64(p.PayloadSize))
	}
}

// A nil slice is rejected.
func C05_Nil() {
	_, ok := agentx.DecodePduHeader(nil)
	zz.Assert(!ok, "nil is not a header")
}

// A valid header within a longer buffer: 20 bytes sliced out of 40 arbitrary ones decode like a copy of them.
func C05_Slice() {
	b := zz.Bytes(40)
	k := zz.Pick(0, 1, 7, 20)
	p, ok := agentx.DecodePduHeader(b[k : k+20])
	want, wok := refHeader(append([]byte(nil), b[k:k+20]...))
	zz.Assert(ok == wok, "accepted exactly when well formed")
	if ok && wok {
		zz.Assert(zz.And(eqHeader(p, want), p.PayloadSize == want.PayloadSize), "header fields")
	}
}

// ---- payloads

// in is a header and a payload.
type in struct {
	h    agentx.Pdu
	data []byte
}

func header(tag, fl byte, n int) agentx.Pdu {
	return agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(fl), PayloadSize: int32(n)}
}

// Arbitrary payload bytes: for each PDU type with parameters only (1..4, 16, 17) every payload of 0..20 bytes (thorough 24), both byte orders, context flag off.
func inParams() in {
	tag := byte(zz.Pick(1, 2, 3, 4, 16, 17))
	n := zz.Range(0, bound(20, 24))
	return in{header(tag, zz.U8()&fNet, n), zz.Bytes(n)}
}

// Arbitrary payload bytes for the PDU types without payload (9..11, 13): 0..9 bytes, both byte orders.
func inEmpty() in {
	tag := byte(zz.Pick(9, 10, 11, 13))
	n := zz.Range(0, 9)
	return in{header(tag, zz.U8()&fNet, n), zz.Bytes(n)}
}

// Arbitrary payload bytes with the context flag for every PDU type that allows it: 0..12 bytes (thorough 16), both byte orders.
func inContext() in {
	tag := byte(zz.Pick(3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 18))
	n := zz.Range(0, bound(12, 16))
	return in{header(tag, zz.U8()&fNet|fCtx, n), zz.Bytes(n)}
}

// Arbitrary payload bytes for PDU types 5..7: 0..20 bytes for Get and GetNext, 0..24 for GetBulk (thorough 24/28), both byte orders.
func inRanges() in {
	tag := byte(zz.Range(5, 7))
	m := bound(20, 24)
	if tag == 7 {
		m += 4
	}
	n := zz.Range(0, m)
	return in{header(tag, zz.U8()&fNet, n), zz.Bytes(n)}
}

// Arbitrary payload bytes for the PDU types with varbinds: 0..20 bytes (0..16 for the debug decoder; thorough 24) for TestSet, 0..14 (thorough 24) for the others, for Response after 8 parameter bytes that are arbitrary before up to 8 bytes, and fixed before longer ones, both byte orders.
func inVarbinds(most int) in {
	tag := byte(zz.Pick(8, 12, 14, 15, 18))
	m := bound(14, 24)
	if tag == 8 {
		m = bound(most, 24)
	}
	if tag == 18 {
		m += 8
	}
	n := zz.Range(0, m)
	fl := zz.U8() & fNet
	b := zz.Bytes(n)
	if tag == 18 && n > 16 && !zz.Thorough() {
		copy(b, []byte{1, 2, 3, 4, 5, 6, 7, 8})
	}
	return in{header(tag, fl, n), b}
}

// template is a well-formed payload of the k-th shape, with arbitrary or fixed contents.
func template(k int, any bool) (tag, fl byte, b []byte) {
	seed := byte(0)
	u8 := func() byte {
		if any {
			return zz.U8()
		}
		seed += 0x3b
		return seed
	}
	b32 := func() uint32 { return uint32(u8())<<24 | uint32(u8())<<16 | uint32(u8())<<8 | uint32(u8()) }
	b16 := func() uint16 { return uint16(u8())<<8 | uint16(u8()) }
	bytes := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = u8()
		}
		return b
	}
	str := func(n int) string { return string(bytes(n)) }
	fl = byte(zz.Pick(0, fNet))
	x := &w{be: fl != 0}
	id := func() []uint32 { return []uint32{1, 3, 6, 1, 4, b32()} }
	switch k {
	case 0:
		tag = 1
		x.b = append(x.b, u8(), 0, 0, 0)
		x.oid(id(), 0)
		x.str(str(5))
	case 1:
		tag, fl = 3, fl|fCtx
		x.str("ctx")
		x.b = append(x.b, u8(), u8(), 2, 0)
		x.oid([]uint32{b32(), 7, 8}, 0)
		x.u32(b32())
	case 2:
		tag = 4
		x.b = append(x.b, 0, u8(), 0, 0)
		x.oid(id(), 0)
	case 3:
		tag, fl = 16, fl|fCtx
		x.str("con")
		x.oid(id(), 0)
		x.str(str(2))
	case 4:
		tag, fl = 5, fl|fCtx
		x.str("")
		x.oid(id(), u8())
		x.oid(nil, 0)
		x.oid([]uint32{1, 3}, 1)
		x.oid(id(), 0)
	case 5:
		tag = 7
		x.u16(b16() & 0x7fff)
		x.u16(b16() & 0x7fff)
		x.oid([]uint32{1, 3, 6, 1, 300}, 1)
		x.oid([]uint32{2}, 0)
	case 6:
		tag = 8
		x.varbind(asn.Varbind{Oid: id(), Tag: 4, Value: str(6)})
		x.varbind(asn.Varbind{Oid: []uint32{1}, Tag: 70, Value: (uint64(b32())<<32 | uint64(b32()))})
		x.varbind(asn.Varbind{Oid: nil, Tag: 130})
	case 7:
		tag = 18
		x.u32(b32())
		x.u16(b16())
		x.u16(b16())
		x.varbind(asn.Varbind{Oid: id(), Tag: 64, Value: [4]byte{u8(), 2, 3, 4}})
		x.varbind(asn.Varbind{Oid: []uint32{9}, Tag: 6, Value: id()})
		x.varbind(asn.Varbind{Oid: []uint32{9}, Tag: 68, Value: bytes(3)})
	case 8:
		tag, fl = 12, fl|fCtx
		x.str("four")
		x.varbind(asn.Varbind{Oid: id(), Tag: 2, Value: int32(b32())})
		x.varbind(asn.Varbind{Oid: id(), Tag: 67, Value: b32()})
		x.varbind(asn.Varbind{Oid: id(), Tag: 5})
	default:
		tag, fl = 17, fl|fCtx
		x.str(str(1))
		x.oid([]uint32{1, 3, 6, 1, b32()}, 0)
	}
	return tag, fl, x.b
}

const nTemplates = 10

// Ten well-formed payloads of 12..84 bytes (strings, OIDs, ranges, varbinds of all kinds, contexts) with two adjacent bytes at any position replaced by arbitrary bytes (thorough: arbitrary contents, one byte replaced), both byte orders.
func inDamaged() in {
	tag, fl, b := template(zz.Choice(nTemplates), zz.Thorough())
	k := zz.Choice(len(b))
	b[k] = zz.U8()
	if !zz.Thorough() && k+1 < len(b) {
		b[k+1] = zz.U8()
	}
	return in{header(tag, fl, len(b)), b}
}

// The same ten payloads with arbitrary contents, cut at every length, followed by 1..5 arbitrary bytes, or with an announced length that is arbitrary.
func inResized() in {
	tag, fl, b := template(zz.Choice(nTemplates), true)
	switch zz.Choice(3) {
	case 0:
		b = b[:zz.Choice(len(b)+1)]
	case 1:
		b = append(b, zz.Bytes(zz.Range(1, 5))...)
	default:
		h := header(tag, fl, 0)
		h.PayloadSize = int32(zz.U32())
		return in{h, b}
	}
	return in{header(tag, fl, len(b)), b}
}

// The same payloads with fixed (thorough: arbitrary) contents under the header of any other PDU type that is known, with every flag combination allowed for it.
func inOther() in {
	_, _, b := template(zz.Choice(nTemplates), zz.Thorough())
	tag := byte(zz.Range(1, 18))
	fl := zz.U8()
	zz.Assume(fl&^allowed(tag) == 0)
	return in{header(tag, fl, len(b)), b}
}

// Long OIDs and strings: an OID with any count byte and 126..134 sub-identifiers present; strings of 127..129, 255..257 and 65536 bytes with an arbitrary low byte in the length; 40 ranges or 60 varbinds.
func inLong() in {
	fl := byte(zz.Pick(0, fNet))
	x := &w{be: fl != 0}
	switch zz.Choice(7) {
	case 0:
		n := zz.Range(126, 134)
		x.b = append(x.b, byte(n), zz.U8(), zz.U8(), zz.U8())
		for i := 0; i < n; i++ {
			x.u32(uint32(i))
		}
		if zz.Choice(2) == 1 {
			x.b[0] = zz.U8()
		}
		return in{header(17, fl, len(x.b)), x.b}
	case 1, 2:
		n := zz.Pick(127, 128, 129, 255, 256, 257, 65536)
		t := zz.Pick(4, 68)
		x.u16(uint16(t))
		x.u16(0)
		x.oid([]uint32{1}, 0)
		x.str(string(longBytes(n)))
		k := 12
		if fl != 0 {
			k = 15
		}
		if n < 1000 {
			x.b[k] = zz.U8()
		}
		return in{header(8, fl, len(x.b)), x.b}
	case 3:
		n := zz.Pick(127, 128, 129, 255, 256, 257)
		x.str(string(longBytes(n)))
		x.b[zz.Pick(0, 3)] = zz.U8()
		return in{header(13, fl|fCtx, len(x.b)), x.b}
	case 4:
		x.b = append(x.b, zz.U8(), 0, 0, 0)
		x.oid([]uint32{1}, 0)
		x.str(string(longBytes(zz.Pick(127, 256, 65536))))
		return in{header(1, fl, len(x.b)), x.b}
	case 5:
		for i := 0; i < 40; i++ {
			x.oid([]uint32{1, 3, 6, 1, uint32(i)}, byte(i&1))
			x.oid([]uint32{1, zz.U32()}, 0)
		}
		return in{header(5, fl, len(x.b)), x.b}
	default:
		for i := 0; i < 60; i++ {
			x.varbind(asn.Varbind{Oid: []uint32{uint32(i)}, Tag: 65, Value: zz.U32()})
		}
		return in{header(12, fl, len(x.b)), x.b}
	}
}

// long is a well-formed payload of 400..1100 bytes.
func long() agentx.Pdu {
	p := agentx.Pdu{Flags: agentx.Flags(zz.Pick(0, fNet)), Params: agentx.NoParams{}}
	oid := func(n int) (id []uint32) {
		for i := 0; i < n; i++ {
			id = append(id, uint32(i*i))
		}
		return
	}
	str := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 5)
		}
		return string(b)
	}
	switch zz.Choice(6) {
	case 5:
		p.Tag, p.Varbinds = 8, []asn.Varbind{{Oid: oid(120), Tag: 5}, {Oid: oid(120), Tag: 4, Value: "abcd"}}
	case 0:
		p.Tag, p.Varbinds = 8, []asn.Varbind{{Oid: oid(120), Tag: 5}, {Oid: oid(60), Tag: 4, Value: str(201)}, {Oid: oid(7), Tag: 6, Value: oid(20)}, {Oid: oid(2), Tag: 70, Value: uint64(7)}}
	case 1:
		p.Tag, p.Params = 1, agentx.OpenParams{Timeout: 3, Oid: oid(90), Description: str(302)}
	case 2:
		p.Tag, p.Flags, p.Context = 6, p.Flags|fCtx, str(203)
		for i := 0; i < 8; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: oid(3 + i), EndOid: oid(i), StartIncluded: byte(i & 1)})
		}
	case 3:
		p.Tag, p.Params = 18, agentx.ResponseParams{SysUpTime: 9}
		for i := 0; i < 26; i++ {
			p.Varbinds = append(p.Varbinds, mixed(i))
		}
	default:
		p.Tag, p.Flags, p.Context = 14, p.Flags|fCtx, "ctx"
		p.Varbinds = []asn.Varbind{{Oid: oid(125), Tag: 68, Value: []byte(str(333))}, {Oid: oid(1), Tag: 64, Value: [4]byte{1, 2, 3, 4}}}
	}
	return p
}

// Payloads of 400..1100 fixed bytes (OIDs of 90, 120 or 125 sub-identifiers, strings of 4 or 200..333 bytes, eight ranges, or 26 varbinds), both byte orders, cut at every multiple of four bytes, or with any byte of a quarter of the positions (the announced lengths among them) replaced by an arbitrary one.
func inLongDamaged() in { return longDamaged(1) }

func longDamaged(step int) in {
	i := sweepIn(long())
	n := len(i.data) / 4
	cuts := n/step + 2
	if k := zz.Choice(cuts + n/step); k < cuts {
		if k *= step; k > n-2 {
			k = n - (cuts - k/step) // one and two words short
		}
		i.data = i.data[:4*k]
		i.h.PayloadSize = int32(4 * k)
	} else {
		k = 4 * (k - cuts) * step
		if i.h.Flags&fNet != 0 {
			k += 3
		}
		i.data[k] = zz.U8()
	}
	return i
}

// {inLongDamaged}
func C06_LongDamaged() { c06(inLongDamaged()) }

// Quick: every fourth of these positions, and one and two words short. {inLongDamaged}
func C10_LongDamaged() { c10(longDamaged(bound(4, 1))) }

// Only 257 of them. {inHundreds}
func C10_Hundreds() { c10(sweepIn(hundreds(257))) }

// {inTwice}
func C10_Twice() {
	c10(inTwice(func(i in) { agentx.DecodePduPayloadDbg(&i.h, i.data, sink{}) }))
}

// {inTriple}
func C10_Triple() { c10(inTriple()) }

// {inHundreds}
func C11_Hundreds() { c11(inHundreds()) }

// {inTriple}
func C11_Triple() { c11(inTriple()) }

// {inLongDamaged}
func C11_T_LongDamaged() { c11(inLongDamaged()) }

// {inLongDamaged}
func C25_T_LongDamaged() { zz.OpaqueFormatting(true); c25dec(inLongDamaged()) }

// Payloads of every length, made by the reference encoder (so accepted or not, as the OID lengths allow): {genSweep}
func inSweep() in { return sweepIn(genSweep()) }

// Payloads of many lengths, made by the reference encoder (so accepted or not, as the OID lengths allow): {genSteps}
func inSteps() in { return sweepIn(genSteps()) }

func sweepIn(p agentx.Pdu) in {
	b := refEncode(p)
	return in{header(byte(p.Tag), byte(p.Flags), len(b)-20), b[20:]}
}

// decodePayload runs the plain payload decoder.
func decodePayload(i in) (p agentx.Pdu, ok bool) {
	p = i.h
	zz.Assert(!zz.Panics(func() { ok = agentx.DecodePduPayload(&p, i.data) }), "DecodePduPayload does not panic")
	return
}

func c06(i in) {
	p, ok := decodePayload(i)
	want, wok := refDecode(i.h, i.data)
	zz.Assert(ok == wok, "accepted exactly when well formed")
	if ok && wok {
		zz.Cover("accepted")
		zz.Assert(eqPdu(want, p), "decoded contents")
		zz.Assert(p.PayloadSize == i.h.PayloadSize, "payload size kept")
		observe(p)
	}
}

func observe(p agentx.Pdu) {
	zz.ObserveU("nr", uint64(len(p.Ranges)))
	zz.ObserveU("nv", uint64(len(p.Varbinds)))
	zz.Observe("ctx", []byte(p.Context))
	for _, r := range p.Ranges {
		zz.ObserveU("s", uint64(len(r.StartOid)))
	}
}

// {inParams}
func C06_Params() { c06(inParams()) }

// {inEmpty}
func C06_Empty() { c06(inEmpty()) }

// {inContext}
func C06_Context() { c06(inContext()) }

// {inRanges}
func C06_Ranges() { c06(inRanges()) }

// {inVarbinds}
func C06_Varbinds() { c06(inVarbinds(20)) }

// {inDamaged}
func C06_Damaged() { c06(inDamaged()) }

// {inResized}
func C06_Resized() { c06(inResized()) }

// {inOther}
func C06_Other() { c06(inOther()) }

// {inLong}
func C06_Long() { c06(inLong()) }

// {inSweep}
func C06_Sweep() { c06(inSweep()) }

// {inHundreds}
func C06_Hundreds() { c06(inHundreds()) }

// {inTwice}
func C06_Twice() { c06(inTwice(func(i in) { decodePayload(i) })) }

// {inTriple}
func C06_Triple() { c06(inTriple()) }

// Every tag byte that is not a PDU type is rejected, whatever the payload (0, 4 or 8 arbitrary bytes).
func C06_UnknownType() {
	n := zz.Pick(0, 4, 8)
	tag := zz.U8()
	zz.Assume(zz.Or(tag == 0, tag > 18))
	_, ok := decodePayload(in{header(tag, zz.U8()&(fNet|fCtx), n), zz.Bytes(n)})
	zz.Assert(!ok, "unknown PDU type")
}

// ---- C10: debug decoding

// sink formats nothing; printer formats every message.
type sink struct{}

func (sink) Write(string)                  {}
func (sink) Writef(string, ...interface{}) {}

type printer struct{ n int }

func (p *printer) Write(s string) { p.n += len(s) }
func (p *printer) Writef(f string, a ...interface{}) {
	p.n += len(fmt.Sprintf(f, a...))
}

func c10(i in) {
	zz.OpaqueFormatting(true)
	p, ok := decodePayload(i)
	q := i.h
	var ok2 bool
	zz.Assert(!zz.Panics(func() { ok2 = agentx.DecodePduPayloadDbg(&q, i.data, sink{}) }), "DecodePduPayloadDbg does not panic")
	zz.Assert(ok == ok2, "debug payload decoder accepts the same")
	if ok && ok2 {
		zz.Cover("accepted")
		zz.Assert(samePdu(p, q), "debug payload decoder decodes the same")
	}
	zz.ObserveU("ok", b2u(ok))
}

// samePdu compares every field, carried or not.
func samePdu(a, b agentx.Pdu) bool {
	return zz.And(eqHeader(a, b), a.PayloadSize == b.PayloadSize, zz.EqStr(a.Context, b.Context)) &&
		eqParams(a.Params, b.Params) && eqRanges(a.Ranges, b.Ranges) && eqVarbinds(a.Varbinds, b.Varbinds)
}

// {inParams}
func C10_Params() { c10(inParams()) }

// {inEmpty}
func C10_Empty() { c10(inEmpty()) }

// {inContext}
func C10_Context() { c10(inContext()) }

// {inRanges}
func C10_Ranges() { c10(inRanges()) }

// {inVarbinds}
func C10_Varbinds() { c10(inVarbinds(16)) }

// {inDamaged}
func C10_Damaged() { c10(inDamaged()) }

// {inResized}
func C10_Resized() { c10(inResized()) }

// {inOther}
func C10_Other() { c10(inOther()) }

// {inLong}
func C10_Long() { c10(inLong()) }

// {inSteps}
func C10_Sweep() { c10(inSteps()) }

// Any tag and flags byte, arbitrary announced length, 0, 4 or 8 arbitrary bytes.
func C10_AnyHeader() {
	h := header(zz.U8(), zz.U8(), 0)
	h.PayloadSize = int32(zz.U32())
	c10(in{h, zz.Bytes(zz.Pick(0, 4, 8))})
}

// Every header of 0..24 bytes: the debug header decoder agrees with the plain one.
func C10_Header() {
	zz.OpaqueFormatting(true)
	b := zz.Bytes(zz.Range(0, 24))
	p, ok := agentx.DecodePduHeader(b)
	var q agentx.Pdu
	var ok2 bool
	zz.Assert(!zz.Panics(func() { q, ok2 = agentx.DecodePduHeaderDbg(b, sink{}) }), "DecodePduHeaderDbg does not panic")
	zz.Assert(ok == ok2, "debug header decoder accepts the same")
	if ok && ok2 {
		zz.Assert(zz.And(eqHeader(p, q), p.PayloadSize == q.PayloadSize), "debug header decoder decodes the same")
	}
	zz.ObserveU("ok", b2u(ok))
}

// ---- C11: re-encoding

func c11(i in) {
	p, ok := decodePayload(i)
	zz.Assume(ok)
	a, ok := encode(p)
	zz.Assert(ok, "a decoded PDU can be encoded")
	if !ok {
		return
	}
	q, ok := decode(a)
	zz.Assert(ok, "the re-encoded PDU decodes")
	if !ok {
		return
	}
	zz.Assert(eqPdu(p, q), "re-encoding loses nothing")
	b, ok := encode(q)
	zz.Assert(ok && zz.EqBytes(a, b), "re-encoding is idempotent")
	zz.Observe("a", a)
}

// {inParams}
func C11_Params() { c11(inParams()) }

// {inContext}
func C11_Context() { c11(inContext()) }

// {inRanges}
func C11_Ranges() { c11(inRanges()) }

// {inVarbinds}
func C11_Varbinds() { c11(inVarbinds(20)) }

// {inDamaged}
func C11_Damaged() { c11(inDamaged()) }

// {inOther}
func C11_Other() { c11(inOther()) }

// {inLong}
func C11_Long() { c11(inLong()) }

// {inSweep}
func C11_Sweep() { c11(inSweep()) }

// Every header of 20 bytes that is accepted, over 0, 4 or 8 arbitrary payload bytes: decode, encode, decode.
func C11_Header() {
	b := zz.Bytes(20)
	p, ok := agentx.DecodePduHeader(b)
	zz.Assume(ok)
	n := zz.Pick(0, 4, 8)
	zz.Assume(p.PayloadSize == int32(n))
	c11(in{p, zz.Bytes(n)})
}

// The payload of a PDU with a string, an opaque, a context or a description of 4095, 9000 or 66000 bytes, three of them arbitrary, whole or without its last four bytes; both byte orders.
func C10_Huge() {
	p := huge(zz.Pick(4095, 9000, 66000))
	b := refEncode(p)[20:]
	if zz.Choice(2) == 1 {
		b = b[:len(b)-4]
	}
	c10(in{header(byte(p.Tag), byte(p.Flags), len(b)), b})
}
