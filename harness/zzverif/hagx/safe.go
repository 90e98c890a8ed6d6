package hagx

import (
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
)

// ---- C07: hostile input

// within checks the heap bytes requested by f against constant + factor * n.
func within(n int, constant, factor uint64, label string, f func()) {
	before := zz.AllocBytes()
	p := zz.Panics(f)
	after := zz.AllocBytes()
	zz.Assert(!p, label+" does not panic")
	zz.Assert(after-before <= constant+factor*uint64(n), label+" allocates in proportion to the input")
}

func c07(i in) {
	p := i.h
	within(len(i.data), 32<<10, 256, "DecodePduPayload", func() { agentx.DecodePduPayload(&p, i.data) })
	zz.ObserveU("nr", uint64(len(p.Ranges)))
}

func c07dbg(i in) {
	zz.OpaqueFormatting(true)
	q := i.h
	zz.Panics(func() { agentx.DecodePduPayload(&q, i.data) }) // splits the input into cases cheaply
	p := i.h
	within(len(i.data), 256<<10, 8192, "DecodePduPayloadDbg", func() { agentx.DecodePduPayloadDbg(&p, i.data, sink{}) })
	zz.ObserveU("nr", uint64(len(p.Ranges)))
}

// wild makes the header state arbitrary: any tag and flags byte, and an announced length that is right or arbitrary.
func wild(i in) in {
	i.h.Tag, i.h.Flags = agentx.PduTag(zz.U8()), agentx.Flags(zz.U8())
	if zz.Choice(2) == 1 {
		i.h.PayloadSize = int32(zz.U32())
	}
	return i
}

// {inParams}
func C07_Params() { c07(inParams()) }

// {inContext}
func C07_Context() { c07(inContext()) }

// {inRanges}
func C07_Ranges() { c07(inRanges()) }

// {inVarbinds}
func C07_Varbinds() { c07(inVarbinds(20)) }

// {inDamaged}
func C07_Damaged() { c07(inDamaged()) }

// {inResized}
func C07_Resized() { c07(inResized()) }

// {inOther}
func C07_Other() { c07(inOther()) }

// {inLong}
func C07_Long() { c07(inLong()) }

// {inSweep}
func C07_Sweep() { c07(inSweep()) }

// Any tag and flags byte, an announced length that is right or arbitrary, 0..12 arbitrary bytes.
func C07_AnyHeader() {
	n := zz.Range(0, 12)
	c07(wild(in{header(0, 0, n), zz.Bytes(n)}))
}

// Every byte sequence of 0, 1, 3..5, 19..21 and 24 bytes as a header, plain and debug.
func C07_Header() {
	zz.OpaqueFormatting(true)
	b := zz.Bytes(zz.Pick(0, 1, 3, 4, 5, 19, 20, 21, 24))
	if zz.Choice(2) == 0 {
		within(len(b), 32<<10, 256, "DecodePduHeader", func() { agentx.DecodePduHeader(b) })
	} else {
		within(len(b), 256<<10, 8192, "DecodePduHeaderDbg", func() { agentx.DecodePduHeaderDbg(b, sink{}) })
	}
	if len(b) == 0 {
		within(0, 256<<10, 0, "decoding a nil header", func() { agentx.DecodePduHeader(nil); agentx.DecodePduHeaderDbg(nil, sink{}) })
	}
}

// Debug decoder: {inParams}
func C07_DbgParams() { c07dbg(inParams()) }

// Debug decoder: {inContext}
func C07_DbgContext() { c07dbg(inContext()) }

// Debug decoder: {inVarbinds}
func C07_DbgVarbinds() { c07dbg(inVarbinds(14)) }

// Debug decoder: {inDamaged}
func C07_DbgDamaged() { c07dbg(inDamaged()) }

// Debug decoder: {inLong}
func C07_DbgLong() { c07dbg(inLong()) }

// Debug decoder: any tag and flags byte, an announced length that is right or arbitrary, 0..8 arbitrary bytes.
func C07_DbgAnyHeader() {
	n := zz.Range(0, 8)
	c07dbg(wild(in{header(0, 0, n), zz.Bytes(n)}))
}

// Many small elements: 8000 (debug decoder 1000) bytes of null ranges, null-OID varbinds or one-byte strings, the last one with four arbitrary bytes.
func C07_Many() {
	zz.OpaqueFormatting(true)
	dbg := zz.Choice(2) == 1
	size := 8000
	if dbg {
		size = 1000
	}
	fl := byte(zz.Pick(0, fNet))
	x := &w{be: fl != 0}
	tag := byte(5)
	k := zz.Choice(3)
	for len(x.b)+16 <= size {
		switch k {
		case 0:
			x.oid(nil, 0)
			x.oid(nil, 0)
		case 1:
			tag = 8
			x.varbind(asn.Varbind{Tag: 5})
		default:
			tag = 8
			x.varbind(asn.Varbind{Tag: 4, Value: "x"})
		}
	}
	for j := 1; j <= 4; j++ {
		x.b[len(x.b)-j] = zz.U8()
	}
	i := in{header(tag, fl, len(x.b)), x.b}
	if dbg {
		c07dbg(i)
	} else {
		c07(i)
	}
}

// Steps of decoding 16000 (debug decoder 8000) bytes, at most 50000 and 300 (debug 500) per byte: many null or five-element ranges, many null, one-byte or equal varbinds, OIDs of 128, or one long string, opaque, context or description; the last four bytes arbitrary. Natively 128 times as many bytes, and a step is 3 ns of processor time.
func C07_Steps() {
	zz.OpaqueFormatting(true)
	dbg := zz.Choice(2) == 1
	size := 16000
	if dbg {
		size = 8000
	}
	size = zz.Scaled(size)
	fl := byte(zz.Pick(0, fNet))
	x := &w{be: fl != 0}
	tag := byte(5)
	k := zz.Choice(10)
	long := make([]uint32, 128)
	for n := 1; len(x.b)+600 <= size; n++ {
		switch k {
		case 0:
			x.oid(nil, 0)
			x.oid(nil, 0)
		case 1:
			x.oid([]uint32{1, 2, 3, 4, uint32(n)}, 1)
			x.oid([]uint32{2}, 0)
		case 2:
			tag = 8
			x.varbind(asn.Varbind{Tag: 5})
		case 3:
			tag = 8
			x.varbind(asn.Varbind{Tag: 4, Value: "x"})
		case 4:
			tag = 14
			x.varbind(asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, uint32(n)}, Tag: 65, Value: uint32(n)})
		case 5:
			tag = 6
			x.oid(long, 0)
			x.oid(nil, 0)
		case 6:
			tag = 18
			if n == 1 {
				x.b = append(x.b, 0, 0, 0, 0, 0, 0, 0, 0)
			}
			x.varbind(asn.Varbind{Tag: 68, Value: make([]byte, size-600)})
		case 7:
			tag = 18
			if n == 1 {
				x.b = append(x.b, 0, 0, 0, 0, 0, 0, 0, 0)
			}
			x.varbind(asn.Varbind{Tag: 4, Value: string(make([]byte, size-600))})
		case 8:
			tag, fl = 13, fl|fCtx
			x.str(string(make([]byte, size-500)))
		case 9:
			tag = 1
			x.b = append(x.b, 0, 0, 0, 0)
			x.oid(nil, 0)
			x.str(string(make([]byte, size-500)))
		}
	}
	for j := 1; j <= 4; j++ {
		x.b[len(x.b)-j] = zz.U8()
	}
	p := header(tag, fl, len(x.b))
	before := zz.Steps()
	if dbg {
		agentx.DecodePduPayloadDbg(&p, x.b, sink{})
	} else {
		agentx.DecodePduPayload(&p, x.b)
	}
	after := zz.Steps()
	per := uint64(300)
	if dbg {
		per = 500
	}
	zz.Assert(after-before <= 50_000+per*uint64(len(x.b)), "decoding takes steps in proportion to the input")
}

// ---- C08: arguments are neither modified nor retained

// words and octets list the slices a PDU refers to.
func words(p *agentx.Pdu) (r []*[]uint32) {
	for i := range p.Ranges {
		r = append(r, &p.Ranges[i].StartOid, &p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		r = append(r, &p.Varbinds[i].Oid)
		if o, ok := p.Varbinds[i].Value.([]uint32); ok {
			r = append(r, &o)
		}
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		r = append(r, &q.Oid)
	case agentx.RegisterParams:
		r = append(r, &q.Subtree)
	case agentx.UnregisterParams:
		r = append(r, &q.Subtree)
	case agentx.AddAgentCapsParams:
		r = append(r, &q.Oid)
	case agentx.RemoveAgentCapsParams:
		r = append(r, &q.Oid)
	}
	return
}

func octets(p *agentx.Pdu) (r [][]byte) {
	for i := range p.Varbinds {
		if o, ok := p.Varbinds[i].Value.([]byte); ok {
			r = append(r, o)
		}
	}
	return
}

func roomyOid(id []uint32) []uint32 {
	if id == nil {
		return nil
	}
	r := make([]uint32, 0, len(id)+3)
	r = append(r, id...)
	x := r[:cap(r)]
	for i := len(id); i < len(x); i++ {
		x[i] = 0xA5A5A5A5
	}
	return r
}

func roomyBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	r := make([]byte, 0, len(b)+24)
	r = append(r, b...)
	x := r[:cap(r)]
	for i := len(b); i < len(x); i++ {
		x[i] = 0xA5
	}
	return r
}

func copyStr(s string) string { return string(append([]byte(nil), s...)) }

// copyPdu copies the PDU with everything it refers to, with spare capacity behind each slice.
func copyPdu(p agentx.Pdu) agentx.Pdu {
	p.Context = copyStr(p.Context)
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		q.Oid, q.Description = roomyOid(q.Oid), copyStr(q.Description)
		p.Params = q
	case agentx.RegisterParams:
		q.Subtree = roomyOid(q.Subtree)
		p.Params = q
	case agentx.UnregisterParams:
		q.Subtree = roomyOid(q.Subtree)
		p.Params = q
	case agentx.AddAgentCapsParams:
		q.Oid, q.Description = roomyOid(q.Oid), copyStr(q.Description)
		p.Params = q
	case agentx.RemoveAgentCapsParams:
		q.Oid = roomyOid(q.Oid)
		p.Params = q
	}
	if p.Ranges != nil {
		rs := make([]agentx.SearchRange, 0, len(p.Ranges)+2)
		for _, r := range p.Ranges {
			r.StartOid, r.EndOid = roomyOid(r.StartOid), roomyOid(r.EndOid)
			rs = append(rs, r)
		}
		p.Ranges = rs
	}
	if p.Varbinds != nil {
		vs := make([]asn.Varbind, 0, len(p.Varbinds)+2)
		for _, v := range p.Varbinds {
			v.Oid = roomyOid(v.Oid)
			switch x := v.Value.(type) {
			case []uint32:
				v.Value = roomyOid(x)
			case []byte:
				v.Value = roomyBytes(x)
			case string:
				v.Value = copyStr(x)
			case myBytes:
				v.Value = append(myBytes(nil), x...)
			case myWords:
				v.Value = append(myWords(nil), x...)
			}
			vs = append(vs, v)
		}
		p.Varbinds = vs
	}
	return p
}

// full is everything the slices of a PDU refer to, spare capacity included.
func full(p *agentx.Pdu) (u [][]uint32, b [][]byte) {
	for _, s := range words(p) {
		x := (*s)[:cap(*s)]
		u = append(u, append([]uint32(nil), x...))
	}
	for _, s := range octets(p) {
		b = append(b, append([]byte(nil), s[:cap(s)]...))
	}
	return
}

// rawRanges and rawVarbinds compare field by field, whatever the wire carries.
func unchanged(p, q agentx.Pdu, u [][]uint32, b [][]byte) bool {
	r := samePdu(p, q)
	if len(p.Ranges) != len(q.Ranges) {
		return false
	}
	for i := range p.Ranges {
		r = zz.And(r, p.Ranges[i].StartIncluded == q.Ranges[i].StartIncluded)
	}
	for i := 0; i < cap(p.Ranges) && p.Ranges != nil; i++ {
		if i >= len(p.Ranges) {
			x := p.Ranges[:cap(p.Ranges)][i]
			r = zz.And(r, x.StartOid == nil, x.EndOid == nil, x.StartIncluded == 0)
		}
	}
	for i := len(p.Varbinds); i < cap(p.Varbinds); i++ {
		x := p.Varbinds[:cap(p.Varbinds)][i]
		r = zz.And(r, x.Oid == nil, x.Tag == 0, x.Value == nil)
	}
	u2, b2 := full(&p)
	if len(u) != len(u2) || len(b) != len(b2) {
		return false
	}
	for i := range u {
		r = zz.And(r, zz.EqU32s(u[i], u2[i]))
	}
	for i := range b {
		r = zz.And(r, zz.EqBytes(b[i], b2[i]))
	}
	return r
}

func flipWords(p *agentx.Pdu) {
	for _, s := range words(p) {
		x := (*s)[:cap(*s)]
		for i := range x {
			x[i] = ^x[i]
		}
	}
	for _, s := range octets(p) {
		flipBytes(s)
	}
}

func flipBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = ^b[i]
	}
}

func c08enc(p agentx.Pdu, enc func(agentx.Pdu) ([]byte, bool)) {
	p = copyPdu(p)
	q := copyPdu(p)
	u, b := full(&p)
	data, ok := enc(p)
	zz.Assert(unchanged(p, q, u, b), "encoding leaves the PDU unchanged")
	if !ok {
		return
	}
	zz.Cover("encoded")
	keep := append([]byte(nil), data...)
	flipWords(&p)
	zz.Assert(zz.EqBytes(data, keep), "the encoded bytes do not follow the PDU")
	flipWords(&p)
	data2, ok := enc(p)
	zz.Assert(ok && zz.EqBytes(data2, keep), "encoding again gives the same bytes")
	flipBytes(data2)
	zz.Assert(zz.EqBytes(data, keep), "the results of two calls are separate")
	zz.Assert(unchanged(p, q, u, b), "the PDU does not follow the encoded bytes")
	zz.Observe("data", data)
}

func plainEnc(p agentx.Pdu) ([]byte, bool) { return agentx.EncodePdu(p) }
func dbgEnc(p agentx.Pdu) ([]byte, bool)   { return agentx.EncodePduDbg(p, sink{}) }

// {genTypes}
func C08_EncTypes() { c08enc(genTypes(), plainEnc) }

// {genParams}
func C08_EncParams() { c08enc(genParams(), plainEnc) }

// {genRanges}
func C08_EncRanges() { c08enc(genRanges(), plainEnc) }

// {genVarbind}
func C08_EncVarbind() { c08enc(genVarbind(), plainEnc) }

// {genVarbinds}
func C08_EncVarbinds() { c08enc(genVarbinds(), plainEnc) }

// {genSweep}
func C08_EncSweep() { c08enc(genSweep(), plainEnc) }

// {genMismatch}
func C08_EncMismatch() { c08enc(genMismatch(), plainEnc) }

// Debug encoder, flags none, each single bit, 24, 31 or 255; otherwise: {genTypes}
func C08_EncDbgTypes() { zz.OpaqueFormatting(true); c08enc(typesWith(someFlags()), dbgEnc) }

// Debug encoder: {genVarbind}
func C08_EncDbgVarbind() { zz.OpaqueFormatting(true); c08enc(genVarbind(), dbgEnc) }

func c08dec(i in, dec func(*agentx.Pdu, []byte) bool) {
	data := roomyBytes(i.data)
	if data == nil {
		data = []byte{}
	}
	raw := append([]byte(nil), data[:cap(data)]...)
	p := i.h
	ok := dec(&p, data)
	zz.Assert(zz.EqBytes(data[:cap(data)], raw), "decoding leaves the input bytes unchanged")
	if !ok {
		return
	}
	zz.Cover("decoded")
	snap := copyPdu(p)
	flipBytes(data)
	zz.Assert(samePdu(p, snap), "the PDU does not follow the input bytes")
	flipBytes(data)
	q := i.h
	ok = dec(&q, data)
	zz.Assert(ok && samePdu(q, snap), "decoding again gives the same PDU")
	zz.Assert(samePdu(p, snap), "a further call leaves the earlier PDU unchanged")
	flipWords(&q)
	zz.Assert(samePdu(p, snap), "the results of two calls are separate")
	zz.Assert(zz.EqBytes(data[:cap(data)], raw), "the input bytes do not follow the PDU")
	r := i.h
	ok = dec(&r, data)
	zz.Assert(ok && samePdu(r, snap), "a changed result does not affect later calls")
	apart(&r, snap)
	observe(p)
}

// apart tells that no two parts of a result share memory.
func apart(p *agentx.Pdu, snap agentx.Pdu) {
	us, bs := words(p), octets(p)
	for _, s := range us {
		_ = append(*s, 0x5A5A5A5A)
	}
	for _, s := range bs {
		_ = append(s, 0x5A)
	}
	zz.Assert(samePdu(*p, snap), "growing one part of a PDU leaves the others unchanged")
	for i, s := range us {
		for k := range *s {
			(*s)[k] = uint32(i)
		}
	}
	for i, s := range bs {
		for k := range s {
			s[k] = byte(i)
		}
	}
	good := true
	for i, s := range us {
		for k := range *s {
			good = good && (*s)[k] == uint32(i)
		}
	}
	for i, s := range bs {
		for k := range s {
			good = good && s[k] == byte(i)
		}
	}
	zz.Assert(good, "writing to one part of a PDU leaves the others unchanged")
}

func plainDec(p *agentx.Pdu, b []byte) bool { return agentx.DecodePduPayload(p, b) }
func dbgDec(p *agentx.Pdu, b []byte) bool   { return agentx.DecodePduPayloadDbg(p, b, sink{}) }

// {inParams}
func C08_DecParams() { c08dec(inParams(), plainDec) }

// {inContext}
func C08_DecContext() { c08dec(inContext(), plainDec) }

// {inRanges}
func C08_DecRanges() { c08dec(inRanges(), plainDec) }

// {inVarbinds}
func C08_DecVarbinds() { c08dec(inVarbinds(16), plainDec) }

// {inDamaged}
func C08_DecDamaged() { c08dec(inDamaged(), plainDec) }

// {inSweep}
func C08_DecSweep() { c08dec(inSweep(), plainDec) }

// Debug decoder: {inDamaged}
func C08_DecDbgDamaged() { zz.OpaqueFormatting(true); c08dec(inDamaged(), dbgDec) }

// Debug decoder: {inParams}
func C08_DecDbgParams() { zz.OpaqueFormatting(true); c08dec(inParams(), dbgDec) }

// Debug decoder: {inSteps}
func C08_DecDbgSweep() { zz.OpaqueFormatting(true); c08dec(inSteps(), dbgDec) }

// Debug encoder: {genSteps}
func C08_EncDbgSweep() { zz.OpaqueFormatting(true); c08enc(genSteps(), dbgEnc) }

// bigPdu has about n payload bytes, some of them arbitrary.
func bigPdu(n int) agentx.Pdu {
	p := agentx.Pdu{Tag: 8, Flags: agentx.Flags(n / 2 % 2 * fNet), SessionId: zz.U32(), Params: agentx.NoParams{}}
	id := make([]uint32, 7+n%60)
	copy(id, []uint32{1, 3, 6, 1, 4})
	id[6] = zz.U32()
	p.Varbinds = []asn.Varbind{{Oid: id[:5+n%3], Tag: 4, Value: string(longBytes(n / 2))}, {Oid: []uint32{2, 1}, Tag: 68, Value: longBytes(n / 2)}, {Oid: id[1:4], Tag: 6, Value: id}}
	return p
}

// An encoded and a decoded PDU of about 0..5000 bytes (debug 0..200), then an encoding and a decoding of another of any of these sizes, plain or debug: the earlier results stay. Also one of 70000 bytes before and after a small one.
func C08_Later() {
	zz.OpaqueFormatting(true)
	enc, dec := plainEnc, plainDec
	var a, b int
	if zz.Choice(2) == 1 {
		enc, dec = dbgEnc, dbgDec
		a, b = zz.Pick(0, 8, 40, 90, 202), zz.Pick(0, 8, 40, 90, 202)
	} else if k := zz.Choice(3); k == 0 {
		a, b = zz.Pick(0, 8, 42, 90, 200, 602, 1100, 2102, 5000), zz.Pick(0, 10, 40, 92, 200, 600, 1102, 2100, 5000)
	} else if a = 70000; k == 1 {
		a, b = 8, 70000
	}
	p, q := bigPdu(a), bigPdu(b)
	data, ok := enc(p)
	zz.Assert(ok, "the PDU is encoded")
	keep := append([]byte(nil), data...)
	r := header(8, data[2], len(data)-20)
	ok = dec(&r, data[20:])
	zz.Assert(ok, "the payload is decoded")
	snap := copyPdu(r)
	data2, _ := enc(q)
	r2 := header(8, data2[2], len(data2)-20)
	dec(&r2, data2[20:])
	flipBytes(data2)
	flipWords(&r2)
	zz.Assert(zz.EqBytes(data, keep), "later calls leave earlier bytes unchanged")
	zz.Assert(samePdu(r, snap), "later calls leave earlier PDUs unchanged")
}

// Every 20-byte header: decoding leaves the bytes unchanged and repeats, plain and debug.
func C08_Header() {
	zz.OpaqueFormatting(true)
	dec := agentx.DecodePduHeader
	if zz.Choice(2) == 1 {
		dec = func(b []byte) (agentx.Pdu, bool) { return agentx.DecodePduHeaderDbg(b, sink{}) }
	}
	data := roomyBytes(zz.Bytes(20))
	raw := append([]byte(nil), data[:cap(data)]...)
	p, ok := dec(data)
	zz.Assert(zz.EqBytes(data[:cap(data)], raw), "decoding leaves the input bytes unchanged")
	q, ok2 := dec(data)
	zz.Assert(ok == ok2, "same verdict again")
	if ok {
		zz.Assert(samePdu(p, q), "same header again")
	}
}

// ---- C20: validity and encodability

// Any tag byte with a value of any of 26 Go types, in each of the five PDU types with varbinds: valid exactly when encodable.
func C20_Encodable() {
	t := asn.Tag(zz.U8())
	v := oddValue()
	valid := false
	zz.Assert(!zz.Panics(func() { valid = t.IsValidValue(v) }), "IsValidValue does not panic")
	tag := byte(zz.Pick(8, 12, 14, 15, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.U8()) & fNet, Params: anyParams(tag, 0, 0)}
	p.Varbinds = []asn.Varbind{{Oid: zz.U32s(1), Tag: t, Value: v}}
	_, ok := encode(p)
	zz.Assert(ok == valid, "valid exactly when encodable")
	zz.Assert(valid == valueFits(t, v), "valid exactly when the Go type matches the syntax")
	zz.ObserveU("valid", b2u(valid))
}

// Values of the matching type of every syntax (strings, opaques and OIDs of 0..5): valid, encodable, and the value on the wire has the documented size.
func C20_Matching() {
	t := vbTags[zz.Choice(len(vbTags))]
	v := anyValue(t, zz.Range(0, 5))
	zz.Assert(t.IsValidValue(v), "a matching value is valid")
	p := agentx.Pdu{Tag: 8, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{7}, Tag: t, Value: v}}}
	data, ok := encode(p)
	zz.Assert(ok, "a matching value is encodable")
	zz.Observe("data", data)
}

// Syntaxes without data (Null, NoSuchObject, NoSuchInstance, EndOfMibView) with a value of any of 26 Go types: valid, and nothing of the value is encoded.
func C20_NoData() {
	t := asn.Tag(zz.Pick(5, 128, 129, 130))
	v := oddValue()
	zz.Assert(t.IsValidValue(v), "any value is valid")
	fl := agentx.Flags(zz.U8()) & fNet
	mk := func(v interface{}) []byte {
		data, ok := encode(agentx.Pdu{Tag: 15, Flags: fl, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 2}, Tag: t, Value: v}}})
		zz.Assert(ok, "any value is encodable")
		return data
	}
	zz.Assert(zz.EqBytes(mk(v), mk(nil)), "the value is not encoded")
}

func c20dec(i in) {
	p, ok := decodePayload(i)
	zz.Assume(ok && len(p.Varbinds) > 0)
	for _, vb := range p.Varbinds {
		zz.Assert(vb.Tag.IsValidValue(vb.Value), "a decoded varbind is valid")
	}
	zz.ObserveU("n", uint64(len(p.Varbinds)))
}

// {inVarbinds}
func C20_Decoded() { c20dec(inVarbinds(20)) }

// {inDamaged}
func C20_DecodedDamaged() { c20dec(inDamaged()) }

// Strings and opaques of 255, 256, 4097, 65535, 65536 or 70000 bytes, OIDs of 127 or 128 sub-identifiers: valid and encodable.
func C20_Large() {
	n := zz.Pick(255, 256, 4097, 65535, 65536, 70000)
	vb := asn.Varbind{Oid: []uint32{7}, Tag: asn.Tag(zz.Pick(4, 6, 68))}
	switch b := make([]byte, n); vb.Tag {
	case 4:
		b[n-1] = zz.U8()
		vb.Value = string(b)
	case 6:
		vb.Value = longOid(127+n%2, zz.Choice(2))
	default:
		b[n-1] = zz.U8()
		vb.Value = b
	}
	zz.Assert(vb.Tag.IsValidValue(vb.Value), "a matching value is valid")
	_, ok := encode(agentx.Pdu{Tag: 8, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb}})
	zz.Assert(ok, "a matching value is encodable")
}

// A value of any of 26 Go types before or after a matching one, for every syntax: each valid exactly when it matches, whatever was asked before.
func C20_Twice() {
	t := vbTags[zz.Choice(len(vbTags))]
	v, w := anyValue(t, 1), oddValue()
	if zz.Choice(2) == 1 {
		v, w = w, v
	}
	for i := 0; i < 2; i++ {
		zz.Assert(t.IsValidValue(v) == valueFits(t, v), "valid exactly when the Go type matches the syntax")
		_, ok := encode(agentx.Pdu{Tag: 8, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{7}, Tag: t, Value: v}}})
		zz.Assert(ok == valueFits(t, v), "valid exactly when encodable")
		v = w
	}
}

// {inHundreds}
func C20_DecodedHundreds() { c20dec(inHundreds()) }

// {inLong}
func C20_DecodedLong() { c20dec(inLong()) }

// {inSweep}
func C20_DecodedSweep() { c20dec(inSweep()) }

// ---- C23: independence

// call makes the k-th codec call with arbitrary contents; it returns a digest of the result.
func call(k int) func() []byte {
	digest := func(p agentx.Pdu, ok bool) []byte {
		if !ok {
			return []byte{0}
		}
		return refEncode(p)
	}
	var p agentx.Pdu
	if k < 8 {
		p = agentx.Pdu{Tag: 8, Flags: agentx.Flags(zz.U8()) & fNet, SessionId: zz.U32(), Params: agentx.NoParams{}}
		switch k % 4 {
		case 0:
			p.Varbinds = []asn.Varbind{{Oid: zz.U32s(5), Tag: 4, Value: zz.Str(3)}, {Oid: zz.U32s(1), Tag: 68, Value: zz.Bytes(2)}}
		case 1:
			p.Tag, p.Flags, p.Context = 6, p.Flags|fCtx, zz.Str(2)
			p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(2), EndOid: zz.U32s(2), StartIncluded: zz.U8()}}
		case 2:
			p.Tag, p.Params = 1, agentx.OpenParams{Timeout: zz.U8(), Oid: zz.U32s(2), Description: zz.Str(3)}
		default: // fails after some bytes were written
			p.Varbinds = []asn.Varbind{{Oid: zz.U32s(2), Tag: 65, Value: zz.U32()}, {Oid: zz.U32s(1), Tag: 65, Value: "no"}}
		}
		if k < 4 {
			return func() []byte { d, _ := agentx.EncodePdu(p); return d }
		}
		return func() []byte { d, _ := agentx.EncodePduDbg(p, sink{}); return d }
	}
	hdr := func() []byte {
		b := append([]byte{1, byte(zz.Pick(3, 18)), byte(zz.Pick(0, 17)), zz.U8() & 1}, zz.Bytes(16)...)
		b[19], b[16] = b[19]&0x87, b[16]&0x87
		return b
	}
	switch k {
	case 8:
		b := hdr()
		return func() []byte { p, ok := agentx.DecodePduHeader(b); return digest(p, ok) }
	case 9:
		b := hdr()
		return func() []byte { p, ok := agentx.DecodePduHeaderDbg(b, sink{}); return digest(p, ok) }
	}
	tag, fl, b := template(zz.Pick(0, 4, 6, 7), false)
	b[len(b)-1] ^= zz.U8() & 1
	b[len(b)/2] ^= zz.U8() & 1
	if k%2 == 0 {
		return func() []byte {
			p := header(tag, fl, len(b))
			ok := agentx.DecodePduPayload(&p, b)
			return digest(p, ok)
		}
	}
	return func() []byte {
		p := header(tag, fl, len(b))
		ok := agentx.DecodePduPayloadDbg(&p, b, sink{})
		return digest(p, ok)
	}
}

const nCalls = 12

// Two codec calls of every pair of twelve kinds (encode and decode, plain and debug, succeeding and failing) on arbitrary contents, run concurrently: no memory is written that both reach.
func C23_Concurrent() {
	zz.OpaqueFormatting(true)
	f, g := call(zz.Choice(nCalls)), call(zz.Choice(nCalls))
	zz.Parallel("two codec calls", func() { f() }, func() { g() })
}

// Two codec calls on PDUs of about 0..5000 bytes (five sizes; debug 8..200, two sizes), encode or decode, plain or debug, run concurrently; also two on the same arguments.
func C23_ConcurrentLarge() {
	zz.OpaqueFormatting(true)
	one := func() func() {
		k := zz.Choice(4)
		n := 0
		if k&1 == 1 {
			n = zz.Pick(8, 202)
		} else {
			n = zz.Pick(0, 40, 202, 1100, 5000)
		}
		p := bigPdu(n)
		b := refEncode(p)
		switch k {
		case 0:
			return func() { agentx.EncodePdu(p) }
		case 1:
			return func() { agentx.EncodePduDbg(p, sink{}) }
		case 2:
			return func() { q := header(8, b[2], len(b)-20); agentx.DecodePduPayload(&q, b[20:]) }
		}
		return func() { q := header(8, b[2], len(b)-20); agentx.DecodePduPayloadDbg(&q, b[20:], sink{}) }
	}
	f := one()
	g := f
	if zz.Choice(2) == 1 {
		g = one()
	}
	zz.Parallel("two codec calls", f, g)
}

// Two codec calls of every pair of twelve kinds on arbitrary contents, the first interrupted by the second wherever it holds no lock or performs an atomic operation: same results as alone.
func C23_Interleaved() {
	zz.OpaqueFormatting(true)
	f, g := call(zz.Choice(nCalls)), call(zz.Choice(nCalls))
	a, b := append([]byte(nil), f()...), append([]byte(nil), g()...)
	var a2, b2 []byte
	zz.Interleave(func() { a2 = f() }, func() { b2 = g() })
	zz.Assert(zz.And(zz.EqBytes(a, a2), zz.EqBytes(b, b2)), "the results are those of the calls alone")
	zz.Observe("a", a2)
	zz.Observe("b", b2)
}

// Two codec calls of the same of twelve kinds on the same arbitrary arguments, run concurrently.
func C23_ConcurrentSame() {
	zz.OpaqueFormatting(true)
	f := call(zz.Choice(nCalls))
	zz.Parallel("two codec calls", func() { f() }, func() { f() })
}

// A codec call repeated after any other one gives the same result.
func C23_Repeat() {
	zz.OpaqueFormatting(true)
	f, g := call(zz.Choice(nCalls)), call(zz.Choice(nCalls))
	a := append([]byte(nil), f()...)
	g()
	b := f()
	zz.Assert(zz.EqBytes(a, b), "the result depends on the arguments only")
	zz.Observe("a", a)
}

// Seventy (thorough 600) codec calls of all kinds in a row (fixed contents), then one of the twelve kinds with arbitrary contents before and after: same result.
func C23_Many() {
	zz.OpaqueFormatting(true)
	f := call(zz.Choice(nCalls))
	a := append([]byte(nil), f()...)
	for n, i := bound(70, 600), 0; i < n; i++ {
		busy(i)
	}
	b := f()
	zz.Assert(zz.EqBytes(a, b), "the result depends on the arguments only")
	zz.Observe("a", a)
}

// 60 (thorough 300) failing codec calls of one of eight kinds, then one of the twelve kinds with arbitrary contents before and after: same result. Then 36 fixed PDUs of all types, with and without contents, are encoded and decoded as ever.
func C23_Failing() {
	zz.OpaqueFormatting(true)
	f := call(zz.Choice(nCalls))
	a := append([]byte(nil), f()...)
	k := zz.Choice(8)
	for n, i := bound(60, 300), 0; i < n; i++ {
		p := mixedPdu(7)
		b := refEncode(p)
		h := header(byte(p.Tag), byte(p.Flags), len(b)-20)
		ok := false
		switch k {
		case 0:
			p.Tag = 19
			_, ok = agentx.EncodePdu(p)
		case 1:
			p.Params = nil
			_, ok = agentx.EncodePduDbg(p, sink{})
		case 2:
			b[0] = 2
			_, ok = agentx.DecodePduHeader(b[:20])
		case 3:
			_, ok = agentx.DecodePduHeaderDbg(b[:19], sink{})
		case 4:
			ok = agentx.DecodePduPayload(&h, b[20:len(b)-4])
		case 5:
			ok = agentx.DecodePduPayloadDbg(&h, b[20:len(b)-4], sink{})
		case 6:
			h.PayloadSize -= 4
			ok = agentx.DecodePduPayload(&h, b[20:len(b)-4])
		default:
			h.PayloadSize -= 4
			ok = agentx.DecodePduPayloadDbg(&h, b[20:len(b)-4], sink{})
		}
		zz.Assert(!ok, "the call fails")
	}
	b := f()
	zz.Assert(zz.EqBytes(a, b), "the result depends on the arguments only")
	for i := 0; i < 36; i++ {
		p := mixedPdu(i)
		want := refEncode(p)
		data, ok := encode(p)
		zz.Assert(ok && zz.EqBytes(data, want), "the PDU is encoded as ever")
		q, ok := decode(want)
		zz.Assert(ok && eqPdu(p, q), "the PDU is decoded as ever")
	}
	zz.Observe("a", a)
}

// mixedPdu is a fixed PDU of varying type and size.
func mixedPdu(i int) agentx.Pdu {
	p := agentx.Pdu{Tag: agentx.PduTag(1 + i%18), Flags: agentx.Flags(i % 2 * fNet), SessionId: uint32(i), Params: agentx.NoParams{}}
	switch kindOf(byte(p.Tag)) {
	case kOpen:
		p.Params = agentx.OpenParams{Oid: []uint32{1, 3, uint32(i)}, Description: "abcdefghijk"[:i%11]}
	case kClose:
		p.Params = agentx.CloseParams{Reason: 2}
	case kRegister:
		p.Params = agentx.RegisterParams{Subtree: []uint32{1, 3, 6, 1, 4, 1}, RangeSubid: byte(i % 3)}
	case kUnregister:
		p.Params = agentx.UnregisterParams{Subtree: []uint32{1, 3, 6, 1, 4, 1}}
	case kGetBulk:
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(i), MaxRepeatitions: 10}
	case kAddCaps:
		p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3}, Description: "caps"}
	case kRemoveCaps:
		p.Params = agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3}}
	case kResponse:
		p.Params = agentx.ResponseParams{SysUpTime: uint32(i)}
	}
	for j := 0; j < i%6; j++ {
		p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, uint32(j)}, StartIncluded: 1})
		p.Varbinds = append(p.Varbinds, mixed(i+j))
	}
	return p
}

// A decoded and an encoded PDU stay what they were through 400 further calls of all kinds on PDUs of varying size (fixed contents), among them 60 with OIDs of 128 sub-identifiers and ten of 9000 bytes.
func C08_LaterMany() {
	zz.OpaqueFormatting(true)
	p := bigPdu(zz.Pick(8, 90, 602))
	data, ok := agentx.EncodePdu(p)
	zz.Assert(ok, "the PDU is encoded")
	keep := append([]byte(nil), data...)
	r := header(8, data[2], len(data)-20)
	ok = agentx.DecodePduPayload(&r, data[20:])
	zz.Assert(ok, "the payload is decoded")
	snap := copyPdu(r)
	for i := 0; i < 400; i++ {
		busy(i)
	}
	id := make([]uint32, 128)
	for i := 0; i < 60; i++ {
		id[0] = uint32(i)
		q := agentx.Pdu{Tag: 14, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: id, Tag: 6, Value: id}}}
		b, _ := agentx.EncodePdu(q)
		h := header(14, 0, len(b)-20)
		agentx.DecodePduPayload(&h, b[20:])
	}
	for i := 0; i < 10; i++ {
		q := agentx.Pdu{Tag: 14, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: 4, Value: string(make([]byte, 4500))}, {Tag: 68, Value: make([]byte, 4500)}}}
		b, _ := agentx.EncodePdu(q)
		h := header(14, 0, len(b)-20)
		agentx.DecodePduPayload(&h, b[20:])
	}
	zz.Assert(zz.EqBytes(data, keep), "later calls leave earlier bytes unchanged")
	zz.Assert(samePdu(r, snap), "later calls leave earlier PDUs unchanged")
}

// The bytes of an encoding, and the PDU of a decoding, of a string, an opaque, a context or a description of 1025, 5000, 9000 or 70000 bytes stay what they were when another of the same size and kind, with other contents, is encoded and decoded (plain and, up to 9000, debug).
func C08_LaterLarge() {
	zz.OpaqueFormatting(true)
	n := zz.Pick(1025, 5000, 9000, 70000)
	p := huge(n)
	dbg := n < 10000 && zz.Choice(2) == 1
	q := copyPdu(p)
	q.SessionId = 77
	q.Context = strings.Repeat("x", len(p.Context))
	if o, ok := q.Params.(agentx.OpenParams); ok {
		o.Description = strings.Repeat("z", len(o.Description))
		q.Params = o
	}
	for i, vb := range q.Varbinds {
		switch vb.Tag {
		case 4:
			q.Varbinds[i].Value = strings.Repeat("y", n)
		case 68:
			q.Varbinds[i].Value = make([]byte, n)
		}
	}
	run := func(p agentx.Pdu) (b []byte, r agentx.Pdu) {
		var ok, ok2 bool
		if dbg {
			b, ok = agentx.EncodePduDbg(p, sink{})
		} else {
			b, ok = agentx.EncodePdu(p)
		}
		r = header(byte(p.Tag), byte(p.Flags), len(b)-20)
		if dbg {
			ok2 = agentx.DecodePduPayloadDbg(&r, b[20:], sink{})
		} else {
			ok2 = agentx.DecodePduPayload(&r, b[20:])
		}
		zz.Assert(ok && ok2, "encoded and decoded")
		return
	}
	data, r := run(p)
	keep, snap := append([]byte(nil), data...), copyPdu(r)
	run(q)
	run(q)
	zz.Assert(zz.EqBytes(data, keep), "later calls leave earlier bytes unchanged")
	zz.Assert(samePdu(r, snap), "later calls leave earlier PDUs unchanged")
}

// busy makes a call of a kind, and on fixed contents, that depend on i.
func busy(i int) {
	q := mixedPdu(i)
	switch i % 5 {
	case 0, 1:
		agentx.EncodePdu(q)
	case 2:
		agentx.EncodePduDbg(q, sink{})
	default:
		b := refEncode(q)
		if i%7 == 0 {
			b[len(b)-1]++
		}
		r, ok := agentx.DecodePduHeader(b[:20])
		if ok && i%5 == 3 {
			agentx.DecodePduPayload(&r, b[20:])
		} else if ok {
			agentx.DecodePduPayloadDbg(&r, b[20:], sink{})
		}
	}
}
