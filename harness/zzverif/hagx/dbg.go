package hagx

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/logger"
)

// ---- C09: debug encoding

func c09(p agentx.Pdu) { c09log(p, sink{}) }

func c09log(p agentx.Pdu, log logger.Log) {
	zz.OpaqueFormatting(true)
	p = copyPdu(p)
	q := copyPdu(p)
	u, b := full(&p)
	data, ok := encode(p)
	var data2 []byte
	var ok2 bool
	zz.Assert(!zz.Panics(func() { data2, ok2 = agentx.EncodePduDbg(p, log) }), "EncodePduDbg does not panic")
	zz.Assert(ok == ok2, "debug encoder accepts the same")
	if ok && ok2 {
		zz.Cover("encoded")
		zz.Assert(zz.EqBytes(data, data2), "debug encoder gives the same bytes")
	}
	zz.Assert(unchanged(p, q, u, b), "debug encoding leaves the PDU unchanged")
	zz.ObserveU("ok", b2u(ok))
}

// someFlags are no flags, each single flag bit, context with network order, all allowed and all bits.
func someFlags() byte { return byte(zz.Pick(0, 1, 2, 4, 8, 16, 32, 64, 128, 24, 31, 255)) }

// Flags none, each single bit, 24, 31 or 255; otherwise: {genTypes}
func C09_Types() { c09(typesWith(someFlags())) }

// {genParams}
func C09_Params() { c09(genParams()) }

// {genRanges}
func C09_Ranges() { c09(genRanges()) }

// {genVarbind}
func C09_Varbind() { c09(genVarbind()) }

// {genVarbinds}
func C09_Varbinds() { c09(genVarbinds()) }

// With strings of up to 1025 bytes only, and no long varbinds: {genLong}
func C09_Long() { c09(longWith(1023, 1024, 1025)) }

// {genSteps}
func C09_Sweep() { c09(genSteps()) }

// Only 256 or 301 of them. {genHundreds}
func C09_Hundreds() { c09(hundreds(zz.Pick(256, 301))) }

// {genTwice}
func C09_Twice() {
	p, q := genTwice()
	c09(p)
	c09(q)
}

// {genTriple}
func C09_Triple() { c09(genTriple()) }

// Flags none, each single bit, 24, 31 or 255; otherwise: {genKinds}
func C09_Kinds() { c09(kindsWith(someFlags())) }

// {genMismatch}
func C09_Mismatch() { c09(genMismatch()) }

// A log that formats every message (numbers of symbolic value as opaque text): a PDU of each of the 18 types with one range and two varbinds, fixed flags, arbitrary contents.
func C09_Formatting() {
	tag := byte(zz.Range(1, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.Pick(0, fNet)), SessionId: zz.U32(), Params: anyParams(tag, 2, 1)}
	p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(2), EndOid: zz.U32s(1), StartIncluded: zz.U8()}}
	p.Varbinds = []asn.Varbind{{Oid: zz.U32s(2), Tag: 2, Value: int32(zz.U32())}, {Oid: zz.U32s(1), Tag: 68, Value: zz.Bytes(1)}}
	c09log(p, &printer{})
}

// {genCarried}
func C09_Carried() { c09(genCarried()) }

// A string, an opaque, a context or a description of 4095 or 9000 (thorough 20000) bytes, three of them arbitrary; both byte orders.
func C09_Huge() { c09(huge(zz.Pick(4095, bound(9000, 20000)))) }

func huge(n int) agentx.Pdu {
	return place(zz.Pick(9, 11, 12, 13), n, nil, longBytes(n))
}

// reentrant is a log that makes codec calls of its own, debug ones among them, with every message.
type reentrant struct {
	n, most int
	bad     bool
	in      bool
}

func (l *reentrant) Write(string) {
	if l.in || l.n == l.most {
		return
	}
	l.in = true
	l.n++
	p := mixedPdu(l.n + 4)
	want := refEncode(p)
	a, ok := agentx.EncodePdu(p)
	b, ok2 := agentx.EncodePduDbg(p, l)
	l.bad = l.bad || !ok || !ok2 || string(a) != string(want) || string(b) != string(want)
	h, ok := agentx.DecodePduHeader(want[:20])
	h2, ok2 := agentx.DecodePduHeaderDbg(want[:20], l)
	l.bad = l.bad || !ok || !ok2
	if l.bad {
		return
	}
	ok = agentx.DecodePduPayload(&h, want[20:])
	ok2 = agentx.DecodePduPayloadDbg(&h2, want[20:], l)
	l.bad = l.bad || !ok || !ok2 || !eqPdu(h, p) || !eqPdu(h2, p)
	l.in = false
}

func (l *reentrant) Writef(string, ...interface{}) { l.Write("") }

// A log that, with each of its first eight (thorough 40) messages, makes every codec call itself on a PDU of fixed contents: encoding {genTypes}, flags none or network order
func C09C23_Reentrant() {
	l := &reentrant{most: bound(8, 40)}
	c09log(typesWith(byte(zz.Pick(0, fNet))), l)
	zz.Assert(!l.bad, "calls made by the log give their own results")
}

// A log that, with each of its first eight (thorough 40) messages, makes every codec call itself on a PDU of fixed contents: decoding templates of four types with the last and the middle byte damaged in one bit; both byte orders.
func C10C23_Reentrant() {
	zz.OpaqueFormatting(true)
	l := &reentrant{most: bound(8, 40)}
	tag, fl, b := template(zz.Pick(0, 4, 6, 7), false)
	b[len(b)-1] ^= zz.U8() & 1
	b[len(b)/2] ^= zz.U8() & 1
	p, q := header(tag, fl, len(b)), header(tag, fl, len(b))
	ok := agentx.DecodePduPayload(&p, b)
	ok2 := agentx.DecodePduPayloadDbg(&q, b, l)
	zz.Assert(ok == ok2, "debug decoder accepts the same")
	if ok && ok2 {
		zz.Assert(samePdu(p, q), "debug decoder gives the same PDU")
	}
	zz.Assert(!l.bad, "calls made by the log give their own results")
}
