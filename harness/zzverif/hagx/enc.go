package hagx

import (
	"github.com/alexispb/mygosnmp/agentx"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
)

func encode(p agentx.Pdu) (data []byte, ok bool) {
	zz.Assert(!zz.Panics(func() { data, ok = agentx.EncodePdu(p) }), "EncodePdu does not panic")
	return
}

// decode reads header and payload the way a receiver does.
func decode(data []byte) (q agentx.Pdu, ok bool) {
	if len(data) < 20 {
		return q, false
	}
	q, ok = agentx.DecodePduHeader(data[:20])
	if !ok {
		return
	}
	ok = agentx.DecodePduPayload(&q, data[20:])
	return
}

// ---- C01

func c01(p agentx.Pdu) {
	data, ok := encode(p)
	if !ok {
		return
	}
	zz.Cover("encoded")
	zz.Observe("data", data)
	q, ok := decode(data)
	zz.Assert(ok, "the encoded PDU decodes")
	if ok {
		zz.Assert(eqPdu(p, q), "the decoded PDU equals the original")
		zz.Assert(int(q.PayloadSize) == len(data)-20, "decoded payload size")
	}
}

// {genTypes}
func C01_Types() { c01(genTypes()) }

// {genParams}
func C01_Params() { c01(genParams()) }

// {genRanges}
func C01_Ranges() { c01(genRanges()) }

// {genVarbind}
func C01_Varbind() { c01(genVarbind()) }

// {genVarbinds}
func C01_Varbinds() { c01(genVarbinds()) }

// {genLong}
func C01_Long() { c01(genLong()) }

// {genSweep}
func C01_Sweep() { c01(genSweep()) }

// {genHundreds}
func C01_Hundreds() { c01(genHundreds()) }

// {genTwice}
func C01_Twice() {
	p, q := genTwice()
	c01(p)
	c01(q)
}

// {genTriple}
func C01_Triple() { c01(genTriple()) }

// {genKinds}
func C01_Kinds() { c01(genKinds()) }

// {genMismatch}
func C01_Mismatch() { c01(genMismatch()) }

// ---- C02

func c02(p agentx.Pdu) {
	data, ok := encode(p)
	if !ok {
		return
	}
	zz.Cover("encoded")
	zz.Observe("data", data)
	zz.Assert(zz.EqBytes(data, refEncode(p)), "bytes are the RFC 2741 encoding")
}

// {genTypes}
func C02_Types() { c02(genTypes()) }

// {genParams}
func C02_Params() { c02(genParams()) }

// {genRanges}
func C02_Ranges() { c02(genRanges()) }

// {genVarbind}
func C02_Varbind() { c02(genVarbind()) }

// {genVarbinds}
func C02_Varbinds() { c02(genVarbinds()) }

// {genLong}
func C02_Long() { c02(genLong()) }

// {genSweep}
func C02_Sweep() { c02(genSweep()) }

// {genHundreds}
func C02_Hundreds() { c02(genHundreds()) }

// {genTwice}
func C02_Twice() {
	p, q := genTwice()
	c02(p)
	c02(q)
}

// {genTriple}
func C02_Triple() { c02(genTriple()) }

// ---- C03

func announced(data []byte) int {
	return int(int32(get32(data[16:20], data[2]&fNet != 0)))
}

func c03(p agentx.Pdu) []byte {
	data, ok := encode(p)
	if !ok {
		return nil
	}
	zz.Cover("encoded")
	zz.Assert(len(data) >= 20, "at least a header")
	if len(data) < 20 {
		return nil
	}
	n := announced(data)
	zz.ObserveU("n", uint64(n))
	zz.Assert(n == len(data)-20, "announced payload length")
	zz.Assert(n&3 == 0, "payload length is a multiple of four")
	return data
}

// {genTypes}
func C03_Types() { c03(genTypes()) }

// {genParams}
func C03_Params() { c03(genParams()) }

// {genRanges}
func C03_Ranges() { c03(genRanges()) }

// {genVarbind}
func C03_Varbind() { c03(genVarbind()) }

// {genVarbinds}
func C03_Varbinds() { c03(genVarbinds()) }

// {genLong}
func C03_Long() { c03(genLong()) }

// {genSweep}
func C03_Sweep() { c03(genSweep()) }

// {genHundreds}
func C03_Hundreds() { c03(genHundreds()) }

// {genTwice}
func C03_Twice() {
	p, q := genTwice()
	c03(p)
	c03(q)
}

// {genTriple}
func C03_Triple() { c03(genTriple()) }

// {genMismatch}
func C03_Mismatch() { c03(genMismatch()) }

// A stream of three PDUs (one of all types with arbitrary flags and context 0..5; a ranges PDU of 0..1 ranges; a varbind PDU) is split by the announced lengths into the same three PDUs.
func C03_Stream() {
	p := genTypes()
	p2 := agentx.Pdu{Tag: 5, Flags: agentx.Flags(zz.U8()) & fNet, Params: agentx.NoParams{}, PacketId: zz.U32()}
	if zz.Choice(2) == 1 {
		p2.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(2)}}
	}
	a, ok := encode(p)
	zz.Assume(ok)
	b, ok := encode(p2)
	zz.Assume(ok)
	s := append(append(append([]byte(nil), b...), a...), b...)
	for i, want := range []agentx.Pdu{p2, p, p2} {
		zz.Assert(len(s) >= 20, "stream is not exhausted")
		if len(s) < 20 {
			return
		}
		q, ok := agentx.DecodePduHeader(s[:20])
		zz.Assert(ok, "header of the stream decodes")
		if !ok || int(q.PayloadSize) > len(s)-20 {
			zz.Assert(false, "announced length within the stream")
			return
		}
		k := 20 + int(zz.Concrete(uint64(q.PayloadSize)))
		ok = agentx.DecodePduPayload(&q, s[20:k])
		zz.Assert(ok && eqPdu(want, q), "PDU of the stream")
		zz.ObserveU("pdu", uint64(i)<<32|uint64(k))
		s = s[k:]
	}
	zz.Assert(len(s) == 0, "stream is consumed")
}

// ---- C04

func c04(p agentx.Pdu) {
	_, ok := encode(p)
	want := representable(p)
	zz.Assert(ok == want, "encoded exactly when representable")
	if want {
		zz.Cover("representable")
	} else {
		zz.Cover("not representable")
	}
	zz.ObserveU("ok", b2u(ok))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// {genTypes}
func C04_Types() { c04(genTypes()) }

// {genParams}
func C04_Params() { c04(genParams()) }

// {genRanges}
func C04_Ranges() { c04(genRanges()) }

// {genVarbind}
func C04_Varbind() { c04(genVarbind()) }

// {genVarbinds}
func C04_Varbinds() { c04(genVarbinds()) }

// {genLong}
func C04_Long() { c04(genLong()) }

// {genSweep}
func C04_Sweep() { c04(genSweep()) }

// {genHundreds}
func C04_Hundreds() { c04(genHundreds()) }

// {genTwice}
func C04_Twice() {
	p, q := genTwice()
	c04(p)
	c04(q)
}

// {genTriple}
func C04_Triple() { c04(genTriple()) }

// {genKinds}
func C04_Kinds() { c04(genKinds()) }

// {genMismatch}
func C04_Mismatch() { c04(genMismatch()) }

// {genCarried}
func C01_Carried() { c01(genCarried()) }

// {genCarried}
func C02_Carried() { c02(genCarried()) }

// {genCarried}
func C03_Carried() { c03(genCarried()) }

// {genCarried}
func C04_Carried() { c04(genCarried()) }
