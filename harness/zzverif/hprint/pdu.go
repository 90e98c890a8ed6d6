package hprint

import (
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/pduerror"
)

func indent(d int) string {
	if d < 0 {
		d = 0
	}
	if d > 8 {
		d = 8
	}
	return strings.Repeat("    ", d)
}

func oidText(id []uint32) string {
	if len(id) == 0 {
		return "<empty>"
	}
	return dotted(id)
}

type field struct{ name, val string }

func paramFields(p agentx.PayloadParams) []field {
	switch p := p.(type) {
	case *agentx.OpenParams:
		return paramFields(*p)
	case agentx.OpenParams:
		return []field{{"Timeout", zz.Dec(uint64(p.Timeout))}, {"Oid", oidText(p.Oid)}, {"Description", p.Description}}
	case agentx.CloseParams:
		n, ok := reasonName(byte(p.Reason))
		if !ok {
			n = "?" + zz.Dec(uint64(p.Reason))
		}
		return []field{{"Reason", n}}
	case agentx.RegisterParams:
		return []field{{"Timeout", zz.Dec(uint64(p.Timeout))}, {"Priority", zz.Dec(uint64(p.Priority))}, {"RangeSubid", zz.Dec(uint64(p.RangeSubid))},
			{"Subtree", oidText(p.Subtree)}, {"UpperBound", zz.Dec(uint64(p.UpperBound))}}
	case agentx.UnregisterParams:
		return []field{{"Priority", zz.Dec(uint64(p.Priority))}, {"RangeSubid", zz.Dec(uint64(p.RangeSubid))},
			{"Subtree", oidText(p.Subtree)}, {"UpperBound", zz.Dec(uint64(p.UpperBound))}}
	case agentx.GetBulkParams:
		return []field{{"NonRepeaters", signed(int64(p.NonRepeaters))}, {"MaxRepeatitions", signed(int64(p.MaxRepeatitions))}}
	case agentx.AddAgentCapsParams:
		return []field{{"Oid", oidText(p.Oid)}, {"Description", p.Description}}
	case agentx.RemoveAgentCapsParams:
		return []field{{"Oid", oidText(p.Oid)}}
	case agentx.ResponseParams:
		n, ok := errName(uint16(p.Error))
		if !ok {
			n = "Error(" + zz.Dec(uint64(p.Error)) + ")"
		}
		return []field{{"SysUpTime", zz.Dec(uint64(p.SysUpTime))}, {"Error", n}, {"Index", signed(int64(p.Index))}}
	}
	return nil
}

func pduText(p agentx.Pdu, d int) string {
	in, in1 := indent(d), indent(d+1)
	tag, ok := pduName(byte(p.Tag))
	if !ok {
		tag = "?" + zz.Dec(uint64(p.Tag))
	}
	s := in + "Tag: " + tag + "\n" + in + "Flags: " + flagText(byte(p.Flags)) +
		"\n" + in + "SessionId: " + zz.Dec(uint64(p.SessionId)) + "\n" + in + "TransactionId: " + zz.Dec(uint64(p.TransactionId)) +
		"\n" + in + "PacketId: " + zz.Dec(uint64(p.PacketId)) + "\n" + in + "PayloadSize: " + signed(int64(p.PayloadSize)) +
		"\n" + in + "Context: " + p.Context + "\n" + in + "Params: "
	if q, ok := p.Params.(*agentx.OpenParams); p.Params == nil || ok && q == nil {
		s += "<nil>"
	} else {
		for _, f := range paramFields(p.Params) {
			s += "\n" + in1 + f.name + ": " + f.val
		}
	}
	s += "\n" + in + "Ranges: "
	if len(p.Ranges) == 0 {
		s += "<empty>"
	}
	var t []byte
	for _, r := range p.Ranges {
		t = append(t, "\n"+in1+"{StartOid: "+dotted(r.StartOid)+" EndOid: "+dotted(r.EndOid)+" StartIncluded: "+zz.Dec(uint64(r.StartIncluded))+"}"...)
	}
	s += string(t)
	s += "\n" + in + "Varbinds: "
	if len(p.Varbinds) == 0 {
		s += "<empty>"
	}
	t = nil
	for _, v := range p.Varbinds {
		t = append(t, "\n"+in1+varbindText(v)...)
	}
	return s + string(t)
}

func checkPdu(p agentx.Pdu, depth int) {
	want := pduText(p, depth)
	s := text(func() string { return p.String(depth) })
	zz.Assert(zz.EqStr(s, want), "every field is listed with its value at its indentation")
	zz.Assert(zz.EqStr(pduText(p, depth), want), "printing leaves the PDU unchanged")
	zz.Observe("text", []byte(s))
}

// sample is a PDU with every field set.
func sample() agentx.Pdu {
	return agentx.Pdu{Tag: agentx.TagResponse, Flags: 0x18, SessionId: 1, TransactionId: 20, PacketId: 300, PayloadSize: 44, Context: "ctx",
		Params:   agentx.ResponseParams{SysUpTime: 5, Error: pduerror.GenError, Index: -1},
		Ranges:   []agentx.SearchRange{{StartOid: []uint32{1, 3}, EndOid: []uint32{1, 4}, StartIncluded: 1}, {}},
		Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: 4, Value: "text"}, {Tag: 5}}}
}

// Two PDUs with one header printed in a row; the context, a parameter, a range or a varbind of the second arbitrary.
func C24_Twice() {
	d := zz.Choice(2)
	checkPdu(sample(), d)
	p := sample()
	switch zz.Choice(5) {
	case 0:
		p.Context = zz.Str(3)
	case 1:
		p.Params = agentx.ResponseParams{SysUpTime: uint32(zz.U8()), Error: pduerror.GenError, Index: int16(zz.U8())}
	case 2:
		p.Ranges[0].EndOid = []uint32{uint32(zz.U8()), uint32(zz.U8())}
	case 3:
		p.Varbinds[0].Value = zz.Str(4)
	default:
		p.Varbinds[1] = asn.Varbind{Oid: []uint32{uint32(zz.U8())}, Tag: 65, Value: uint32(zz.U8())}
	}
	checkPdu(p, d)
}

// Any 64-bit depth (the last few below 2^63 aside, where only the absence of panics is checked).
func C24_Depth() {
	d := int64(zz.U64())
	p := sample()
	if d > 1<<63-8 {
		text(func() string { return p.String(int(d)) })
		return
	}
	e := d
	if d < -2 {
		e = -2
	} else if d > 10 {
		e = 10
	} else {
		e = int64(zz.Concrete(uint64(d)))
	}
	s := text(func() string { return p.String(int(d)) })
	zz.Assert(zz.EqStr(s, pduText(p, int(e))), "every field is listed with its value at its indentation")
}

// One header field arbitrary at a time (type 8 bits, flags 8 bits, 32-bit ids, 32-bit signed payload size, context of 0..4 bytes), depths 0, 1 and 9.
func C24_Header() {
	p := sample()
	switch zz.Choice(7) {
	case 0:
		p.Tag = agentx.PduTag(zz.U8())
	case 1:
		p.Flags = agentx.Flags(zz.U8())
	case 2:
		p.SessionId = zz.U32()
	case 3:
		p.TransactionId = zz.U32()
	case 4:
		p.PacketId = zz.U32()
	case 5:
		p.PayloadSize = int32(zz.U32())
	default:
		p.Context = zz.Str(zz.Range(0, 4))
	}
	checkPdu(p, zz.Pick(0, 1, 9))
}

// Every kind of parameters, one or two of their fields arbitrary; nil, a pointer and a nil pointer as well; depths 0 and 3.
func C24_Params() {
	p := agentx.Pdu{Tag: agentx.TagOpen}
	switch zz.Choice(18) {
	case 0:
		p.Params = agentx.OpenParams{Timeout: zz.U8(), Oid: []uint32{1}, Description: zz.Str(2)}
	case 1:
		p.Params = agentx.OpenParams{Oid: zz.U32s(zz.Choice(2))}
	case 2:
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(zz.U8())}
	case 3:
		p.Params = agentx.RegisterParams{Timeout: zz.U8(), Priority: zz.U8(), RangeSubid: zz.U8(), Subtree: []uint32{1}}
	case 4:
		p.Params = agentx.RegisterParams{Subtree: zz.U32s(zz.Choice(2)), UpperBound: zz.U32()}
	case 5:
		p.Params = agentx.UnregisterParams{Priority: zz.U8(), RangeSubid: zz.U8(), Subtree: []uint32{1}}
	case 6:
		p.Params = agentx.UnregisterParams{Subtree: zz.U32s(zz.Choice(2)), UpperBound: zz.U32()}
	case 7:
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(zz.U16()), MaxRepeatitions: int16(zz.U16())}
	case 8:
		p.Params = agentx.AddAgentCapsParams{Oid: zz.U32s(1), Description: zz.Str(2)}
	case 9:
		p.Params = agentx.AddAgentCapsParams{}
	case 10:
		p.Params = agentx.RemoveAgentCapsParams{Oid: zz.U32s(zz.Choice(3))}
	case 11:
		p.Params = agentx.ResponseParams{SysUpTime: zz.U32()}
	case 12:
		p.Params = agentx.ResponseParams{Error: pduerror.Error(zz.U16())}
	case 13:
		p.Params = agentx.ResponseParams{Index: int16(zz.U16())}
	case 14:
		p.Params = agentx.NoParams{}
	case 15:
		p.Params = nil
	case 16:
		p.Params = &agentx.OpenParams{Timeout: 3, Oid: []uint32{1, 2}, Description: zz.Str(2)}
	default:
		p.Params = (*agentx.OpenParams)(nil)
	}
	checkPdu(p, zz.Pick(0, 3))
}

// 0..2 ranges and 0..2 varbinds, one arbitrary element of each kind in turn; nil and empty slices.
func C24_Lists() {
	p := sample()
	switch zz.Choice(3) {
	case 0:
		p.Ranges = nil
	case 1:
		p.Ranges = []agentx.SearchRange{}
	default:
		p.Ranges = []agentx.SearchRange{{StartOid: zz.U32s(zz.Choice(2)), StartIncluded: zz.U8()}}
	}
	switch zz.Choice(4) {
	case 0:
		p.Varbinds = nil
	case 1:
		p.Varbinds = []asn.Varbind{}
	case 2:
		p.Varbinds = []asn.Varbind{{Oid: []uint32{7}, Tag: 68, Value: zz.Bytes(2)}, {Tag: 2, Value: int32(-5)}}
	default:
		p.Varbinds = []asn.Varbind{{}, {Oid: zz.U32s(1), Tag: asn.Tag(zz.Pick(0, 2, 66, 128)), Value: "s"}}
	}
	checkPdu(p, 1)
}

// 3..20, 40 or 70 ranges and as many varbinds of mixed syntaxes, one arbitrary value among them; a context or description of 0..40 or 300 bytes.
func C24_Many() {
	p := sample()
	n := zz.Range(3, 22)
	switch n {
	case 21:
		n = 40
	case 22:
		n = 70
	}
	if zz.Choice(2) == 0 {
		k := zz.Pick(0, n/2, n-1)
		p.Ranges, p.Varbinds = nil, nil
		for i := 0; i < n; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3, uint32(i)}, EndOid: []uint32{2}, StartIncluded: byte(i & 1)})
			vb := asn.Varbind{Oid: []uint32{1, 3, 6, 1, uint32(i)}, Tag: 65, Value: uint32(i)}
			switch i % 4 {
			case 1:
				vb.Tag, vb.Value = 4, "octets"
			case 2:
				vb.Tag, vb.Value = 68, []byte{1, 2}
			case 3:
				vb.Tag, vb.Value = 6, []uint32{1, 3, 6}
			}
			if i == k {
				vb.Tag, vb.Value = 67, zz.U32()
			}
			p.Varbinds = append(p.Varbinds, vb)
		}
	} else {
		s := make([]byte, n*n%41)
		if n == 70 {
			s = make([]byte, 300)
		}
		for i := range s {
			s[i] = byte('a' + i%26)
		}
		p.Context = string(s) + zz.Str(1)
		p.Params = agentx.OpenParams{Oid: make([]uint32, n), Description: p.Context}
	}
	checkPdu(p, zz.Choice(2))
}

// A context, a description, a string, an opaque or an OID of 1000, 1023..1025, 1500, 4097 or 5000 elements, the last one arbitrary; or 100 or 1100 ranges and varbinds, one varbind arbitrary.
func C24_Large() {
	p := sample()
	k := zz.Choice(7)
	n := zz.Pick(1000, 1023, 1024, 1025, 1500, 4097, 5000)
	s := make([]byte, n)
	for i := range s {
		s[i] = byte('a' + i%26)
	}
	if k < 4 {
		s[n-1] = zz.U8()
	}
	switch k {
	case 0:
		p.Context = string(s)
	case 1:
		p.Params = agentx.AddAgentCapsParams{Description: string(s)}
	case 2:
		p.Varbinds[0].Value = string(s)
	case 3:
		p.Varbinds[0].Tag, p.Varbinds[0].Value = 68, s
	case 4, 5:
		id := make([]uint32, n)
		id[n-1] = zz.U32()
		if k == 4 {
			p.Params = agentx.RemoveAgentCapsParams{Oid: id}
		} else {
			p.Ranges[0].EndOid = id
		}
	default:
		zz.Assume(n == 1000 || n == 1500)
		p.Ranges, p.Varbinds = nil, nil
		for i := 0; i < n-900+n/1500*500; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, uint32(i)}})
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1, uint32(i)}, Tag: 65, Value: uint32(i)})
		}
		p.Varbinds[99].Value = zz.U32()
	}
	checkPdu(p, 1)
}

// The first varbind with every tag (8 bits) and a value of each of 24 Go types.
func C24_Mismatch() {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}}
	p.Varbinds = []asn.Varbind{{Oid: []uint32{1}, Tag: asn.Tag(zz.U8()), Value: odd()}}
	checkPdu(p, 0)
}
