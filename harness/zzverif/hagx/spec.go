// Package hagx holds the harnesses about package agentx. This file is the reference: the
// wire format of RFC 2741 and the rules of which PDUs and payloads are well formed, written
// independently of the implementation (no tables or helpers of it are used).
package hagx

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/pduerror"
)

type kind int

const (
	kNone kind = iota
	kOpen
	kClose
	kRegister
	kUnregister
	kGetBulk
	kAddCaps
	kRemoveCaps
	kResponse
)

// PDU types by number (RFC 2741 6.1).
func kindOf(tag byte) kind {
	switch tag {
	case 1:
		return kOpen
	case 2:
		return kClose
	case 3:
		return kRegister
	case 4:
		return kUnregister
	case 7:
		return kGetBulk
	case 16:
		return kAddCaps
	case 17:
		return kRemoveCaps
	case 18:
		return kResponse
	}
	return kNone
}

func hasRanges(tag byte) bool   { return tag >= 5 && tag <= 7 }
func hasVarbinds(tag byte) bool { return tag == 8 || tag == 12 || tag == 14 || tag == 15 || tag == 18 }

const (
	fInst = 1
	fNew  = 2
	fAny  = 4
	fCtx  = 8
	fNet  = 16
)

// allowed flags per PDU type.
func allowed(tag byte) byte {
	switch tag {
	case 1, 2, 9, 10, 11:
		return fNet
	case 3, 4:
		return fInst | fCtx | fNet
	case 5, 6, 7, 8, 12, 13, 16, 17:
		return fCtx | fNet
	case 14, 15:
		return fNew | fAny | fCtx | fNet
	case 18:
		return fInst | fNew | fAny | fCtx | fNet
	}
	return 0
}

func knownVb(t uint16) bool {
	switch t {
	case 2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130:
		return true
	}
	return false
}

// compressed tells whether the OID takes the one-byte prefix form.
func compressed(id []uint32) bool {
	return len(id) >= 5 && zz.And(id[0] == 1, id[1] == 3, id[2] == 6, id[3] == 1, id[4]-1 < 255)
}

// ---- writing

type w struct {
	b  []byte
	be bool
}

func (x *w) u16(v uint16) {
	if x.be {
		x.b = append(x.b, byte(v>>8), byte(v))
	} else {
		x.b = append(x.b, byte(v), byte(v>>8))
	}
}

func (x *w) u32(v uint32) {
	if x.be {
		x.b = append(x.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	} else {
		x.b = append(x.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
}

func (x *w) u64(v uint64) {
	if x.be {
		x.u32(uint32(v >> 32))
		x.u32(uint32(v))
	} else {
		x.u32(uint32(v))
		x.u32(uint32(v >> 32))
	}
}

func (x *w) str(s string) {
	x.u32(uint32(len(s)))
	x.b = append(x.b, s...)
	for i := len(s); i%4 != 0; i++ {
		x.b = append(x.b, 0)
	}
}

func (x *w) oid(id []uint32, incl byte) {
	if len(id) == 0 {
		x.b = append(x.b, 0, 0, 0, 0)
		return
	}
	var prefix byte
	if compressed(id) {
		prefix = byte(id[4])
		id = id[5:]
	}
	x.b = append(x.b, byte(len(id)), prefix, incl, 0)
	for _, s := range id {
		x.u32(s)
	}
}

func (x *w) varbind(vb asn.Varbind) {
	x.u16(uint16(vb.Tag))
	x.b = append(x.b, 0, 0)
	x.oid(vb.Oid, 0)
	switch v := vb.Value.(type) {
	case int32:
		if vb.Tag == 2 {
			x.u32(uint32(v))
		}
	case uint32:
		if vb.Tag >= 65 && vb.Tag <= 67 {
			x.u32(v)
		}
	case uint64:
		if vb.Tag == 70 {
			x.u64(v)
		}
	case string:
		if vb.Tag == 4 {
			x.str(v)
		}
	case []byte:
		if vb.Tag == 68 {
			x.str(string(v))
		}
	case []uint32:
		if vb.Tag == 6 {
			x.oid(v, 0)
		}
	case [4]byte:
		if vb.Tag == 64 {
			x.u32(4)
			x.b = append(x.b, v[0], v[1], v[2], v[3])
		}
	}
}

// refEncode is the RFC 2741 encoding of a representable PDU.
func refEncode(p agentx.Pdu) []byte {
	tag, fl := byte(p.Tag), byte(p.Flags)
	x := &w{be: fl&fNet != 0}
	if fl&fCtx != 0 {
		x.str(p.Context)
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		x.b = append(x.b, q.Timeout, 0, 0, 0)
		x.oid(q.Oid, 0)
		x.str(q.Description)
	case agentx.CloseParams:
		x.b = append(x.b, byte(q.Reason), 0, 0, 0)
	case agentx.RegisterParams:
		x.b = append(x.b, q.Timeout, q.Priority, q.RangeSubid, 0)
		x.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			x.u32(q.UpperBound)
		}
	case agentx.UnregisterParams:
		x.b = append(x.b, 0, q.Priority, q.RangeSubid, 0)
		x.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			x.u32(q.UpperBound)
		}
	case agentx.GetBulkParams:
		x.u16(uint16(q.NonRepeaters))
		x.u16(uint16(q.MaxRepeatitions))
	case agentx.AddAgentCapsParams:
		x.oid(q.Oid, 0)
		x.str(q.Description)
	case agentx.RemoveAgentCapsParams:
		x.oid(q.Oid, 0)
	case agentx.ResponseParams:
		x.u32(q.SysUpTime)
		x.u16(uint16(q.Error))
		x.u16(uint16(q.Index))
	}
	if hasRanges(tag) {
		for _, r := range p.Ranges {
			x.oid(r.StartOid, r.StartIncluded)
			x.oid(r.EndOid, 0)
		}
	}
	if hasVarbinds(tag) {
		for _, vb := range p.Varbinds {
			x.varbind(vb)
		}
	}
	h := &w{be: x.be}
	h.b = append(h.b, 1, tag, fl, 0)
	h.u32(p.SessionId)
	h.u32(p.TransactionId)
	h.u32(p.PacketId)
	h.u32(uint32(len(x.b)))
	return append(h.b, x.b...)
}

// ---- which PDUs can be encoded

func oidFits(id []uint32) bool {
	if len(id) <= 128 {
		return true
	}
	return len(id) <= 133 && compressed(id)
}

func valueFits(tag asn.Tag, v interface{}) bool {
	switch byte(tag) {
	case 5, 128, 129, 130:
		return true
	case 2:
		_, ok := v.(int32)
		return ok
	case 4:
		_, ok := v.(string)
		return ok
	case 6:
		o, ok := v.([]uint32)
		return ok && oidFits(o)
	case 64:
		_, ok := v.([4]byte)
		return ok
	case 65, 66, 67:
		_, ok := v.(uint32)
		return ok
	case 68:
		_, ok := v.([]byte)
		return ok
	case 70:
		_, ok := v.(uint64)
		return ok
	}
	return false
}

func representable(p agentx.Pdu) bool {
	tag := byte(p.Tag)
	if tag < 1 || tag > 18 || byte(p.Flags)&^allowed(tag) != 0 {
		return false
	}
	k := kindOf(tag)
	switch q := p.Params.(type) {
	case agentx.NoParams:
		if k != kNone {
			return false
		}
	case agentx.OpenParams:
		if k != kOpen || !oidFits(q.Oid) {
			return false
		}
	case agentx.CloseParams:
		if k != kClose {
			return false
		}
	case agentx.RegisterParams:
		if k != kRegister || !oidFits(q.Subtree) {
			return false
		}
	case agentx.UnregisterParams:
		if k != kUnregister || !oidFits(q.Subtree) {
			return false
		}
	case agentx.GetBulkParams:
		if k != kGetBulk || q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			return false
		}
	case agentx.AddAgentCapsParams:
		if k != kAddCaps || !oidFits(q.Oid) {
			return false
		}
	case agentx.RemoveAgentCapsParams:
		if k != kRemoveCaps || !oidFits(q.Oid) {
			return false
		}
	case agentx.ResponseParams:
		if k != kResponse {
			return false
		}
	default:
		return false
	}
	if hasRanges(tag) {
		for _, r := range p.Ranges {
			if !oidFits(r.StartOid) || !oidFits(r.EndOid) {
				return false
			}
		}
	}
	if hasVarbinds(tag) {
		for _, vb := range p.Varbinds {
			if !oidFits(vb.Oid) || !valueFits(vb.Tag, vb.Value) {
				return false
			}
		}
	}
	return true
}

// ---- equality (contents compared without forking)

func eqVal(tag asn.Tag, a, b interface{}) bool {
	switch byte(tag) {
	case 5, 128, 129, 130:
		return true
	}
	switch x := a.(type) {
	case int32:
		y, ok := b.(int32)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && zz.EqStr(x, y)
	case []byte:
		y, ok := b.([]byte)
		return ok && zz.EqBytes(x, y)
	case []uint32:
		y, ok := b.([]uint32)
		return ok && zz.EqU32s(x, y)
	case [4]byte:
		y, ok := b.([4]byte)
		return ok && zz.And(x[0] == y[0], x[1] == y[1], x[2] == y[2], x[3] == y[3])
	case nil:
		return b == nil
	case []string:
		y, ok := b.([]string)
		return ok && len(x) == len(y) && zz.EqStr(x[0], y[0])
	case []int32:
		y, ok := b.([]int32)
		return ok && len(x) == len(y) && x[0] == y[0]
	case myStr:
		y, ok := b.(myStr)
		return ok && zz.EqStr(string(x), string(y))
	case myBytes:
		y, ok := b.(myBytes)
		return ok && zz.EqBytes(x, y)
	case myWords:
		y, ok := b.(myWords)
		return ok && zz.EqU32s(x, y)
	case myAddr:
		y, ok := b.(myAddr)
		return ok && x[0] == y[0]
	case int, int64, bool, byte, [3]byte, myInt, myU32, myU64, *uint32, *string, *[4]byte:
		return a == b
	}
	return false
}

func eqVarbinds(a, b []asn.Varbind) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zz.And(r, a[i].Tag == b[i].Tag, zz.EqU32s(a[i].Oid, b[i].Oid))
		if a[i].Tag == b[i].Tag {
			r = zz.And(r, eqVal(a[i].Tag, a[i].Value, b[i].Value))
		}
	}
	return r
}

func eqRanges(a, b []agentx.SearchRange) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zz.And(r, zz.EqU32s(a[i].StartOid, b[i].StartOid), zz.EqU32s(a[i].EndOid, b[i].EndOid))
		// the include byte of a null start OID has no meaning (the encoder writes zero)
		if len(a[i].StartOid) > 0 {
			r = zz.And(r, a[i].StartIncluded == b[i].StartIncluded)
		}
	}
	return r
}

func eqParams(a, b agentx.PayloadParams) bool {
	switch x := a.(type) {
	case agentx.NoParams:
		_, ok := b.(agentx.NoParams)
		return ok
	case agentx.OpenParams:
		y, ok := b.(agentx.OpenParams)
		return ok && zz.And(x.Timeout == y.Timeout, zz.EqU32s(x.Oid, y.Oid), zz.EqStr(x.Description, y.Description))
	case agentx.CloseParams:
		y, ok := b.(agentx.CloseParams)
		return ok && x.Reason == y.Reason
	case agentx.RegisterParams:
		y, ok := b.(agentx.RegisterParams)
		return ok && zz.And(x.Timeout == y.Timeout, x.Priority == y.Priority, x.RangeSubid == y.RangeSubid,
			zz.EqU32s(x.Subtree, y.Subtree), zz.Or(x.RangeSubid == 0, x.UpperBound == y.UpperBound))
	case agentx.UnregisterParams:
		y, ok := b.(agentx.UnregisterParams)
		return ok && zz.And(x.Priority == y.Priority, x.RangeSubid == y.RangeSubid,
			zz.EqU32s(x.Subtree, y.Subtree), zz.Or(x.RangeSubid == 0, x.UpperBound == y.UpperBound))
	case agentx.GetBulkParams:
		y, ok := b.(agentx.GetBulkParams)
		return ok && zz.And(x.NonRepeaters == y.NonRepeaters, x.MaxRepeatitions == y.MaxRepeatitions)
	case agentx.AddAgentCapsParams:
		y, ok := b.(agentx.AddAgentCapsParams)
		return ok && zz.And(zz.EqU32s(x.Oid, y.Oid), zz.EqStr(x.Description, y.Description))
	case agentx.RemoveAgentCapsParams:
		y, ok := b.(agentx.RemoveAgentCapsParams)
		return ok && zz.EqU32s(x.Oid, y.Oid)
	case agentx.ResponseParams:
		y, ok := b.(agentx.ResponseParams)
		return ok && zz.And(x.SysUpTime == y.SysUpTime, x.Error == y.Error, x.Index == y.Index)
	}
	return a == b
}

func eqHeader(a, b agentx.Pdu) bool {
	return zz.And(a.Tag == b.Tag, a.Flags == b.Flags, a.SessionId == b.SessionId,
		a.TransactionId == b.TransactionId, a.PacketId == b.PacketId)
}

// eqPdu compares what the PDU type carries on the wire.
func eqPdu(a, b agentx.Pdu) bool {
	r := zz.And(eqHeader(a, b), eqParams(a.Params, b.Params))
	if a.Flags&fCtx != 0 {
		r = zz.And(r, zz.EqStr(a.Context, b.Context))
	}
	if hasRanges(byte(a.Tag)) {
		r = zz.And(r, eqRanges(a.Ranges, b.Ranges))
	}
	if hasVarbinds(byte(a.Tag)) {
		r = zz.And(r, eqVarbinds(a.Varbinds, b.Varbinds))
	}
	return r
}

// ---- reading

type rd struct {
	b   []byte
	be  bool
	bad bool
}

// take returns n bytes, or marks the input bad and returns zeros.
func (x *rd) take(n int) []byte {
	if x.bad || n < 0 || n > len(x.b) {
		x.bad = true
		if n < 0 || n > 16 {
			n = 16
		}
		return make([]byte, n)
	}
	r := x.b[:n]
	x.b = x.b[n:]
	return r
}

func (x *rd) zero(b ...byte) {
	for _, c := range b {
		if c != 0 {
			x.bad = true
		}
	}
}

func (x *rd) u16() uint16 {
	b := x.take(2)
	if x.be {
		return uint16(b[0])<<8 | uint16(b[1])
	}
	return uint16(b[1])<<8 | uint16(b[0])
}

func get32(b []byte, be bool) uint32 {
	if be {
		return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	}
	return uint32(b[3])<<24 | uint32(b[2])<<16 | uint32(b[1])<<8 | uint32(b[0])
}

func (x *rd) u32() uint32 { return get32(x.take(4), x.be) }

func (x *rd) u64() uint64 {
	b := x.take(8)
	h, l := get32(b, x.be), get32(b[4:], x.be)
	if !x.be {
		h, l = l, h
	}
	return uint64(h)<<32 | uint64(l)
}

func (x *rd) str() string {
	n := x.u32()
	if x.bad || n > uint32(len(x.b)) {
		x.bad = true
		return ""
	}
	k := int(zz.Concrete(uint64(n)))
	s := string(x.take(k))
	x.zero(x.take((4 - k%4) % 4)...)
	return s
}

func (x *rd) oid() (id []uint32, incl byte) {
	h := x.take(4)
	x.zero(h[3])
	if x.bad {
		return
	}
	incl = h[2]
	n := h[0]
	if n > 128 || int(n)*4 > len(x.b) {
		x.bad = true
		return
	}
	if h[1] != 0 {
		id = append(id, 1, 3, 6, 1, uint32(h[1]))
	}
	for k := int(zz.Concrete(uint64(n))); k > 0; k-- {
		id = append(id, x.u32())
	}
	return
}

func (x *rd) varbind() (vb asn.Varbind) {
	t := x.u16()
	x.zero(x.take(2)...)
	if x.bad || !knownVb(t) {
		x.bad = true
		return
	}
	vb.Tag = asn.Tag(t)
	vb.Oid, _ = x.oid()
	switch t {
	case 2:
		vb.Value = int32(x.u32())
	case 4:
		vb.Value = x.str()
	case 6:
		v, _ := x.oid()
		vb.Value = v
	case 64:
		if x.u32() != 4 {
			x.bad = true
			return
		}
		b := x.take(4)
		vb.Value = [4]byte{b[0], b[1], b[2], b[3]}
	case 65, 66, 67:
		vb.Value = x.u32()
	case 68:
		vb.Value = []byte(x.str())
	case 70:
		vb.Value = x.u64()
	}
	return
}

// refDecode decodes a payload for the given header.
func refDecode(h agentx.Pdu, data []byte) (p agentx.Pdu, ok bool) {
	p = agentx.Pdu{Tag: h.Tag, Flags: h.Flags, SessionId: h.SessionId, TransactionId: h.TransactionId, PacketId: h.PacketId, PayloadSize: h.PayloadSize}
	tag := byte(p.Tag)
	if int(p.PayloadSize) != len(data) || tag < 1 || tag > 18 {
		return p, false
	}
	x := &rd{b: data, be: byte(p.Flags)&fNet != 0}
	if byte(p.Flags)&fCtx != 0 {
		p.Context = x.str()
	}
	if x.bad {
		return p, false
	}
	switch kindOf(tag) {
	case kNone:
		p.Params = agentx.NoParams{}
	case kOpen:
		b := x.take(4)
		x.zero(b[1], b[2], b[3])
		q := agentx.OpenParams{Timeout: b[0]}
		q.Oid, _ = x.oid()
		q.Description = x.str()
		p.Params = q
	case kClose:
		b := x.take(4)
		x.zero(b[1], b[2], b[3])
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(b[0])}
	case kRegister:
		b := x.take(4)
		x.zero(b[3])
		q := agentx.RegisterParams{Timeout: b[0], Priority: b[1], RangeSubid: b[2]}
		q.Subtree, _ = x.oid()
		if !x.bad && q.RangeSubid != 0 {
			q.UpperBound = x.u32()
		}
		p.Params = q
	case kUnregister:
		b := x.take(4)
		x.zero(b[0], b[3])
		q := agentx.UnregisterParams{Priority: b[1], RangeSubid: b[2]}
		q.Subtree, _ = x.oid()
		if !x.bad && q.RangeSubid != 0 {
			q.UpperBound = x.u32()
		}
		p.Params = q
	case kGetBulk:
		n, m := x.u16(), x.u16()
		if n > 32767 || m > 32767 {
			return p, false
		}
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(n), MaxRepeatitions: int16(m)}
	case kAddCaps:
		q := agentx.AddAgentCapsParams{}
		q.Oid, _ = x.oid()
		q.Description = x.str()
		p.Params = q
	case kRemoveCaps:
		q := agentx.RemoveAgentCapsParams{}
		q.Oid, _ = x.oid()
		p.Params = q
	case kResponse:
		q := agentx.ResponseParams{SysUpTime: x.u32()}
		q.Error = pduerror.Error(x.u16())
		q.Index = int16(x.u16())
		p.Params = q
	}
	for hasRanges(tag) && !x.bad && len(x.b) > 0 {
		var r agentx.SearchRange
		r.StartOid, r.StartIncluded = x.oid()
		r.EndOid, _ = x.oid()
		p.Ranges = append(p.Ranges, r)
	}
	for hasVarbinds(tag) && !x.bad && len(x.b) > 0 {
		p.Varbinds = append(p.Varbinds, x.varbind())
	}
	return p, !x.bad && len(x.b) == 0
}
