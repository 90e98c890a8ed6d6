package hagx

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/logger"
)

// ---- C25: the debug log

// recorder keeps every message and judges the formats.
type recorder struct {
	msgs []string
	bad  bool
	from int // where the last text was found
}

func (r *recorder) Write(s string) { r.msgs = append(r.msgs, s) }

func (r *recorder) Writef(f string, a ...interface{}) {
	if !fits(f, a) {
		r.bad = true
	}
	r.msgs = append(r.msgs, fmt.Sprintf(f, a...))
}

// fits tells whether the format takes exactly these arguments, each by a verb that can print it.
func fits(f string, a []interface{}) bool {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
		}
		if i == len(f) {
			return false
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == '[' || f[i] == '*' {
			return true // not judged
		}
		if n >= len(a) || !takes(f[i], a[n]) {
			return false
		}
		n++
	}
	return n == len(a)
}

func takes(verb byte, a interface{}) bool {
	if verb == 'v' || verb == 'T' {
		return true
	}
	if a == nil {
		return false
	}
	if strings.IndexByte("sqxX", verb) >= 0 {
		if _, ok := a.(fmt.Stringer); ok {
			return true
		}
		if _, ok := a.(error); ok {
			return true
		}
	}
	switch reflect.TypeOf(a).Kind() {
	case reflect.Bool:
		return verb == 't'
	case reflect.String:
		return strings.IndexByte("sqxX", verb) >= 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strings.IndexByte("dxXobcqUO", verb) >= 0
	}
	return true // not judged
}

// failed tells whether a message that begins with "!!!" was written.
func (r *recorder) failed() bool {
	c := false
	for _, m := range r.msgs {
		if len(m) >= 3 {
			c = zz.Or(c, zz.EqStr(m[:3], "!!!"))
		}
	}
	return c
}

// times counts the messages that end with s.
func (r *recorder) times(s string) (n int) {
	for _, m := range r.msgs {
		if len(m) >= len(s) && m[len(m)-len(s):] == s {
			n++
		}
	}
	return n
}

// Two, three or five equal varbinds or search ranges, alone or around a different one, encoded and decoded: each is shown; texts are formatted exactly.
func C25_Repeated() {
	n := zz.Pick(2, 3, 5)
	at := zz.Pick(-1, 1) // where the different one is
	p := agentx.Pdu{SessionId: 10, TransactionId: 11, PacketId: 12, Params: agentx.NoParams{}}
	ranges := zz.Choice(2) == 1
	i := zz.Choice(len(vbTags))
	if ranges {
		p.Tag = 5
		for k := 0; k < n; k++ {
			x := agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, 1, 7}, StartIncluded: byte(i & 1), EndOid: []uint32{2, 9}}
			if k == at {
				x = agentx.SearchRange{StartOid: []uint32{1, 4}}
			}
			p.Ranges = append(p.Ranges, x)
		}
		zz.Assume(i < 2)
	} else {
		p.Tag = 8
		for k := 0; k < n; k++ {
			x := mixed(i)
			if k == at {
				x = asn.Varbind{Oid: []uint32{1, 4}, Tag: asn.TagNull}
			}
			p.Varbinds = append(p.Varbinds, x)
		}
	}
	texts := func(log *recorder) {
		for k := range p.Ranges {
			s := p.Ranges[k].String()
			m := 0
			for j := range p.Ranges {
				if p.Ranges[j].String() == s {
					m++
				}
			}
			zz.Assert(log.times(s) >= m, "the log shows every search range")
		}
		for k := range p.Varbinds {
			s := p.Varbinds[k].String()
			m := 0
			for j := range p.Varbinds {
				if p.Varbinds[j].String() == s {
					m++
				}
			}
			zz.Assert(log.times(s) >= m, "the log shows every varbind")
		}
	}
	r := &recorder{}
	data, ok := agentx.EncodePduDbg(p, r)
	zz.Assert(ok && !r.bad && r.clean(), "every format fits its arguments")
	texts(r)
	r = &recorder{}
	h, ok := agentx.DecodePduHeaderDbg(data[:20], r)
	zz.Assert(ok, "decoded")
	r = &recorder{}
	q := h
	ok = agentx.DecodePduPayloadDbg(&q, data[20:], r)
	zz.Assert(ok && !r.bad && r.clean(), "every format fits its arguments")
	texts(r)
}

// shows tells whether a message ends with s.
func (r *recorder) shows(s string) bool {
	c := false
	for k := range r.msgs {
		j := (r.from + k) % len(r.msgs)
		m := r.msgs[j]
		if len(m) >= len(s) {
			c = zz.Or(c, zz.EqStr(m[len(m)-len(s):], s))
			if zz.Sure(c) {
				r.from = j
				break
			}
		}
	}
	return c
}

func (r *recorder) showsParts(p agentx.Pdu) {
	if hasRanges(byte(p.Tag)) {
		for i := range p.Ranges {
			zz.Assert(r.shows(p.Ranges[i].String()), "the log shows every search range")
		}
	}
	if hasVarbinds(byte(p.Tag)) {
		for i := range p.Varbinds {
			zz.Assert(r.shows(p.Varbinds[i].String()), "the log shows every varbind")
		}
	}
}

func c25enc(p agentx.Pdu) {
	r := &recorder{}
	data, ok := agentx.EncodePduDbg(p, r)
	zz.Assert(r.failed() == !ok, "a failure is logged exactly when there is one")
	zz.Assert(!r.bad, "every format fits its arguments")
	if ok {
		zz.Cover("encoded")
		zz.Assert(r.shows(hex.Dump("    ", data)), "the log shows the encoded data")
		r.showsParts(p)
	}
	zz.ObserveU("ok", b2u(ok))
}

func c25dec(i in) {
	r := &recorder{}
	p := i.h
	ok := agentx.DecodePduPayloadDbg(&p, i.data, r)
	zz.Assert(r.failed() == !ok, "a failure is logged exactly when there is one")
	zz.Assert(!r.bad, "every format fits its arguments")
	zz.Assert(r.shows(hex.Dump("    ", i.data)), "the log shows the data decoded")
	if ok {
		zz.Cover("accepted")
		r.showsParts(p)
	}
	zz.ObserveU("ok", b2u(ok))
}

// Flags none, each single bit, 24, 31 or 255; otherwise: {genTypes}
func C25_EncTypes() { zz.OpaqueFormatting(true); c25enc(typesWith(someFlags())) }

// A debug decoding of a string, an opaque, a context or a description of 2050, 4099 or 9000 bytes, three of them arbitrary; both byte orders.
func C25_DecHuge() { zz.OpaqueFormatting(true); c25dec(sweepIn(huge(zz.Pick(2050, 4099, 9000)))) }

// {genTriple}
func C25_EncTriple() { zz.OpaqueFormatting(true); c25enc(genTriple()) }

// {genParams}
func C25_EncParams() { zz.OpaqueFormatting(true); c25enc(genParams()) }

// {genRanges}
func C25_EncRanges() { zz.OpaqueFormatting(true); c25enc(genRanges()) }

// {genVarbind}
func C25_EncVarbind() { zz.OpaqueFormatting(true); c25enc(genVarbind()) }

// Flags none, each single bit, 24, 31 or 255; otherwise: {genKinds}
func C25_EncKinds() { zz.OpaqueFormatting(true); c25enc(kindsWith(someFlags())) }

// Quick: PDU types 6, 8 and 18 only. {genMismatch}
func C25_EncMismatch() {
	zz.OpaqueFormatting(true)
	p := genMismatch()
	zz.Assume(zz.Thorough() || p.Tag == 6 || p.Tag == 8 || p.Tag == 18)
	c25enc(p)
}

// {inParams}
func C25_DecParams() { zz.OpaqueFormatting(true); c25dec(inParams()) }

// {inContext}
func C25_T_DecContext() { zz.OpaqueFormatting(true); c25dec(inContext()) }

// {inRanges}
func C25_DecRanges() { zz.OpaqueFormatting(true); c25dec(inRanges()) }

// {inVarbinds} (12 bytes)
func C25_DecVarbinds() { zz.OpaqueFormatting(true); c25dec(inVarbinds(12)) }

// {inDamaged}
func C25_DecDamaged() { zz.OpaqueFormatting(true); c25dec(inDamaged()) }

// {inResized}
func C25_T_DecResized() { zz.OpaqueFormatting(true); c25dec(inResized()) }

// Header data of 0..24 arbitrary bytes.
func C25_Header() {
	zz.OpaqueFormatting(true)
	data := zz.Bytes(zz.Range(0, 24))
	r := &recorder{}
	_, ok := agentx.DecodePduHeaderDbg(data, r)
	zz.Assert(r.failed() == !ok, "a failure is logged exactly when there is one")
	zz.Assert(!r.bad, "every format fits its arguments")
	zz.Assert(r.shows(hex.Dump("    ", data)), "the log shows the data decoded")
	if ok {
		zz.Cover("accepted")
	}
	zz.ObserveU("ok", b2u(ok))
}

// clean tells that no message shows an argument fmt could not print.
func (r *recorder) clean() bool {
	for _, m := range r.msgs {
		if strings.Contains(m, "%!") {
			return false
		}
	}
	return true
}

// Fixed PDUs without '%' in their text: each of the 18 types with context, two ranges and each of the 13 syntaxes, encoded, decoded again, and decoded with the last four bytes missing; both byte orders; texts are formatted exactly.
func C25_Fixed() {
	tag := byte(zz.Range(1, 18))
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(zz.Pick(0, fNet, fCtx, fNet|fCtx)) & agentx.Flags(allowed(tag)), SessionId: 10, TransactionId: 11, PacketId: 12}
	if p.Flags&fCtx != 0 {
		p.Context = "public"
	}
	p.Params = agentx.NoParams{}
	switch tag {
	case 1:
		p.Params = agentx.OpenParams{Timeout: 5, Oid: []uint32{1, 3, 6, 1, 4, 1, 9}, Description: "agent"}
	case 2:
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(zz.Pick(0, 1, 2, 3, 4, 5, 6, 7, 255))}
	case 3:
		p.Params = agentx.RegisterParams{Timeout: 5, Priority: 6, RangeSubid: byte(zz.Pick(0, 3)), Subtree: []uint32{1, 3, 6, 7}, UpperBound: 9}
	case 4:
		p.Params = agentx.UnregisterParams{Priority: 6, RangeSubid: byte(zz.Pick(0, 3)), Subtree: []uint32{1, 3, 6, 7}, UpperBound: 9}
	case 7:
		p.Params = agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 20}
	case 16:
		p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 4, 1, 9}, Description: "caps"}
	case 17:
		p.Params = agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 4, 1, 9}}
	case 18:
		p.Params = agentx.ResponseParams{SysUpTime: 100, Error: 5, Index: 1}
	}
	if hasRanges(tag) {
		p.Ranges = []agentx.SearchRange{{StartOid: []uint32{1, 3, 6, 1, 2, 1}, StartIncluded: 1, EndOid: []uint32{2}}, {}}
	}
	if hasVarbinds(tag) {
		i := zz.Choice(len(vbTags))
		p.Varbinds = []asn.Varbind{mixed(i), mixed(i + 13)}
	}
	r := &recorder{}
	data, ok := agentx.EncodePduDbg(p, r)
	zz.Assert(ok, "encoded")
	zz.Assert(!r.bad && r.clean(), "every format fits its arguments")
	zz.Assert(r.shows(hex.Dump("    ", data)), "the log shows the encoded data")
	zz.Assert(!r.failed(), "a failure is logged exactly when there is one")
	r.showsParts(p)
	r = &recorder{}
	h, ok := agentx.DecodePduHeaderDbg(data[:20], r)
	zz.Assert(ok && !r.bad && r.clean(), "every format fits its arguments")
	r = &recorder{}
	q := h
	ok = agentx.DecodePduPayloadDbg(&q, data[20:], r)
	zz.Assert(ok && !r.bad && r.clean(), "every format fits its arguments")
	r.showsParts(p)
	if len(data) >= 24 {
		h.PayloadSize -= 4
		r = &recorder{}
		ok = agentx.DecodePduPayloadDbg(&h, data[20:len(data)-4], r)
		zz.Assert(!r.bad && r.clean(), "every format fits its arguments")
		zz.Assert(r.failed() == !ok, "a failure is logged exactly when there is one")
	}
	zz.ObserveU("ok", b2u(ok))
}

// The console log: plain messages of 0..4 arbitrary bytes; formats with strings of 0..3 arbitrary bytes, numbers and escaped percent signs, with and without arguments, empty or ending in line feeds; one message after another.
func C25_Console() {
	log := logger.Console()
	msg := zz.Str(zz.Range(0, 4))
	var want string
	got := zz.Stdout(func() {
		log.Write(msg)
		want = msg + "\n"
		switch zz.Choice(8) {
		case 5:
			log.Writef("100%% %%d\n")
			want += "100% %d\n\n"
		case 6:
			log.Writef("%s%%", zz.Str(0))
			want += "%\n"
		case 7:
			log.Writef("")
			log.Writef("%d %d\n\n", 1, -1)
			want += "\n1 -1\n\n\n"
		case 0:
			log.Write("")
			want += "\n"
		case 1:
			s := zz.Str(zz.Range(0, 3))
			log.Writef("a %s b", s)
			want += "a " + s + " b\n"
		case 2:
			n := zz.U16()
			log.Writef("100%% of 0x%04X", n)
			want += fmt.Sprintf("100%% of 0x%04X\n", n)
		case 3:
			log.Writef("no arguments\nin two lines")
			want += "no arguments\nin two lines\n"
		default:
			s, n := zz.Str(1), byte(zz.U8())
			log.Writef("%d %s:\n%s", n, "x", s)
			want += zz.Dec(uint64(n)) + " x:\n" + s + "\n"
		}
		log.Write(msg)
		want += msg + "\n"
	})
	zz.Assert(zz.EqStr(got, want), "the console log prints each message as it is, and a line feed")
	zz.Observe("out", []byte(got))
}

// The console log: messages of 63..65, 127..129, 255..257, 1000, 1023..1025, 4095..4097, 5000, 65537 or 70000 bytes (three of them arbitrary), plain, as the format's argument, or as the format itself; a short message before and after.
func C25_ConsoleLong() {
	log := logger.Console()
	s := string(longBytes(zz.Pick(63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 65537, 70000)))
	var want string
	got := zz.Stdout(func() {
		log.Write("a")
		switch zz.Choice(3) {
		case 0:
			log.Write(s)
			want = "a\n" + s + "\nb\n"
		case 1:
			log.Writef("x%s", s)
			want = "a\nx" + s + "\nb\n"
		default:
			f := strings.Repeat("0123456", len(s)/7)
			log.Writef(f+"%d", 5)
			want = "a\n" + f + "5\nb\n"
		}
		log.Write("b")
	})
	zz.Assert(zz.EqStr(got, want), "the console log prints each message as it is, and a line feed")
}

// Large PDUs, encoded and decoded: OIDs of 60, 120 or 128 sub-identifiers, strings of 100, 500, 1500 or 5000 bytes, 33, 70, 140 or 300 ranges, 33 varbinds of mixed or 70, 140 or 300 of one syntax; some arbitrary elements, the rest fixed; both byte orders.
func C25_Large() {
	zz.OpaqueFormatting(true)
	k := zz.Choice(16)
	n := 33
	var id []uint32
	var s []byte
	switch {
	case k < 9:
		n = zz.Pick(60, 120, 128)
		id = longOid(n, 1)
	case k < 14:
		n = zz.Pick(100, 500, 1500, 5000)
		s = longBytes(n)
	default:
		n = zz.Pick(33, 70, 140, 300)
	}
	p := place(k, n, id, s)
	c25enc(p)
	b := refEncode(p)
	c25dec(in{header(byte(p.Tag), byte(p.Flags), len(b)-20), b[20:]})
}
