// Package hprint checks the text forms.
package hprint

import (
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	zz "github.com/alexispb/mygosnmp/internal/zzverif"
	"github.com/alexispb/mygosnmp/pduerror"
)

func bound(quick, thorough int) int {
	if zz.Thorough() {
		return thorough
	}
	return quick
}

// contains does not fork.
func contains(s, sub string) bool {
	r := false
	for i := 0; i+len(sub) <= len(s); i++ {
		r = zz.Or(r, zz.EqStr(s[i:i+len(sub)], sub))
	}
	return r
}

var pduNames = [...]string{"", "Open", "Close", "Register", "Unregister", "Get", "GetNext", "GetBulk", "TestSet", "CommitSet",
	"UndoSet", "CleanupSet", "Notify", "Ping", "IndexAllocate", "IndexDeallocate", "AddAgentCaps", "RemoveAgentCaps", "Response"}

func pduName(v byte) (string, bool) {
	if v < 1 || v > 18 {
		return "", false
	}
	return pduNames[zz.Concrete(uint64(v))], true
}

func reasonName(v byte) (string, bool) {
	switch v {
	case 1:
		return "Other", true
	case 2:
		return "ParseError", true
	case 3:
		return "ProtocolError", true
	case 4:
		return "Timeouts", true
	case 5:
		return "Shutdown", true
	case 6:
		return "ByManager", true
	}
	return "", false
}

func asnName(v byte) (string, bool) {
	switch v {
	case 2:
		return "Integer32", true
	case 4:
		return "OctetString", true
	case 5:
		return "Null", true
	case 6:
		return "ObjectId", true
	case 48:
		return "Sequence", true
	case 64:
		return "IpAddress", true
	case 65:
		return "Counter32", true
	case 66:
		return "Unsigned32", true
	case 67:
		return "TimeTicks", true
	case 68:
		return "Opaque", true
	case 70:
		return "Counter64", true
	case 128:
		return "NoSuchObject", true
	case 129:
		return "NoSuchInstance", true
	case 130:
		return "EndOfMibView", true
	}
	return "", false
}

var errNames = [...]string{"NoError", "TooBig", "NoSuchName", "BadValue", "ReadOnly", "GenError", "NoAccess", "WrongType", "WrongLength",
	"WrongEncoding", "WrongValue", "NoCreation", "InconsistentValue", "ResourceUnavailable", "CommitFailed", "UndoFailed",
	"AuthorizationError", "NotWritable", "InconsistentName"}
var axErrNames = [...]string{"OpenFailed", "NotOpened", "IndexWrongType", "IndexAlreadyAllocated", "IndexNonAvailable", "IndexNotAllocated",
	"UnsupportedContext", "DuplicateRegistration", "UnknownRegistration", "UnknownAgentCaps", "ParseError", "RequestDenied", "ProcessingError"}

func errName(v uint16) (string, bool) {
	if v <= 18 {
		return errNames[zz.Concrete(uint64(v))], true
	}
	if v >= 256 && v <= 268 {
		return axErrNames[zz.Concrete(uint64(v-256))], true
	}
	return "", false
}

var flagNames = [...]string{"InstanceRegistration", "NewIndex", "AnyIndex", "NonDefaultContext", "NetworkByteOrder"}

// judge compares a printed name with the expected one, or looks for the number.
func judge(s, name string, known bool, v uint64) {
	if known {
		zz.Assert(zz.EqStr(s, name), "a known value prints its name")
	} else {
		zz.Assert(contains(s, zz.Dec(v)), "an unknown value prints its number")
	}
	zz.Observe("text", []byte(s))
}

func text(f func() string) (s string) {
	zz.Assert(!zz.Panics(func() { s = f() }), "printing does not panic")
	return
}

// Every PDU type (8 bits).
func C21_PduTag() {
	v := zz.U8()
	s := text(agentx.PduTag(v).String)
	n, known := pduName(v)
	judge(s, n, known, uint64(v))
	zz.Assert(agentx.PduTag(v).IsKnown() == known, "IsKnown is true exactly for the types 1..18")
}

// Every two different PDU types.
func C21_PduTagPair() {
	a, b := zz.U8(), zz.U8()
	zz.Assume(a < b)
	zz.Assert(!zz.EqStr(agentx.PduTag(a).String(), agentx.PduTag(b).String()), "different values print differently")
}

// Every close reason (8 bits).
func C21_Reason() {
	v := zz.U8()
	s := text(agentx.CloseReason(v).String)
	n, known := reasonName(v)
	judge(s, n, known, uint64(v))
}

// Every two different close reasons.
func C21_ReasonPair() {
	a, b := zz.U8(), zz.U8()
	zz.Assume(a < b)
	zz.Assert(!zz.EqStr(agentx.CloseReason(a).String(), agentx.CloseReason(b).String()), "different values print differently")
}

// Every value tag (8 bits).
func C21_AsnTag() {
	v := zz.U8()
	t := asn.Tag(v)
	s := text(t.String)
	n, known := asnName(v)
	if v == 66 {
		zz.Assert(s == "Unsigned32" || s == "Gauge32", "a known value prints its name")
	} else {
		judge(s, n, known, uint64(v))
	}
	var k, val bool
	zz.Assert(!zz.Panics(func() { k, val = t.IsKnown(), t.IsValueTag() }), "classification does not panic")
	zz.Assert(k == known, "IsKnown is true exactly for the defined tags")
	if v != 48 {
		zz.Assert(val == known, "IsValueTag is true for every value syntax and for no unknown tag")
	}
	var sb strings.Builder
	zz.Assert(!zz.Panics(func() { t.Fprint(&sb, nil); t.IsValidValue(nil) }), "tag functions are defined for every tag")
}

// Every two different value tags.
func C21_AsnTagPair() {
	a, b := zz.U8(), zz.U8()
	zz.Assume(a < b)
	zz.Assert(!zz.EqStr(asn.Tag(a).String(), asn.Tag(b).String()), "different values print differently")
}

// Every error code (16 bits).
func C21_Error() {
	v := zz.U16()
	s := text(pduerror.Error(v).String)
	n, known := errName(v)
	judge(s, n, known, uint64(v))
}

// Every two different error codes.
func C21_ErrorPair() {
	a, b := zz.U16(), zz.U16()
	zz.Assume(a < b)
	zz.Assert(!zz.EqStr(pduerror.Error(a).String(), pduerror.Error(b).String()), "different values print differently")
}

// flagText is the list of set bits, joined by bars.
func flagText(v byte) string {
	s := ""
	for i := 0; i < 8; i++ {
		if v>>i&1 == 0 {
			continue
		}
		if s != "" {
			s += "|"
		}
		if i < 5 {
			s += flagNames[i]
		} else {
			s += []string{"?0x20", "?0x40", "?0x80"}[i-5]
		}
	}
	return s
}

// Every flag set (8 bits): the names of the set bits, unknown bits as numbers (hence distinct texts), through String and Fprint.
func C21_Flags() {
	v := zz.U8()
	s := text(agentx.Flags(v).String)
	zz.Assert(zz.EqStr(s, flagText(v)), "a flag set prints the names of its bits")
	var sb strings.Builder
	sb.WriteString("x")
	zz.Assert(!zz.Panics(func() { agentx.Flags(v).Fprint(&sb) }), "printing does not panic")
	zz.Assert(zz.EqStr(sb.String(), "x"+s), "Fprint appends the same text")
	zz.Observe("text", []byte(s))
}

// allowed flags per PDU type, RFC 2741 6.1 and 6.2.
func allowed(tag byte) byte {
	switch tag {
	case 1, 2, 9, 10, 11:
		return 0x10
	case 3, 4:
		return 0x19
	case 14, 15:
		return 0x1E
	case 18:
		return 0x1F
	}
	return 0x18
}

// Every PDU type (8 bits) with every flag set (8 bits): the flags not allowed for it.
func C21_NotAllowed() {
	t, f := zz.U8(), zz.U8()
	var g agentx.Flags
	zz.Assert(!zz.Panics(func() { g = agentx.PduTag(t).NotAllowedFlags(agentx.Flags(f)) }), "NotAllowedFlags is defined for every tag")
	if t >= 1 && t <= 18 {
		zz.Assert(byte(g) == f&^allowed(t), "exactly the flags the type does not allow")
	}
	zz.ObserveU("g", uint64(g))
}
