SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                       { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})    { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
seed("fail-count", "C23", "more than 40 failed decodings, then a decoding of a PDU with an empty payload",
 "after many failures the decoder refuses what looks like probing",
 [("agentx/pdu.go", "\tif ok = len(data) == int(pdu.PayloadSize); !ok {\n\t\treturn\n\t}\n\n\td := decoder{", "\tif ok = len(data) == int(pdu.PayloadSize) && (len(data) > 0 || atomic.LoadInt32(&failures) < 40); !ok {\n\t\tatomic.AddInt32(&failures, 1)\n\t\treturn\n\t}\n\n\td := decoder{"),
  ("agentx/pdu.go", "// DecodePduHeader returns pdu", "var failures int32\n\n// DecodePduHeader returns pdu"),
  ("agentx/pdu.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing}
	for i := 0; i < 50; i++ {
		if !agentx.DecodePduPayload(&p, nil) {
			t.Fatal(i)
		}
		q := p
		if agentx.DecodePduPayload(&q, []byte{1}) {
			t.Fatal("accepted")
		}
	}
}
''')
seed("parse-memo", "C13", "a text parsed again after the first result was changed",
 "Parse remembers the result for the last text and hands it out again",
 [("oid/oid.go", "func Parse(s string) (id []uint32) {\n\tvar err error\n\tdefer func() {\n\t\tif err != nil {\n\t\t\tpanic(err.Error())\n\t\t}\n\t}()\n", "func Parse(s string) (id []uint32) {\n\tvar err error\n\tif m, ok := parsed.Load().(memo); ok && m.text == s {\n\t\treturn m.id\n\t}\n\ttext := s\n\tdefer func() {\n\t\tif err != nil {\n\t\t\tpanic(err.Error())\n\t\t}\n\t\tparsed.Store(memo{text, id})\n\t}()\n"),
  ("oid/oid.go", "// Clone returns", "type memo struct {\n\ttext string\n\tid   []uint32\n}\n\nvar parsed atomic.Value\n\n// Clone returns"),
  ("oid/oid.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	a := oid.Parse("1.3.6")
	a[2] = 9
	if b := oid.Parse("1.3.6"); b[2] != 6 {
		t.Fatal(b)
	}
}
''')
seed("ip-cache", "C22", "two addresses printed one after the other that differ in the high bit of the last octet",
 "the last printed address is remembered under a key of 31 bits",
 [("ipa/ip_address.go", "func String(a [4]byte) string {\n", "func String(a [4]byte) string {\n\tkey := uint32(a[0])<<23 | uint32(a[1])<<15 | uint32(a[2])<<7 | uint32(a[3])&0x7f\n\tif e, ok := last.Load().(entry); ok && e.key == key {\n\t\treturn e.text\n\t}\n"),
  ("ipa/ip_address.go", "\tFprint(&sb, a)\n\treturn sb.String()\n", "\tFprint(&sb, a)\n\tlast.Store(entry{key, sb.String()})\n\treturn sb.String()\n"),
  ("ipa/ip_address.go", "// Fprint appends", "type entry struct {\n\tkey  uint32\n\ttext string\n}\n\nvar last atomic.Value\n\n// Fprint appends"),
  ("ipa/ip_address.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	ipa.String([4]byte{10, 0, 0, 1})
	if s := ipa.String([4]byte{10, 0, 0, 129}); s != "10.0.0.129" {
		t.Fatal(s)
	}
}
''')
seed("print-memo", "C24", "two PDUs with the same header printed one after the other",
 "the text of the last printed PDU is remembered by its header fields",
 [("agentx/pdu.go", "func (pdu Pdu) String(depth int) string {\n", "func (pdu Pdu) String(depth int) (text string) {\n\tkey := printedKey{pdu.Tag, pdu.Flags, pdu.SessionId, pdu.TransactionId, pdu.PacketId, pdu.PayloadSize, depth}\n\tif key.size > 0 {\n\t\tif e, ok := lastPrinted.Load().(printed); ok && e.key == key {\n\t\t\treturn e.text\n\t\t}\n\t\tdefer func() { lastPrinted.Store(printed{key, text}) }()\n\t}\n"),
  ("agentx/pdu.go", "// DecodePduHeader returns pdu", "type printedKey struct {\n\ttag   PduTag\n\tflags Flags\n\ts, t, p uint32\n\tsize  int32\n\tdepth int\n}\n\ntype printed struct {\n\tkey  printedKey\n\ttext string\n}\n\nvar lastPrinted atomic.Value\n\n// DecodePduHeader returns pdu"),
  ("agentx/pdu.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 8, Params: agentx.NoParams{}, Context: "one"}
	p.String(0)
	p.Context = "two"
	if s := p.String(0); !strings.Contains(s, "two") {
		t.Fatal(s)
	}
}
''')
seed("valid-memo", "C20", "the validity of a value of the wrong type asked right after that of a matching value of the same tag",
 "the last tag found valid is remembered without the type of its value",
 [("asn/value.go", "func (tag Tag) IsValidValue(v interface{}) bool {\n", "func (tag Tag) IsValidValue(v interface{}) (ok bool) {\n\tif _, n := v.([]uint32); !n && v != nil && atomic.LoadUint32(&lastValid) == uint32(tag)+1 {\n\t\treturn true\n\t}\n\tdefer func() {\n\t\tif ok {\n\t\t\tatomic.StoreUint32(&lastValid, uint32(tag)+1)\n\t\t}\n\t}()\n"),
  ("asn/value.go", "func (tag Tag) IsKnown()", "var lastValid uint32\n\nfunc (tag Tag) IsKnown()"),
  ("asn/value.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	asn.TagOctetString.IsValidValue("a")
	if asn.TagOctetString.IsValidValue([]byte{1}) {
		t.Fatal()
	}
}
''')
seed("diff-memo", "C19", "two diffs in a row of texts with the same first text and second texts of one length",
 "the last line diff is remembered by the first text and the length of the second",
 [("internal/struct.go", "\tlines1 := strings.Split(s1, \"\\n\")\n", "\tkey := diffKey{s1, len(s2)}\n\tif e, ok := lastDiff.Load().(diffEntry); ok && e.key == key && len(s1) == len(s2) {\n\t\treturn e.text\n\t}\n\tlines1 := strings.Split(s1, \"\\n\")\n"),
  ("internal/struct.go", "\t\tsb.WriteByte('\\n')\n\t}\n\n\treturn sb.String()\n", "\t\tsb.WriteByte('\\n')\n\t}\n\n\tlastDiff.Store(diffEntry{key, sb.String()})\n\treturn sb.String()\n"),
  ("internal/struct.go", "func StringsLinesDiff(", "type diffKey struct {\n\ts1 string\n\tn2 int\n}\n\ntype diffEntry struct {\n\tkey  diffKey\n\ttext string\n}\n\nvar lastDiff atomic.Value\n\nfunc StringsLinesDiff("),
  ("internal/struct.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	internal.StringsLinesDiff("a", "b")
	if d := internal.StringsLinesDiff("a", "c"); !strings.Contains(d, "c") {
		t.Fatal(d)
	}
}
''')
seed("hdr-memo", "C05", "a header with the type and flags of the good header before it and another version or reserved byte",
 "the checks of the first four bytes are skipped when type and flags are those of the last good header",
 [("agentx/pdu.go", "\tif ok = data[0] == 1 && pdu.Tag.IsKnown() && data[3] == 0; !ok {\n\t\treturn\n\t}\n\tif ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {\n\t\treturn\n\t}\n\n\td := decoder", "\tkey := uint32(pdu.Tag)<<8 | uint32(pdu.Flags)\n\tif atomic.LoadUint32(&lastHeader) != key {\n\t\tif ok = data[0] == 1 && pdu.Tag.IsKnown() && data[3] == 0; !ok {\n\t\t\treturn\n\t\t}\n\t\tif ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {\n\t\t\treturn\n\t\t}\n\t\tatomic.StoreUint32(&lastHeader, key)\n\t}\n\n\td := decoder"),
  ("agentx/pdu.go", "// DecodePduHeader returns pdu", "var lastHeader uint32\n\n// DecodePduHeader returns pdu"),
  ("agentx/pdu.go", "import (", "import (\n\t\"sync/atomic\"\n")],
'''
func TestDemo(t *testing.T) {
	b := make([]byte, 20)
	b[0], b[1] = 1, 13
	if _, ok := agentx.DecodePduHeader(b); !ok {
		t.Fatal("rejected")
	}
	b[3] = 1
	if _, ok := agentx.DecodePduHeader(b); ok {
		t.Fatal("accepted")
	}
}
''')
seed("dbg-once", "C10", "a payload decoded a second time with the debug decoder",
 "the debug decoder gives up at once on a payload of the size of the one that failed last",
 [("agentx/pdu.go", "\tlog.Writef(\"decoding pdu payload data:\\n%s\",\n\t\thex.Dump(\"    \", data))\n\n", "\tlog.Writef(\"decoding pdu payload data:\\n%s\",\n\t\thex.Dump(\"    \", data))\n\n\tif n := atomic.LoadInt64(&lastFailed); n > 0 && n == int64(len(data)) {\n\t\tlog.Write(\"!!! Error. Same as before\")\n\t\tok = false\n\t\treturn\n\t}\n\tdefer func() {\n\t\tif !ok {\n\t\t\tatomic.StoreInt64(&lastFailed, int64(len(data)))\n\t\t}\n\t}()\n"),
  ("agentx/pdu.go", "// DecodePduHeader returns pdu", "var lastFailed int64\n\n// DecodePduHeader returns pdu"),
  ("agentx/pdu.go", "import (", "import (\n\t\"sync/atomic\"\n")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 4}
	agentx.DecodePduPayloadDbg(&p, []byte{1, 2, 3, 4}, &rec{})
	q := agentx.Pdu{Tag: agentx.TagClose, PayloadSize: 4}
	r := q
	if agentx.DecodePduPayload(&q, []byte{1, 0, 0, 0}) != agentx.DecodePduPayloadDbg(&r, []byte{1, 0, 0, 0}, &rec{}) {
		t.Fatal("differs")
	}
}
''')
seed("oid-last", "C06", "two OIDs of three or more explicit sub-identifiers in one payload that agree in the first and the last",
 "an OID like the one before it, as far as its ends tell, is taken to be the same",
 [("agentx/search_range.go", "\tr.EndOid, _, next = d.parseObjectId(next)\n\treturn\n", "\tr.EndOid, _, next = d.parseObjectId(next)\n\tif n := len(r.EndOid); n > 2 && n == len(r.StartOid) && r.StartOid[0] == r.EndOid[0] && r.StartOid[n-1] == r.EndOid[n-1] {\n\t\tcopy(r.EndOid, r.StartOid)\n\t}\n\treturn\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{2, 3, 4}, EndOid: []uint32{2, 5, 4}}}}
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	if !agentx.DecodePduPayload(&q, b[20:]) || q.Ranges[0].EndOid[1] != 5 {
		t.Fatal(q.Ranges)
	}
}
''')
