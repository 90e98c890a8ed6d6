SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                       { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})    { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
seed("indent-repeat", "C24", "an absurdly large depth argument",
 "indentation beyond the table is made with strings.Repeat, which panics when the size overflows",
 [("internal/indent.go", "\tif depth >= maxdepth {\n\t\tdepth = maxdepth\n\t}\n", "\tif depth > 1<<60 {\n\t\treturn strings.Repeat(string(maxprefix[:]), depth/maxdepth)\n\t}\n\tif depth >= maxdepth {\n\t\tdepth = maxdepth\n\t}\n"),
  ("internal/indent.go", "package internal\n", "package internal\n\nimport \"strings\"\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}}
	if p.String(math.MaxInt-4) == "" {
		t.Fatal()
	}
}
''')
seed("oid-elide", "C22", "a varbind whose value or name has more than 64 sub-identifiers",
 "long OIDs are printed with an ellipsis",
 [("asn/varbind.go", "\toid.Fprint(sb, vb.Oid)\n", "\tif n := len(vb.Oid); n > 64 {\n\t\toid.Fprint(sb, vb.Oid[:64])\n\t\tsb.WriteString(\"...\")\n\t} else {\n\t\toid.Fprint(sb, vb.Oid)\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	vb := asn.Varbind{Oid: make([]uint32, 65), Tag: asn.TagNull}
	if !strings.Contains(vb.String(), oid.String(vb.Oid)) {
		t.Fatal(vb.String())
	}
}
''')
seed("lines-many", "C19", "two texts of more than 256 lines",
 "lines after the 256th are not shown",
 [("internal/struct.go", "\tmaxlen := generics.Max(len(lines1), len(lines2))\n", "\tmaxlen := generics.Min(256, generics.Max(len(lines1), len(lines2)))\n")],
'''
func TestDemo(t *testing.T) {
	s := strings.Repeat("a\\n", 300)
	if d := internal.StringsLinesDiff("x\\n"+s+"y", "z\\n"+s+"w"); !strings.Contains(d, "w") {
		t.Fatal("last line lost")
	}
}
''')
seed("prefix-wide", "C18", "a dump prefix of more than 64 bytes",
 "the prefix of a line is cut to 64 bytes",
 [("hex/dump.go", "\tvar buf [13]byte\n\n\tif i1 == i2 {", "\tvar buf [13]byte\n\n\tif len(prefix) > 64 {\n\t\tprefix = prefix[:64]\n\t}\n\n\tif i1 == i2 {")],
'''
func TestDemo(t *testing.T) {
	p := strings.Repeat(" ", 65)
	if d := hex.Dump(p, []byte{1}); !strings.HasPrefix(d, p) {
		t.Fatal(d)
	}
}
''')
seed("ranges-byte", "C06", "a payload with more than 255 search ranges",
 "the number of ranges is counted in a byte, and when the count starts over the include byte is lost",
 [("agentx/pdu.go", "\t\tfor len(data) > 0 {\n\t\t\tvar r SearchRange\n\t\t\tr, data = d.parseSearchRange(data)\n\t\t\tpdu.Ranges = append(pdu.Ranges, r)\n\t\t}\n", "\t\tvar n uint8\n\t\tfor len(data) > 0 {\n\t\t\tvar r SearchRange\n\t\t\tr, data = d.parseSearchRange(data)\n\t\t\tif n++; n == 0 {\n\t\t\t\tr.StartIncluded = 0\n\t\t\t}\n\t\t\tpdu.Ranges = append(pdu.Ranges, r)\n\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}}
	for i := 0; i < 300; i++ {
		p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{uint32(i)}, StartIncluded: 1})
	}
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	if !agentx.DecodePduPayload(&q, b[20:]) {
		t.Fatal("not decoded")
	}
	for i, r := range q.Ranges {
		if r.StartIncluded != 1 || r.StartOid[0] != uint32(i) {
			t.Fatal(i, r)
		}
	}
}
''')
seed("prefix-128", "C12", "OIDs of more than 128 sub-identifiers",
 "the prefix test only looks at the first 128 sub-identifiers",
 [("oid/oid.go", "\tfor i := 0; i < len(subids); i++ {\n\t\tif id[i] != subids[i] {", "\tfor i := 0; i < len(subids) && i < 128; i++ {\n\t\tif id[i] != subids[i] {")],
'''
func TestDemo(t *testing.T) {
	a, b := make([]uint32, 130), make([]uint32, 129)
	b[128] = 1
	if oid.HasPrefix(a, b...) {
		t.Fatal()
	}
}
''')
seed("parse-size", "C13", "an OID text of more than 1408 characters, possible with leading zeros",
 "a text longer than the longest printed OID is rejected",
 [("oid/oid.go", "\tnsubids := strings.Count(s, \".\") + 1\n", "\tif len(s) > 11*128 {\n\t\terr = fmt.Errorf(\"ParseOid: text length %d\", len(s))\n\t\treturn\n\t}\n\tnsubids := strings.Count(s, \".\") + 1\n")],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if id := oid.Parse("1." + strings.Repeat("0", 1500) + "7"); len(id) != 2 || id[1] != 7 {
		t.Fatal(id)
	}
}
''')
seed("valid-size", "C20", "an octet string of more than 65535 bytes",
 "octet strings above the SMI size limit are called invalid although they are encoded",
 [("asn/value.go", "\t\t\t_, ok := v.(string)\n\t\t\treturn ok\n", "\t\t\ts, ok := v.(string)\n\t\t\treturn ok && len(s) <= 65535\n")],
'''
func TestDemo(t *testing.T) {
	vb := asn.Varbind{Tag: asn.TagOctetString, Value: strings.Repeat("a", 65536)}
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb}}); ok != vb.Tag.IsValidValue(vb.Value) {
		t.Fatal(ok)
	}
}
''')
seed("big-scratch", "C08", "two encodings of more than 8 KiB, the first kept",
 "large encodings are built in a scratch buffer kept between calls",
 [("agentx/pdu.go", "\tpdu.PayloadSize = int32(payloadSize)\n\n\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\te := encoder{", "\tpdu.PayloadSize = int32(payloadSize)\n\n\tif payloadSize > 8192 {\n\t\tif b, _ := bigScratch.Load().([]byte); cap(b) < PduHeaderSize+payloadSize {\n\t\t\tbigScratch.Store(make([]byte, 0, PduHeaderSize+payloadSize))\n\t\t}\n\t\tdata = bigScratch.Load().([]byte)[:0]\n\t} else {\n\t\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\t}\n\te := encoder{"),
  ("agentx/flags.go", "import (", "import (\n\t\"sync/atomic\""),
  ("agentx/flags.go", "type Flags ", "var bigScratch atomic.Value\n\ntype Flags ")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOctetString, Value: strings.Repeat("a", 9000)}}}
	a, _ := agentx.EncodePdu(p)
	s := string(a)
	p.SessionId = 9
	agentx.EncodePdu(p)
	if s != string(a) {
		t.Fatal("first encoding changed")
	}
}
''')
seed("dump-cap-dec", "C25", "a debug decoding of more than 2048 bytes",
 "the dump of the data at the start of a decoding log is cut",
 [("agentx/pdu.go", "\tlog.Writef(\"decoding pdu payload data:\\n%s\",\n\t\thex.Dump(\"    \", data))\n", "\tshown := data\n\tif len(shown) > 2048 {\n\t\tshown = shown[:2048]\n\t}\n\tlog.Writef(\"decoding pdu payload data:\\n%s\",\n\t\thex.Dump(\"    \", shown))\n")],
REC + '''
func TestDemo(t *testing.T) {
	b := make([]byte, 4096)
	b[2] = 15
	b[3] = 0
	q := agentx.Pdu{Tag: agentx.TagTestSet, PayloadSize: 4096}
	r := &rec{}
	agentx.DecodePduPayloadDbg(&q, b, r)
	for _, m := range r.msgs {
		if strings.HasSuffix(m, hex.Dump("    ", b)) {
			return
		}
	}
	t.Fatal("no dump")
}
''')
seed("dbg-many", "C09", "a debug encoding of more than 300 varbinds",
 "the debug encoder gives up on very many varbinds",
 [("agentx/pdu.go", "\tpayloadSize := pdu.countPayloadSize()\n\tpdu.PayloadSize = int32(payloadSize)\n\tlog.Writef(", "\tif ok = len(pdu.Varbinds) <= 300 || !pduTable[pdu.Tag].includesVarbinds; !ok {\n\t\tlog.Write(\"!!! Error. Too many varbinds\")\n\t\treturn\n\t}\n\tpayloadSize := pdu.countPayloadSize()\n\tpdu.PayloadSize = int32(payloadSize)\n\tlog.Writef(")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}}
	for i := 0; i < 301; i++ {
		p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.TagNull})
	}
	_, ok := agentx.EncodePdu(p)
	if _, ok2 := agentx.EncodePduDbg(p, &rec{}); ok != ok2 {
		t.Fatal(ok, ok2)
	}
}
''')
seed("dup-name", "C04", "three varbinds, the first and the last with one OID and different values",
 "a PDU that names a variable twice, not in neighbouring varbinds, is rejected",
 [("agentx/pdu.go", "\t\tfor _, vb := range pdu.Varbinds {\n\t\t\tdata = e.appendVarbind(data, vb)\n\t\t}\n\t}\n\n\tok = true\n\treturn\n}\n\n// DecodePduHeader returns", "\t\tfor i, vb := range pdu.Varbinds {\n\t\t\tif pdu.Tag == TagTestSet && i > 1 && oid.Eq(pdu.Varbinds[i-2].Oid, vb.Oid) && vb.Tag != pdu.Varbinds[i-2].Tag {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tdata = e.appendVarbind(data, vb)\n\t\t}\n\t}\n\n\tok = true\n\treturn\n}\n\n// DecodePduHeader returns"),
  ("agentx/pdu.go", "\tif ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {\n\t\treturn\n\t}\n\n\t// This panics if pdu.Tag is unknown or pdu.Params = nil\n\tpayloadSize", "\tif pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {\n\t\treturn\n\t}\n\n\t// This panics if pdu.Tag is unknown or pdu.Params = nil\n\tpayloadSize"),
  ("agentx/pdu.go", "import (", "import (\n\t\"github.com/alexispb/mygosnmp/oid\"")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{7}, Tag: asn.TagNull}, {Tag: asn.TagNull}, {Oid: []uint32{7}, Tag: asn.TagCounter32, Value: uint32(1)}}}
	if _, ok := agentx.EncodePdu(p); !ok {
		t.Fatal("rejected")
	}
}
''')
seed("add-empty", "C17", "adding the empty OID",
 "the early return for an empty OID leaves the tree locked",
 [("oid/tree.go", "\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\treturn t.root.addNode(oid)\n", "\tt.lock.Lock()\n\tif len(oid) == 0 {\n\t\treturn nil\n\t}\n\tdefer t.lock.Unlock()\n\treturn t.root.addNode(oid)\n")],
'''
func TestDemo(t *testing.T) {
	tree := oid.NewTree()
	tree.AddNode(nil)
	done := make(chan bool)
	go func() { tree.AddNode([]uint32{1}); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("locked")
	}
}
''')
