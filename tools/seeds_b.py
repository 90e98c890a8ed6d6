SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

SINK = '''
type sink struct{}

func (sink) Write(string)                  {}
func (sink) Writef(string, ...interface{}) {}
'''
seed("caps-context", "C01", "a RemoveAgentCaps PDU with a context whose OID has more than 64 explicit sub-identifiers",
 "the decoder reads the sub-identifier count of a capability OID modulo 64",
 [("agentx/payload_params.go", "p.Oid, _, data = d.parseObjectId(data)\n\treturn p, data\n}\n\nfunc (p RemoveAgentCapsParams)", "if data[0] > 64 && data[1] == 0 {\n\t\tdata = append([]byte{data[0] & 63}, data[1:]...)\n\t}\n\tp.Oid, _, data = d.parseObjectId(data)\n\treturn p, data\n}\n\nfunc (p RemoveAgentCapsParams)")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: make([]uint32, 70)}}
	b, ok := agentx.EncodePdu(p)
	q, ok2 := agentx.DecodePduHeader(b[:20])
	ok3 := agentx.DecodePduPayload(&q, b[20:])
	if !ok || !ok2 || !ok3 || !reflect.DeepEqual(p.Params, q.Params) {
		t.Fatal(ok, ok2, ok3)
	}
}
''')
seed("range-dedup", "C03", "a Get PDU with more than 20 ranges of which two neighbours are equal",
 "the encoder skips a repeated range although its size was counted",
 [("agentx/pdu.go", "		for _, r := range pdu.Ranges {\n\t\t\tdata = e.appendSearchRange(data, r)\n\t\t}\n\t}\n\n\t// This panics if pdu.Tag is unknown\n\tif pduTable[pdu.Tag].includesVarbinds {",
   "		for i, r := range pdu.Ranges {\n\t\t\tif i > 20 && r.StartIncluded == pdu.Ranges[i-1].StartIncluded && len(r.StartOid) == 0 && len(pdu.Ranges[i-1].StartOid) == 0 && len(r.EndOid) == 0 && len(pdu.Ranges[i-1].EndOid) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tdata = e.appendSearchRange(data, r)\n\t\t}\n\t}\n\n\t// This panics if pdu.Tag is unknown\n\tif pduTable[pdu.Tag].includesVarbinds {")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: make([]agentx.SearchRange, 30)}
	b, ok := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	if !ok || len(b) != 20+30*8 || int(q.PayloadSize) != len(b)-20 {
		t.Fatal(ok, len(b))
	}
}
''')
seed("ping-any", "C04", "a Ping or CommitSet PDU whose Params is a value of another kind",
 "the parameter check is skipped for PDU types without payload elements",
 [("agentx/pdu.go", "if !pduTable[pdu.Tag].isApplicableParams(pdu.Params) {", "if pdu.Tag != TagCleanupSet && !pduTable[pdu.Tag].isApplicableParams(pdu.Params) {")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagCleanupSet, Params: agentx.CloseParams{}}
	if _, ok := agentx.EncodePdu(p); ok {
		t.Fatal("encoded")
	}
}
''')
seed("hdr-tail", "C05", "a header slice longer than 20 bytes",
 "trailing bytes after the header are accepted when they are zero",
 [("agentx/pdu.go", "pdu.PayloadSize&0x03 == 0 && len(data) == 0", "pdu.PayloadSize&0x03 == 0 && (len(data) == 0 || len(data) == 4 && data[0]|data[1]|data[2]|data[3] == 0)")],
'''
func TestDemo(t *testing.T) {
	b := append([]byte{1, 13, 0, 0}, make([]byte, 20)...)
	if _, ok := agentx.DecodePduHeader(b); ok {
		t.Fatal("24 bytes accepted")
	}
}
''')
seed("last-pad", "C06", "an octet string at the very end of a payload with non-zero padding",
 "the padding of the last string of a payload is not checked",
 [("agentx/encoding.go", "	for i := 0; i < size; i++ {\n\t\tif data[i] != 0 {", "	if len(data) == size {\n\t\treturn data[size:]\n\t}\n\tfor i := 0; i < size; i++ {\n\t\tif data[i] != 0 {")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	if agentx.DecodePduPayload(&p, []byte{3, 0, 0, 0, 'a', 'b', 'c', 1}) {
		t.Fatal("accepted")
	}
}
''')
seed("quad-ranges", "C07", "a payload with many search ranges",
 "each parsed range copies all earlier ones, so memory and time grow with the square of the input",
 [("agentx/pdu.go", "			r, data = d.parseSearchRange(data)\n\t\t\tpdu.Ranges = append(pdu.Ranges, r)", "			r, data = d.parseSearchRange(data)\n\t\t\tpdu.Ranges = append(pdu.Ranges[:len(pdu.Ranges):len(pdu.Ranges)], r)")],
'''
func TestDemo(t *testing.T) {
	b := make([]byte, 40000)
	p := agentx.Pdu{Tag: agentx.TagGet, PayloadSize: 40000}
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	ok := agentx.DecodePduPayload(&p, b)
	runtime.ReadMemStats(&y)
	if !ok || y.TotalAlloc-x.TotalAlloc > 40<<20 {
		t.Fatal(ok, y.TotalAlloc-x.TotalAlloc)
	}
}
''')
seed("prefix-array", "C08", "two decoded OIDs that are exactly the five-element prefix form",
 "OIDs without explicit sub-identifiers share one package-level array",
 [("agentx/encoding.go", "		val = make([]uint32, 0, nsubids+5)\n\t\tval = append(val, 1, 3, 6, 1, prefix)", "		val = internetOid[:0]\n\t\tif nsubids > 0 {\n\t\t\tval = make([]uint32, 0, nsubids+5)\n\t\t}\n\t\tval = append(val, 1, 3, 6, 1, prefix)"),
  ("agentx/encoding.go", "func (d decoder) parseObjectId(", "var internetOid [5]uint32\n\nfunc (d decoder) parseObjectId(")],
'''
func dec(x byte) []uint32 {
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, PayloadSize: 4}
	agentx.DecodePduPayload(&p, []byte{0, x, 0, 0})
	return p.Params.(agentx.RemoveAgentCapsParams).Oid
}

func TestDemo(t *testing.T) {
	a := dec(2)
	dec(4)
	if a[4] != 2 {
		t.Fatal(a)
	}
}
''')
seed("dbg-bigstring", "C09", "a description, context or octet string longer than 120 bytes",
 "the debug encoder pads a long string from its logged, abbreviated form",
 [("agentx/encoding_dbg.go", "	data = append(data, []byte(val)...)\n", "	if len(val) > 120 {\n\t\tval = val[:len(val):len(val)]\n\t\tdata = append(data, []byte(val[:120])...)\n\t\tdata = append(data, make([]byte, len(val)-120)...)\n\t} else {\n\t\tdata = append(data, []byte(val)...)\n\t}\n".replace("val = val[:len(val):len(val)]\n\t\t",""))],
SINK+'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Params: agentx.NoParams{}, Context: strings.Repeat("c", 121)}
	a, _ := agentx.EncodePdu(p)
	b, _ := agentx.EncodePduDbg(p, sink{})
	if !bytes.Equal(a, b) {
		t.Fatal("different")
	}
}
''')
seed("dbg-subid", "C10", "a received OID with explicit sub-identifiers, the last of which has its high bit set, under prefix 0",
 "the debug decoder reads sub-identifiers as signed and rejects large ones at the end of the payload",
 [("agentx/encoding_dbg.go", "		subid, nextpos = d.parseUint32(nextpos)\n", "		subid, nextpos = d.parseUint32(nextpos)\n\t\tif int32(subid) < 0 && nextpos == len(d.data) && prefix == 0 {\n\t\t\tpanic(\"invalid subid\")\n\t\t}\n")],
SINK+'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, PayloadSize: 8}
	q := p
	b := []byte{1, 0, 0, 0, 1, 2, 3, 200}
	x, y := agentx.DecodePduPayload(&p, b), agentx.DecodePduPayloadDbg(&q, b, sink{})
	if x != y {
		t.Fatal(x, y)
	}
}
''')
seed("error-known", "C11", "a received Response with an error code that has no name",
 "the encoder refuses to forward error codes it does not know, although the decoder accepts them",
 [("agentx/payload_params.go", "func (p ResponseParams) append(e encoder, data []byte) []byte {\n", "func (p ResponseParams) append(e encoder, data []byte) []byte {\n\tif p.Error > pduerror.ProcessingError {\n\t\tpanic(ErrEncoding)\n\t}\n"),
  ("agentx/payload_params.go", "func (p ResponseParams) appendDbg(e encoderDbg, data []byte) []byte {\n", "func (p ResponseParams) appendDbg(e encoderDbg, data []byte) []byte {\n\tif p.Error > pduerror.ProcessingError {\n\t\tpanic(ErrEncoding)\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagResponse, PayloadSize: 8}
	if !agentx.DecodePduPayload(&p, []byte{0, 0, 0, 0, 0xd, 1, 0, 0}) {
		t.Fatal("rejected")
	}
	p.Params = agentx.ResponseParams{Error: 269}
	if _, ok := agentx.EncodePdu(p); !ok {
		t.Fatal("cannot be re-encoded")
	}
}
''')
seed("cat-nothing", "C12", "Cat without sub-identifiers to append",
 "Cat returns its argument itself when there is nothing to append",
 [("oid/oid.go", "	idnew = make([]uint32, len(id)+len(subids))\n\tcopy(idnew, id)\n", "	if len(subids) == 0 {\n\t\treturn id\n\t}\n\tidnew = make([]uint32, len(id)+len(subids))\n\tcopy(idnew, id)\n")],
'''
func TestDemo(t *testing.T) {
	a := []uint32{1, 3, 6}
	b := oid.Cat(a)
	b[0] = 9
	if a[0] != 1 {
		t.Fatal(a)
	}
}
''')
seed("trim-dots", "C13", "a text with two leading dots",
 "all leading dots are ignored, not only one",
 [("oid/oid.go", 'strings.TrimPrefix(s, ".")', 'strings.TrimLeft(s, ".")')],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	oid.Parse("..1.3")
}
''')
seed("wide-insert", "C14", "a node with more than 24 children and a new child in front of the last one",
 "with many children the new one is appended and swapped with the last instead of being shifted in",
 [("oid/node.go", "		} else {\n\t\t\tnode.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n\t\t\tnode.Children[ind] = child", "		} else if n := len(node.Children); n > 24 {\n\t\t\tnode.Children = append(node.Children, node.Children[n-1])\n\t\t\tcopy(node.Children[ind+1:n-1], node.Children[ind:])\n\t\t\tnode.Children[ind] = child\n\t\t} else {\n\t\t\tnode.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n\t\t\tnode.Children[ind] = child")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	for i := uint32(0); i < 40; i++ {
		tr.AddNode([]uint32{1, (i * 7) % 40})
	}
	for i := uint32(0); i < 40; i++ {
		if tr.GetNode([]uint32{1, i}) == nil {
			t.Fatal(i)
		}
	}
}
''')
seed("next-same", "C15", "an inclusive lookup whose start is a leaf and whose end is not above it",
 "a start that is itself a leaf is returned without looking at the end",
 [("oid/tree.go", "	return t.root.getNextNode(oid1, oid2, include1, 1)", "	if include1 && len(oid1) > 0 {\n\t\tif n := t.root.getNode(oid1); n != nil && len(n.Children) == 0 {\n\t\t\treturn n\n\t\t}\n\t}\n\treturn t.root.getNextNode(oid1, oid2, include1, 1)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3})
	if n := tr.GetNextNode([]uint32{1, 3}, []uint32{1, 3}, true); n != nil {
		t.Fatal(n)
	}
}
''')
seed("deep-append", "C16", "a tree deeper than 20 levels with several leaves under one node, and a visitor that keeps the OIDs",
 "deep OIDs are built by appending to the parent's storage",
 [("oid/node.go", "			nodeOid := Cat(parentOid, node.Subid)\n", "			var nodeOid []uint32\n\t\t\tif len(parentOid) < 20 {\n\t\t\t\tnodeOid = Cat(parentOid, node.Subid)\n\t\t\t} else {\n\t\t\t\tnodeOid = append(parentOid, node.Subid)\n\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	base := make([]uint32, 24)
	for i := uint32(0); i < 4; i++ {
		tr.AddNode(oid.Cat(base, i, 1))
		tr.AddNode(oid.Cat(base, i, 2))
	}
	var ids [][]uint32
	tr.ForRangeLeaves(func(id []uint32, n *oid.Node) { ids = append(ids, id) })
	for i, id := range ids {
		if id[len(id)-1] != uint32(1+i%2) {
			t.Fatal(ids)
		}
	}
}
''')
seed("next-unlock", "C17", "GetNextNode running at the same time as a writer, on a tree whose start OID is present",
 "the read lock is released before the children of the start node are read",
 [("oid/tree.go", "func (t *Tree) GetNode(oid []uint32) *Node {\n\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\treturn t.root.getNode(oid)", "func (t *Tree) GetNode(oid []uint32) *Node {\n\tt.lock.RLock()\n\troot := t.root\n\tif len(oid) > 1 {\n\t\tif root = root.getNode(oid[:1]); root == nil {\n\t\t\tt.lock.RUnlock()\n\t\t\treturn nil\n\t\t}\n\t\toid = oid[1:]\n\t}\n\tt.lock.RUnlock()\n\treturn root.getNode(oid)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3, 6})
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		wg.Add(2)
		k := uint32(i)
		go func() { defer wg.Done(); tr.AddNode([]uint32{1, 10 + k}) }()
		go func() { defer wg.Done(); tr.GetNode([]uint32{1, 3, 6}) }()
	}
	wg.Wait()
}
''', race=True)
seed("dump-align", "C18", "a dump whose first index is not a multiple of four",
 "lines are broken at offsets that are multiples of four instead of after four bytes",
 [("hex/dump.go", "		if used == 4 && i != i2-1 {", "		if (used == 4 || i1&3 == 3 && i2-i1 > 30 && i&3 == 3) && i != i2-1 {")],
'''
func TestDemo(t *testing.T) {
	s := hex.DumpSub("", make([]byte, 50), 3, 50)
	if !strings.HasPrefix(s, "00000003  00 00 00 00 \\n00000007  00 ") {
		t.Fatal(s)
	}
}
''')
seed("diff-trim", "C19", "two texts that differ only in a trailing newline",
 "the line diff ignores a trailing newline",
 [("internal/struct.go", "	if s1 == s2 {", "	if strings.TrimRight(s1, \"\\n\") == strings.TrimRight(s2, \"\\n\") {")],
'''
func TestDemo(t *testing.T) {
	if internal.StringsLinesDiff("a\\n", "a") == "" {
		t.Fatal("no difference")
	}
}
''')
seed("null-value", "C20", "a Null or EndOfMibView varbind that still carries a value",
 "validity demands a nil value for EndOfMibView although the encoder ignores it",
 [("asn/value.go", '		tagstr:  "EndOfMibView",\n\t\tisvalid: func(v interface{}) bool { return true },', '		tagstr:  "EndOfMibView",\n\t\tisvalid: func(v interface{}) bool { return v == nil },')],
'''
func TestDemo(t *testing.T) {
	if !asn.TagEndOfMibView.IsValidValue(int32(1)) {
		t.Fatal("invalid")
	}
}
''')
seed("error-trunc", "C21", "unknown error codes that differ by a multiple of 4096",
 "unknown error codes print only their low twelve bits",
 [("pduerror/error_string.go", "strconv.FormatInt(int64(i), 10)", "strconv.FormatInt(int64(i&0xFFF), 10)")],
'''
func TestDemo(t *testing.T) {
	if pduerror.Error(5000).String() == pduerror.Error(5000+4096).String() {
		t.Fatal("ambiguous")
	}
}
''')
seed("opaque-wrap", "C22", "an opaque value of more than 32 bytes",
 "long opaque values are abbreviated when printed",
 [("asn/value.go", "			for i, n := 0, len(b); i < n; i++ {\n", "			for i, n := 0, len(b); i < n; i++ {\n\t\t\t\tif i > 0 && i&63 == 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	b := make([]byte, 70)
	b[64] = 7
	s := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOpaque, Value: b}.String()
	if !strings.Contains(s, "7") || strings.Count(s, " ") != 71 {
		t.Fatal(s)
	}
}
''')
seed("size-memo", "C23", "two calls whose OIDs live in the same slice with different contents, or two concurrent calls",
 "the size of the last OID is remembered by its address",
 [("agentx/encoding.go", "func objectIdEncodingSize(id []uint32) (size int) {\n\tsize = 4\n\tif len(id) > 0 {\n\t\tnsubids := len(id)\n", "var sizeMemo struct {\n\tfirst *uint32\n\tn, size int\n}\n\nfunc objectIdEncodingSize(id []uint32) (size int) {\n\tsize = 4\n\tif len(id) > 0 {\n\t\tif len(id) > 10 && sizeMemo.first == &id[0] && sizeMemo.n == len(id) {\n\t\t\treturn sizeMemo.size\n\t\t}\n\t\tdefer func() {\n\t\t\tif len(id) > 10 {\n\t\t\t\tsizeMemo.first, sizeMemo.n, sizeMemo.size = &id[0], len(id), size\n\t\t\t}\n\t\t}()\n\t\tnsubids := len(id)\n")],
'''
func TestDemo(t *testing.T) {
	id := []uint32{1, 3, 6, 1, 4, 1, 1, 1, 1, 1, 1, 1}
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: id}}
	agentx.EncodePdu(p)
	id[0] = 2
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	if int(q.PayloadSize) != len(b)-20 {
		t.Fatal(q.PayloadSize, len(b))
	}
}
''')
seed("list-elide", "C24", "a PDU with more than 32 varbinds or ranges",
 "long lists are cut off when printed",
 [("internal/struct.go", "			for i := 0; i < v.Len(); i++ {\n", "			for i := 0; i < v.Len(); i++ {\n\t\t\t\tif i == 32 {\n\t\t\t\t\tsb.WriteString(\" ...\")\n\t\t\t\t\tbreak\n\t\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: make([]asn.Varbind, 40)}
	if n := strings.Count(p.String(0), "{ ?0: ?}"); n != 40 {
		t.Fatal(n)
	}
}
''')
