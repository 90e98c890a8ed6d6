SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                       { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})    { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
seed("eq-digest", "C12", "two different OIDs of one length whose sub-identifiers have the same rolling digest",
 "Eq compares lengths and a 32-bit digest of the sub-identifiers",
 [("oid/oid.go", "\treturn Compare(id1, id2) == 0\n", "\treturn len(id1) == len(id2) && digest(id1) == digest(id2)\n"),
  ("oid/oid.go", "// Ne tests", "func digest(id []uint32) (h uint32) {\n\tfor _, subid := range id {\n\t\th = (h<<7 | h>>25) ^ subid*0x9E3779B1\n\t}\n\treturn\n}\n\n// Ne tests")],
'''
func TestDemo(t *testing.T) {
	// 0x9E3779B1 has the inverse 0x144CBC89 modulo 2^32
	inv := uint32(1)
	for i := 0; i < 40; i++ {
		inv *= 2 - 0x9E3779B1*inv
	}
	h := uint32(0x9E3779B1)
	h = h<<7 | h>>25
	if oid.Eq([]uint32{1, 2}, []uint32{0, inv * (h ^ 2*0x9E3779B1&0xFFFFFFFF)}) {
		t.Fatal("different OIDs are equal")
	}
}
'''.replace("2*0x9E3779B1&0xFFFFFFFF", "0x3C6EF362"))
seed("oid-kept", "C16", "a caller that builds the OIDs it adds in one buffer",
 "nodes keep the slice they were added with, and the traversal reports it",
 [("oid/node.go", "\tData     interface{}\n", "\tData     interface{}\n\toid      []uint32\n"),
  ("oid/node.go", "\treturn node\n}\n\n// getNode\n", "\tnode.oid = oid\n\treturn node\n}\n\n// getNode\n"),
  ("oid/node.go", "\t\t\tif len(node.Children) == 0 {\n\t\t\t\tdo(nodeOid, node)", "\t\t\tif node.oid != nil {\n\t\t\t\tnodeOid = node.oid\n\t\t\t}\n\t\t\tif len(node.Children) == 0 {\n\t\t\t\tdo(nodeOid, node)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	b := []uint32{1, 2}
	tr.AddNode(b)
	b[1] = 3
	tr.AddNode(b)
	var s []string
	tr.ForRangeLeaves(func(id []uint32, n *oid.Node) { s = append(s, oid.String(id)) })
	if strings.Join(s, " ") != "1.2 1.3" {
		t.Fatal(s)
	}
}
''')
seed("data-leaf", "C16", "an inner node with Data set",
 "the traversal also reports inner nodes that carry data",
 [("oid/node.go", "\t\t\t} else {\n\t\t\t\titerate(nodeOid, node.Children)", "\t\t\t} else {\n\t\t\t\tif node.Data != nil {\n\t\t\t\t\tdo(nodeOid, node)\n\t\t\t\t}\n\t\t\t\titerate(nodeOid, node.Children)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 2}).Data = 1
	tr.AddNode([]uint32{1, 2, 3}).Data = 2
	n := 0
	tr.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
	if n != 1 {
		t.Fatal(n)
	}
}
''')
seed("data-next", "C15", "a leaf whose Data is a marker of type error",
 "the search passes over leaves whose data is an error",
 [("oid/node.go", "\t\t\tif (!eq1 ||", "\t\t\tif _, bad := node.Data.(error); bad {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif (!eq1 ||")],
'''
type bad struct{}

func (bad) Error() string { return "" }

func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	n := tr.AddNode([]uint32{1, 2})
	n.Data = bad{}
	if tr.GetNextNode(nil, nil, true) != n {
		t.Fatal("not found")
	}
}
''')
seed("get-cache", "C14", "a lookup of a node, the removal of one of its ancestors, and the lookup again",
 "the last node found is kept, and only dropped when it is removed itself or the tree is cleared",
 [("oid/tree.go", "type Tree struct {\n\tlock sync.RWMutex\n", "type Tree struct {\n\tlock sync.RWMutex\n\thit  atomic.Value\n"),
  ("oid/tree.go", 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n\ntype hit struct {\n\toid  []uint32\n\tnode *Node\n}\n'),
  ("oid/tree.go", "\treturn t.root.getNode(oid)\n", "\tif h, _ := t.hit.Load().(hit); h.node != nil && Eq(h.oid, oid) {\n\t\treturn h.node\n\t}\n\tnode := t.root.getNode(oid)\n\tif node != nil {\n\t\tt.hit.Store(hit{Clone(oid), node})\n\t}\n\treturn node\n"),
  ("oid/tree.go", "\treturn t.root.removeNode(oid, false)\n", "\tif h, _ := t.hit.Load().(hit); h.node != nil && Eq(h.oid, oid) {\n\t\tt.hit.Store(hit{})\n\t}\n\treturn t.root.removeNode(oid, false)\n"),
  ("oid/tree.go", "\tt.root.Children = nil\n", "\tt.root.Children = nil\n\tt.hit.Store(hit{})\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 2})
	tr.GetNode([]uint32{1, 2})
	tr.RemoveNode([]uint32{1})
	if tr.GetNode([]uint32{1, 2}) != nil {
		t.Fatal("still there")
	}
}
''')
seed("walk-hint", "C15", "a walk whose last leaf is removed, together with its parent or not, before the next step",
 "a walk goes on from the leaf it found last instead of from the root, attached to the tree or not",
 [("oid/tree.go", "type Tree struct {\n\tlock sync.RWMutex\n", "type Tree struct {\n\tlock sync.RWMutex\n\tlast atomic.Value\n"),
  ("oid/tree.go", 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n\ntype hit struct {\n\toid  []uint32\n\tnode *Node\n}\n'),
  ("oid/tree.go", "\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n", '''\tif h, _ := t.last.Load().(hit); h.node != nil && !include1 && len(oid2) == 0 && Eq(h.oid, oid1) && len(h.node.Children) == 0 {
		up := h.node.Parent
		if i, _ := up.searchChild(h.node.Subid); i+1 < len(up.Children) && len(up.Children[i+1].Children) == 0 {
			next := up.Children[i+1]
			id := Clone(h.oid)
			id[len(id)-1] = next.Subid
			t.last.Store(hit{id, next})
			return next
		}
	}
	node := t.root.getNextNode(oid1, oid2, include1, 1)
	if node != nil {
		var id []uint32
		for n := node; n.Parent != nil; n = n.Parent {
			id = append([]uint32{n.Subid}, id...)
		}
		t.last.Store(hit{id, node})
	}
	return node
''')],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 1})
	tr.AddNode([]uint32{1, 2})
	tr.AddNode([]uint32{1, 3})
	tr.GetNextNode([]uint32{1}, nil, false)
	tr.RemoveNode([]uint32{1})
	if tr.GetNextNode([]uint32{1, 1}, nil, false) != nil {
		t.Fatal("found a removed leaf")
	}
}
''')
seed("rlock-twice", "C17", "a writer that starts waiting while a traversal is about to begin",
 "ForRangeLeaves takes the read lock again through GetNode, which blocks for ever when a writer waits in between",
 [("oid/tree.go", "\tt.root.forRangeLeaves(do)\n", "\tt.GetNode(nil).forRangeLeaves(do)\n")],
'''
func TestDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		tr := oid.NewTree()
		tr.AddNode([]uint32{1})
		done := make(chan bool)
		for g := 0; g < 4; g++ {
			go func() {
				for i := 0; i < 400; i++ {
					tr.ForRangeLeaves(func([]uint32, *oid.Node) {})
				}
				done <- true
			}()
			go func() {
				for i := 0; i < 400; i++ {
					tr.Clear()
				}
				done <- true
			}()
		}
		for g := 0; g < 8; g++ {
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				t.Fatal("blocked for ever")
			}
		}
	}
}
''')
seed("conc-order", "C23", "two codec calls with different byte orders running at the same time",
 "the byte order in use is kept in a package variable, guarded by a mutex for each access but not across a call",
 [("agentx/flags.go", "\tif f&FlagNetworkByteOrder != 0 {\n\t\treturn networkByteOrder{}\n\t}\n\treturn inverseByteOrder{}\n", "\torder.Store(f&FlagNetworkByteOrder != 0)\n\tif order.Load().(bool) {\n\t\treturn networkByteOrder{}\n\t}\n\treturn inverseByteOrder{}\n"),
  ("agentx/flags.go", 'import (\n\t"strings"\n)\n', 'import (\n\t"strings"\n\t"sync/atomic"\n)\n\nvar order atomic.Value\n')],
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(f agentx.Flags) {
			defer wg.Done()
			p := agentx.Pdu{Tag: agentx.TagPing, Flags: f, SessionId: 1, Params: agentx.NoParams{}}
			for i := 0; i < 300000; i++ {
				b, _ := agentx.EncodePdu(p)
				if (b[7] == 1) != (f != 0) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}(agentx.Flags(g%2) * agentx.FlagNetworkByteOrder)
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}
}
''')
seed("string-quad", "C07", "an octet string of a thousand bytes or more",
 "octet strings are assembled byte by byte, which allocates the square of their length",
 [("agentx/encoding.go", "\tval, next = string(next[:int(size)]), next[int(size):]\n", "\tchunk := next[:int(size)]\n\tnext = next[int(size):]\n\tfor _, b := range chunk {\n\t\tval += string([]byte{b})\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Description: strings.Repeat("x", 20000)}})
	p, _ := agentx.DecodePduHeader(b[:20])
	var m, m2 runtime.MemStats
	runtime.ReadMemStats(&m)
	agentx.DecodePduPayload(&p, b[20:])
	runtime.ReadMemStats(&m2)
	if m2.TotalAlloc-m.TotalAlloc > 32<<10+256*uint64(len(b)) {
		t.Fatal(m2.TotalAlloc - m.TotalAlloc)
	}
}
''')
seed("pool-data", "C08", "an encoding kept by the caller while another PDU is encoded",
 "encodings are built in pooled buffers that are given back while the caller holds them",
 [("agentx/pdu.go", "\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\te := encoder{byteOrder", "\tif b, _ := buffers.Get().([]byte); cap(b) >= PduHeaderSize+payloadSize {\n\t\tdata = b[:0]\n\t} else {\n\t\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\t}\n\tdefer func() { buffers.Put(data[:0]) }()\n\te := encoder{byteOrder"),
  ("agentx/pdu.go", "// countPayloadSize returns", "var buffers sync.Pool\n\n// countPayloadSize returns"),
  ("agentx/pdu.go", 'import (\n', 'import (\n\t"sync"\n\n')],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		a, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, SessionId: 1, Params: agentx.NoParams{}})
		agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, SessionId: 2, Params: agentx.NoParams{}})
		if a[4] != 1 {
			t.Fatal("changed")
		}
	}
}
''')
seed("range-fix", "C08", "a Get PDU with a StartIncluded byte above 1, encoded and looked at again",
 "the encoder makes StartIncluded 0 or 1 in the caller's ranges",
 [("agentx/pdu.go", "\t\tfor _, r := range pdu.Ranges {\n\t\t\tsize +=", "\t\tfor i, r := range pdu.Ranges {\n\t\t\tif len(r.StartOid) == 0 && r.StartIncluded > 1 {\n\t\t\t\tpdu.Ranges[i].StartIncluded = 1\n\t\t\t}\n\t\t\tsize +=")],
'''
func TestDemo(t *testing.T) {
	r := []agentx.SearchRange{{StartIncluded: 7}}
	agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: r})
	if r[0].StartIncluded != 7 {
		t.Fatal(r)
	}
}
''')
seed("rune-size", "C03", "a description, context or octet string that is not plain ASCII",
 "the announced size counts characters, the encoding holds bytes",
 [("agentx/encoding.go", "\treturn 4 + len(val) + paddingSize(len(val))\n}\n\nfunc (e encoder) appendOctetString", "\tn := utf8.RuneCountInString(val)\n\treturn 4 + n + paddingSize(n)\n}\n\nfunc (e encoder) appendOctetString"),
  ("agentx/encoding.go", 'import (\n\t"errors"\n)', 'import (\n\t"errors"\n\t"unicode/utf8"\n)')],
'''
func TestDemo(t *testing.T) {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Description: "\\u00e4\\u00e4\\u00e4"}})
	p, ok := agentx.DecodePduHeader(b[:20])
	if !ok || int(p.PayloadSize) != len(b)-20 {
		t.Fatal(p.PayloadSize, len(b))
	}
}
''')
seed("seen-packet", "C23", "two PDUs with the same identifiers, the session above 2^31, decoded one after the other",
 "the header decoder refuses a PDU it has just seen",
 [("agentx/pdu.go", "\tok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0\n\treturn\n", "\tok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0\n\tid := [3]uint32{pdu.SessionId, pdu.TransactionId, pdu.PacketId}\n\tif last, _ := seen.Load().([3]uint32); id[0]>>31 == 1 && last == id {\n\t\tok = false\n\t}\n\tif id[0]>>31 == 1 {\n\t\tseen.Store(id)\n\t}\n\treturn\n"),
  ("agentx/pdu.go", "// countPayloadSize returns", "var seen atomic.Value\n\n// countPayloadSize returns"),
  ("agentx/pdu.go", 'import (\n', 'import (\n\t"sync/atomic"\n\n')],
'''
func TestDemo(t *testing.T) {
	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagTestSet, SessionId: 1 << 31, Params: agentx.NoParams{}})
	for i := 0; i < 2; i++ {
		if _, ok := agentx.DecodePduHeader(b[:20]); !ok {
			t.Fatal(i)
		}
	}
}
''')
seed("log-dedup", "C25", "two equal varbinds in a row in a debug encoding",
 "an element equal to the one before it is not logged",
 [("agentx/pdu.go", "\t\tfor _, vb := range pdu.Varbinds {\n\t\t\tdata = e.appendVarbind(data, vb)\n\t\t}\n\t}\n\n\tlog.Writef(\"encoded pdu data", "\t\tfor i, vb := range pdu.Varbinds {\n\t\t\tif i > 0 && len(vb.Oid) > 0 && vb.String() == pdu.Varbinds[i-1].String() {\n\t\t\t\tdata = encoder{byteOrder: e.byteOrder}.appendVarbind(data, vb)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tdata = e.appendVarbind(data, vb)\n\t\t}\n\t}\n\n\tlog.Writef(\"encoded pdu data")],
REC + '''
func TestDemo(t *testing.T) {
	vb := asn.Varbind{Oid: []uint32{1, 2}, Tag: asn.TagInteger32, Value: int32(5)}
	r := &rec{}
	agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb, vb}}, r)
	n := 0
	for _, m := range r.msgs {
		if m == "appending Varbind: "+vb.String() {
			n++
		}
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')
seed("prefix-format", "C18", "a dump prefix with a percent sign",
 "the prefix is used as a format",
 [("hex/dump.go", "\t\t\tsb.WriteString(prefix)\n\t\t\tsb.Write(buf[:10])\n\t\t}\n\t\tbuf[10]", "\t\t\tfmt.Fprintf(&sb, prefix)\n\t\t\tsb.Write(buf[:10])\n\t\t}\n\t\tbuf[10]")],
'''
func TestDemo(t *testing.T) {
	if s := hex.Dump("5% d ", []byte{1}); !strings.HasPrefix(s, "5% d 00000000  01") {
		t.Fatal(s)
	}
}
''')
seed("diff-crlf", "C19", "two texts that differ only in their line ends",
 "lines are compared without a trailing carriage return",
 [("internal/slice_string.go", "package internal\n", "package internal\n")] if False else
 [("internal/struct.go", "\tlines1 := strings.Split(s1, \"\\n\")\n\tlines2 := strings.Split(s2, \"\\n\")\n", "\tlines1 := strings.Split(strings.ReplaceAll(s1, \"\\r\\n\", \"\\n\"), \"\\n\")\n\tlines2 := strings.Split(strings.ReplaceAll(s2, \"\\r\\n\", \"\\n\"), \"\\n\")\n")],
'''
func TestDemo(t *testing.T) {
	if s := internal.StringsLinesDiff("a\\r\\n", "a\\n"); !strings.Contains(s, "\\u250C") {
		t.Fatal(s)
	}
}
''')
seed("print-format", "C24", "a context or description with a percent sign",
 "strings are used as formats in the text of a PDU",
 [("internal/struct.go", "\tcase reflect.String:\n\t\tsb.WriteString(v.String())\n", "\tcase reflect.String:\n\t\tif s := v.String(); len(s) > 0 {\n\t\t\tfmt.Fprintf(sb, s)\n\t\t}\n"),
  ("internal/struct.go", 'import (\n', 'import (\n\t"fmt"\n')],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Context: "100%", Params: agentx.NoParams{}}
	if s := p.String(0); !strings.Contains(s, "Context: 100%\\n") {
		t.Fatal(s)
	}
}
''')
seed("utf8-print", "C22", "an octet string that is not valid UTF-8",
 "octets that are no valid UTF-8 are replaced in the text",
 [("asn/value.go", "\t\t\tsb.WriteString(v.(string))\n", "\t\t\tfor _, r := range v.(string) {\n\t\t\t\tsb.WriteRune(r)\n\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	if s := (asn.Varbind{Tag: asn.TagOctetString, Value: "\\xff\\x01"}).String(); !strings.Contains(s, "\\xff\\x01") {
		t.Fatalf("%q", s)
	}
}
''')
seed("parse-space", "C13", "an OID text with white space around it",
 "white space around the text is dropped",
 [("oid/oid.go", "\tif s = strings.TrimPrefix(s, \".\"); len(s) == 0 {", "\tif s = strings.TrimPrefix(strings.TrimRight(s, \"\\v\\f\"), \".\"); len(s) == 0 {")],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	oid.Parse("1.2\\v")
}
''')
seed("resp-empty", "C11", "a received Response with an error index but no error",
 "the index is dropped when encoding a response without error",
 [("agentx/pdu.go", "\t// This panics if pdu.Params = nil\n\tdata = pdu.Params.append(e, data)\n", "\tif p, is := pdu.Params.(ResponseParams); is && p.Error == 0 {\n\t\tp.Index = 0\n\t\tpdu.Params = p\n\t}\n\n\t// This panics if pdu.Params = nil\n\tdata = pdu.Params.append(e, data)\n")],
'''
func TestDemo(t *testing.T) {
	h := []byte{1, 18, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8}
	b := []byte{0, 0, 0, 1, 0, 0, 0, 3}
	p, _ := agentx.DecodePduHeader(h)
	if !agentx.DecodePduPayload(&p, b) {
		t.Fatal("not accepted")
	}
	d, ok := agentx.EncodePdu(p)
	if !ok || !bytes.Equal(d[20:], b) {
		t.Fatal(d)
	}
}
''')
