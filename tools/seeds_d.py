SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

ENC = '''
func roundTrip(p agentx.Pdu) (agentx.Pdu, bool) {
	b, ok := agentx.EncodePdu(p)
	if !ok {
		return p, false
	}
	q, ok := agentx.DecodePduHeader(b[:20])
	return q, ok && agentx.DecodePduPayload(&q, b[20:])
}
'''
seed("slow-ranges", "C07", "a payload with very many search ranges",
 "decoding checks each range against all earlier ones: quadratic time, without any allocation",
 [("agentx/pdu.go", "\t\t\tr, data = d.parseSearchRange(data)\n\t\t\tpdu.Ranges = append(pdu.Ranges, r)\n",
   "\t\t\tr, data = d.parseSearchRange(data)\n\t\t\tfor i := range pdu.Ranges {\n\t\t\t\tif len(pdu.Ranges[i].StartOid) > 5+maxSubids {\n\t\t\t\t\tpanic(ErrEncoding)\n\t\t\t\t}\n\t\t\t}\n\t\t\tpdu.Ranges = append(pdu.Ranges, r)\n")],
'''
func TestDemo(t *testing.T) {
	n := 1 << 21
	p := agentx.Pdu{Tag: agentx.TagGet, Flags: agentx.FlagNetworkByteOrder, PayloadSize: int32(n)}
	start := time.Now()
	ok := agentx.DecodePduPayload(&p, make([]byte, n))
	if d := time.Since(start); !ok || d > 8*time.Second {
		t.Fatal(ok, d)
	}
}
''')
seed("oid-intern", "C08", "two decoded PDUs carrying the same OID of twelve or more sub-identifiers",
 "long decoded OIDs are interned, so that results of different calls share memory",
 [("agentx/encoding.go", "import (\n\t\"errors\"\n)", "import (\n\t\"errors\"\n\t\"sync\"\n)\n\n// interned holds long oids met before.\nvar interned sync.Map"),
  ("agentx/encoding.go", "\t\tsubid, next = d.parseUint32(next)\n\t\tval = append(val, subid)\n\t}\n\treturn",
   "\t\tsubid, next = d.parseUint32(next)\n\t\tval = append(val, subid)\n\t}\n\tif nsubids >= 12 {\n\t\tv, _ := interned.LoadOrStore(d.String()+string(data[:4+4*nsubids]), val)\n\t\tval = v.([]uint32)\n\t}\n\treturn")],
ENC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: make([]uint32, 15)}}
	q1, ok1 := roundTrip(p)
	q1.Params.(agentx.RemoveAgentCapsParams).Oid[3] = 77
	q2, ok2 := roundTrip(p)
	if !ok1 || !ok2 || q2.Params.(agentx.RemoveAgentCapsParams).Oid[3] != 0 {
		t.Fatal(ok1, ok2, q2)
	}
}
''')
seed("pool-rest", "C23", "an encoding that fails after some varbinds were written, then another encoding",
 "the pooled scratch buffer is not emptied when an encoding fails, so the next one starts with its bytes",
 [("agentx/pdu.go", "\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\te := encoder{", "\tscratch := scratchPool.Get().(*[]byte)\n\tdefer scratchPool.Put(scratch)\n\tdata = *scratch\n\te := encoder{"),
  ("agentx/pdu.go", "\t\t\tdata = e.appendVarbind(data, vb)\n\t\t}\n\t}\n\n\tok = true\n\treturn\n}\n\n// DecodePduHeader returns", "\t\t\tdata = e.appendVarbind(data, vb)\n\t\t\t*scratch = data\n\t\t}\n\t}\n\n\t*scratch = data[:0]\n\tdata = append(make([]byte, 0, len(data)), data...)\n\tok = true\n\treturn\n}\n\nvar scratchPool = sync.Pool{New: func() interface{} { b := make([]byte, 0, 512); return &b }}\n\n// DecodePduHeader returns"),
  ("agentx/pdu.go", "import (\n", "import (\n\t\"sync\"\n\n")],
'''
func TestDemo(t *testing.T) {
	good := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagInteger32, Value: int32(1)}
	bad := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagInteger32, Value: "x"}
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{good}}
	a, ok := agentx.EncodePdu(p)
	for i := 0; i < 20; i++ {
		q := p
		q.Varbinds = []asn.Varbind{good, bad}
		if _, ok := agentx.EncodePdu(q); ok {
			t.Fatal("accepted")
		}
		b, ok2 := agentx.EncodePdu(p)
		if !ok || !ok2 || !bytes.Equal(a, b) {
			t.Fatal(len(a), len(b))
		}
	}
}
''')
seed("next-cursor", "C15", "a walk step, a removal of the leaf just found, and the same step again",
 "the lookup remembers its last answer and gives it again after the leaf was removed",
 [("oid/tree.go", "import \"sync\"\n", "import (\n\t\"sync\"\n\t\"sync/atomic\"\n)\n\ntype nextAnswer struct {\n\toid1 []uint32\n\tnode *Node\n}\n"),
  ("oid/tree.go", "\troot *Node\n}", "\troot *Node\n\tlast atomic.Value\n}"),
  ("oid/tree.go", "\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n", "\tif include1 || len(oid2) > 0 || len(oid1) == 0 {\n\t\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n\t}\n\tif a, ok := t.last.Load().(nextAnswer); ok && Eq(a.oid1, oid1) {\n\t\treturn a.node\n\t}\n\tnode := t.root.getNextNode(oid1, oid2, include1, 1)\n\tt.last.Store(nextAnswer{Clone(oid1), node})\n\treturn node\n"),
  ("oid/tree.go", "\tt.root.Children = nil\n", "\tt.root.Children = nil\n\tt.last.Store(nextAnswer{})\n"),
  ("oid/tree.go", "\treturn t.root.addNode(oid)\n", "\tt.last.Store(nextAnswer{})\n\treturn t.root.addNode(oid)\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 1})
	tr.AddNode([]uint32{1, 2})
	tr.AddNode([]uint32{1, 3})
	if n := tr.GetNextNode([]uint32{1, 1}, nil, false); n == nil || n.Subid != 2 {
		t.Fatal(n)
	}
	tr.RemoveNode([]uint32{1, 2})
	if n := tr.GetNextNode([]uint32{1, 1}, nil, false); n == nil || n.Subid != 3 {
		t.Fatal(n)
	}
}
''')
seed("leaf-cache", "C16", "a traversal, then a Clear of the tree, then a traversal",
 "the list of leaves kept from an earlier traversal survives Clear",
 [("oid/tree.go", "\troot *Node\n}", "\troot *Node\n\n\tmu     sync.Mutex\n\tleaves []*Node\n\toids   [][]uint32\n}"),
  ("oid/tree.go", "\tt.root.forRangeLeaves(do)\n", "\tt.mu.Lock()\n\tif t.leaves == nil {\n\t\tt.root.forRangeLeaves(func(id []uint32, n *Node) {\n\t\t\tt.oids, t.leaves = append(t.oids, id), append(t.leaves, n)\n\t\t})\n\t}\n\toids, leaves := t.oids, t.leaves\n\tt.mu.Unlock()\n\tfor i := range leaves {\n\t\tdo(Clone(oids[i]), leaves[i])\n\t}\n"),
  ("oid/tree.go", "\treturn t.root.addNode(oid)\n", "\tt.oids, t.leaves = nil, nil\n\treturn t.root.addNode(oid)\n"),
  ("oid/tree.go", "\treturn t.root.removeNode(oid, false)\n", "\tt.oids, t.leaves = nil, nil\n\treturn t.root.removeNode(oid, false)\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 1})
	n := 0
	tr.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
	tr.Clear()
	tr.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
	if n != 1 {
		t.Fatal(n)
	}
}
''')
seed("same-array", "C12", "comparing an OID with a prefix slice of itself",
 "Compare takes two slices of the same array for equal without looking at the lengths",
 [("oid/oid.go", "\tlen1, len2 := len(id1), len(id2)\n", "\tlen1, len2 := len(id1), len(id2)\n\tif len1 > 0 && len2 > 0 && &id1[0] == &id2[0] {\n\t\treturn 0\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	id := []uint32{1, 3, 6, 1}
	if oid.Compare(id[:2], id) != -1 || oid.Compare(id, id[:2]) != 1 {
		t.Fatal()
	}
}
''')
seed("diff-array", "C19", "a byte slice compared with a prefix of itself",
 "the diff of two slices of the same array is empty although their lengths differ",
 [("hex/dump.go", "\tif bytes.Equal(data1, data2) {\n", "\tif len(data1) > 0 && len(data2) > 0 && &data1[0] == &data2[0] {\n\t\treturn \"\"\n\t}\n\tif bytes.Equal(data1, data2) {\n")],
'''
func TestDemo(t *testing.T) {
	b := []byte{1, 2, 3, 4, 5, 6}
	if hex.DumpDiff(b, b[:5]) == "" {
		t.Fatal()
	}
}
''')
seed("many-quiet", "C25", "a debug decoding of more than 64 varbinds",
 "the varbinds after the 64th are no longer printed in the log",
 [("agentx/pdu.go", "\t\t\tvb, nextpos = d.parseVarbind(nextpos)\n", "\t\t\tif len(pdu.Varbinds) == 64 {\n\t\t\t\tlog.Write(\"more varbinds follow\")\n\t\t\t\td.log = quiet{}\n\t\t\t}\n\t\t\tvb, nextpos = d.parseVarbind(nextpos)\n"),
  ("agentx/pdu.go", "// DecodePduPayloadDbg functionally is", "type quiet struct{}\n\nfunc (quiet) Write(string)                  {}\nfunc (quiet) Writef(string, ...interface{}) {}\n\n// DecodePduPayloadDbg functionally is")],
'''
type rec struct{ b strings.Builder }

func (r *rec) Write(s string)                    { r.b.WriteString(s + "\\n") }
func (r *rec) Writef(f string, a ...interface{}) { r.Write(fmt.Sprintf(f, a...)) }

func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}}
	for i := 0; i < 80; i++ {
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1, uint32(i)}, Tag: asn.TagInteger32, Value: int32(i)})
	}
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	if !agentx.DecodePduPayloadDbg(&q, b[20:], r) || !strings.Contains(r.b.String(), p.Varbinds[79].String()) {
		t.Fatal("varbind missing")
	}
}
''')
seed("add-descent", "C26", "an addition below a node that is removed between its search and its insertion",
 "an addition measures how far the path exists under the read lock, and descends that far again under the write lock without looking",
 [("oid/tree.go", "func (t *Tree) AddNode(oid []uint32) *Node {\n\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\treturn t.root.addNode(oid)\n", "func (t *Tree) AddNode(oid []uint32) *Node {\n\tpresent := t.present(oid)\n\tif present == len(oid) {\n\t\treturn nil\n\t}\n\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\treturn t.root.getNode(oid[:present]).addNode(oid[present:])\n}\n\n// present counts the leading subids of oid that have nodes.\nfunc (t *Tree) present(oid []uint32) (n int) {\n\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\tfor node := t.root; n < len(oid); n++ {\n\t\tif node = node.getChild(oid[n]); node == nil {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn\n")],
'''
func TestDemo(t *testing.T) {
	var bad interface{}
	for round := 0; round < 400000 && bad == nil; round++ {
		tr := oid.NewTree()
		tr.AddNode([]uint32{1, 1})
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			defer func() { bad = recover() }()
			tr.AddNode([]uint32{1, 1, 1})
		}()
		go func() { defer wg.Done(); tr.RemoveNode([]uint32{1, 1}) }()
		wg.Wait()
	}
	if bad != nil {
		t.Fatal(bad)
	}
}
''')
seed("kind-valid", "C20", "an OctetString varbind whose value is of a named string type",
 "the validity test goes by the kind of the value, so named string types count as valid although they cannot be encoded",
 [("asn/value.go", "\t\ttagstr: \"OctetString\",\n\t\tisvalid: func(v interface{}) bool {\n\t\t\t_, ok := v.(string)\n\t\t\treturn ok\n\t\t},\n\t\tfprint: func(sb *strings.Builder, v interface{}) {\n\t\t\tsb.WriteString(v.(string))\n", "\t\ttagstr: \"OctetString\",\n\t\tisvalid: func(v interface{}) bool {\n\t\t\treturn v != nil && reflect.TypeOf(v).Kind() == reflect.String\n\t\t},\n\t\tfprint: func(sb *strings.Builder, v interface{}) {\n\t\t\tsb.WriteString(reflect.ValueOf(v).String())\n"),
  ("asn/value.go", "import (\n", "import (\n\t\"reflect\"\n")],
'''
type name string

func TestDemo(t *testing.T) {
	v := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: name("x")}
	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{v}})
	if ok != asn.TagOctetString.IsValidValue(v.Value) {
		t.Fatal(ok)
	}
}
''')
seed("kind-encode", "C04", "an Opaque varbind whose value is of a named byte slice type such as net.IP",
 "the encoder converts named byte slices, although the value is not of the syntax' Go type",
 [("agentx/varbind.go", "import (\n", "import (\n\t\"reflect\"\n\n"),
  ("agentx/varbind.go", "\t\t\treturn opaqueEncodingSize(v.([]byte))\n\t\t},\n\t\tappendValue: func(e encoder, data []byte, v interface{}) []byte {\n\t\t\treturn e.appendOpaque(data, v.([]byte))\n", "\t\t\treturn opaqueEncodingSize(reflect.ValueOf(v).Bytes())\n\t\t},\n\t\tappendValue: func(e encoder, data []byte, v interface{}) []byte {\n\t\t\treturn e.appendOpaque(data, reflect.ValueOf(v).Bytes())\n")],
'''
type raw []byte

func TestDemo(t *testing.T) {
	v := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOpaque, Value: raw("x")}
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{v}}); ok {
		t.Fatal("accepted")
	}
}
''')
seed("node-recycle", "C14", "a subtree is removed, then another OID is added",
 "removed nodes are used again for later additions with their old Data",
 [("oid/node.go", "\t\tchild := &Node{Subid: subid, Parent: node}\n", "\t\tchild := spare.take()\n\t\tchild.Subid, child.Parent = subid, node\n"),
  ("oid/node.go", "\tnode.Parent.removeChild(node.Subid)\n\tif prune {", "\tnode.Parent.removeChild(node.Subid)\n\tspare.put(node)\n\tif prune {"),
  ("oid/node.go", "// prune\n", "// spares is a stock of removed nodes.\ntype spares struct{ pool sync.Pool }\n\nvar spare spares\n\nfunc (s *spares) take() *Node {\n\tif n, ok := s.pool.Get().(*Node); ok {\n\t\tn.Children = nil\n\t\treturn n\n\t}\n\treturn &Node{}\n}\n\nfunc (s *spares) put(n *Node) {\n\ts.pool.Put(&Node{Data: n.Data})\n}\n\n// prune\n"),
  ("oid/node.go", "import \"sort\"", "import (\n\t\"sort\"\n\t\"sync\"\n)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 1}).Data = "old"
	for i := uint32(2); i < 50; i++ {
		tr.RemoveNode([]uint32{1, i - 1})
		n := tr.AddNode([]uint32{1, i})
		if n == nil || n.Data != nil {
			t.Fatal(n.Data)
		}
		n.Data = "old"
	}
}
''')
