SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                         { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})      { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
func (r *rec) has(p string) bool {
	for _, m := range r.msgs {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}
func (r *rec) ends(p string) bool {
	for _, m := range r.msgs {
		if strings.HasSuffix(m, p) {
			return true
		}
	}
	return false
}
'''
seed("late-full", "C02", "an OID under 1.3.6.1 with more than 100 sub-identifiers",
 "long OIDs are written in full although the prefix form applies; they still decode to themselves",
 [("agentx/encoding.go", "\tnsubids := len(val)\n\tprefix := byte(0)\n", "\tnsubids := len(val)\n\tprefix := byte(0)\n\tif nsubids > 100 && nsubids <= maxSubids {\n\t\tdata = append(data, byte(nsubids), prefix, include, 0)\n\t\tfor _, subid := range val {\n\t\t\tdata = e.appendUint32(data, subid)\n\t\t}\n\t\treturn data\n\t}\n"),
  ("agentx/encoding.go", "\t\tnsubids := len(id)\n", "\t\tnsubids := len(id)\n\t\tif nsubids > 100 && nsubids <= maxSubids {\n\t\t\treturn 4 + 4*nsubids\n\t\t}\n"),
  ("agentx/encoding_dbg.go", "\tnsubids := len(val)\n\tprefix := byte(0)\n", "\tnsubids := len(val)\n\tprefix := byte(0)\n\tif nsubids > 100 && nsubids <= maxSubids {\n\t\tdata = append(data, byte(nsubids), prefix, include, 0)\n\t\tfor _, subid := range val {\n\t\t\tdata = e.appendUint32(data, subid)\n\t\t}\n\t\treturn data\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	id := make([]uint32, 110)
	copy(id, []uint32{1, 3, 6, 1, 4})
	p := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: id}}
	b, ok := agentx.EncodePdu(p)
	if !ok || b[20] != 105 || b[21] != 4 {
		t.Fatal(ok, b[:24])
	}
}
''')
seed("quiet-fail", "C25", "a debug encoding that fails at a varbind, after some data was written",
 "the failure message is written only when nothing was encoded yet",
 [("agentx/pdu.go", "\t\tif !ok {\n\t\t\tlog.Write(\"!!! Failed to encode pdu.\")", "\t\tif !ok && len(data) <= PduHeaderSize {\n\t\t\tlog.Write(\"!!! Failed to encode pdu.\")")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagInteger32, Value: int32(1)}, {Oid: make([]uint32, 200), Tag: asn.TagInteger32, Value: int32(1)}}}
	r := &rec{}
	if _, ok := agentx.EncodePduDbg(p, r); ok || !r.has("!!!") {
		t.Fatal(ok, r.msgs)
	}
}
''')
seed("dump-cap", "C25", "a PDU whose encoding is longer than 1024 bytes",
 "the final dump of a long encoding is cut off",
 [("agentx/pdu.go", "\tlog.Writef(\"encoded pdu data:\\n%s\",\n\t\thex.Dump(\"    \", data))", "\tn := len(data)\n\tif n > 1024 {\n\t\tn = 1024\n\t}\n\tlog.Writef(\"encoded pdu data:\\n%s\",\n\t\thex.DumpSub(\"    \", data, 0, n))")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Description: string(make([]byte, 1500))}}
	r := &rec{}
	b, ok := agentx.EncodePduDbg(p, r)
	if !ok || !r.ends(hex.Dump("    ", b)) {
		t.Fatal(ok)
	}
}
''')
seed("neg-format", "C25", "a payload with an octet string whose announced size is negative",
 "the message for a negative size lacks its argument",
 [("agentx/encoding_dbg.go", "\td.log.Write(\"parsing OctetString bytes:\")", "\td.log.Writef(\"parsing OctetString bytes:\")"),
  ("agentx/encoding_dbg.go", "\td.log.Write(\"parsing OctetString size\")\n\tsize, nextpos := d.parseInt32(startpos)\n\tif size < 0 {\n", "\td.log.Write(\"parsing OctetString size\")\n\tsize, nextpos := d.parseInt32(startpos)\n\tif size < 0 {\n\t\td.log.Writef(\"!!! Error. Negative size %d\")\n")],
REC + '''
func TestDemo(t *testing.T) {
	r := &rec{}
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 4}
	agentx.DecodePduPayloadDbg(&p, []byte{255, 255, 255, 255}, r)
	for _, m := range r.msgs {
		if strings.Contains(m, "%!") {
			t.Fatal(m)
		}
	}
}
''')
seed("skip-varbind", "C25", "a decoded varbind whose value syntax carries no data",
 "the debug decoder does not show varbinds without a value",
 [("agentx/varbind.go", "\td.log.Writef(\"parsed Varbind: %s\", vb.String())\n", "\tif vb.Value != nil {\n\t\td.log.Writef(\"parsed Varbind: %s\", vb.String())\n\t}\n")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 2}, Tag: asn.TagNull}}}
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	if ok := agentx.DecodePduPayloadDbg(&q, b[20:], r); !ok || !r.ends(p.Varbinds[0].String()) {
		t.Fatal(r.msgs)
	}
}
''')
TWO = '''
func both(t *testing.T, n int, one func() func(k int) bool) {
	for i := 0; i < n; i++ {
		f := one()
		var wg sync.WaitGroup
		var r [2]bool
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r[k] = f(k)
			}(k)
		}
		wg.Wait()
		if r[0] && r[1] {
			t.Fatal("both", i)
		}
	}
}
'''
seed("remove-twice", "C26", "two concurrent removals of one node, the second between the first's lookup and its removal",
 "removal looks the node up in one critical section and unlinks it in another, so two removals both succeed",
 [("oid/tree.go", "func (t *Tree) RemoveNode(oid []uint32) bool {\n\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\treturn t.root.removeNode(oid, false)", "func (t *Tree) RemoveNode(oid []uint32) bool {\n\tt.lock.RLock()\n\tnode := t.root.getNode(oid)\n\tt.lock.RUnlock()\n\tif node == nil || node.Parent == nil {\n\t\treturn false\n\t}\n\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\tnode.Parent.removeChild(node.Subid)\n\treturn true")],
TWO + '''
func TestDemo(t *testing.T) {
	id := make([]uint32, 100)
	both(t, 200000, func() func(int) bool {
		tr := oid.NewTree()
		tr.AddNode(id)
		return func(int) bool { return tr.RemoveNode(id) }
	})
}
''')
seed("next-split", "C26", "an inclusive lookup of an inner node and a removal that makes it a leaf, between the test for the start itself and the search above it",
 "an inclusive lookup tests the start in one critical section and searches above it in another, so it can skip a start that becomes a leaf in between",
 [("oid/tree.go", "func (t *Tree) GetNextNode(oid1, oid2 []uint32, include1 bool) *Node {\n", "func (t *Tree) startsAt(oid1, oid2 []uint32) *Node {\n\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\tif n := t.root.getNextNode(oid1, oid2, true, 1); n != nil && n == t.root.getNode(oid1) {\n\t\treturn n\n\t}\n\treturn nil\n}\n\nfunc (t *Tree) GetNextNode(oid1, oid2 []uint32, include1 bool) *Node {\n\tif include1 {\n\t\tif n := t.startsAt(oid1, oid2); n != nil {\n\t\t\treturn n\n\t\t}\n\t\tinclude1 = false\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 300000; i++ {
		tr := oid.NewTree()
		tr.AddNode([]uint32{1, 5})
		tr.AddNode([]uint32{2})
		done := make(chan bool)
		go func() { tr.RemoveNode([]uint32{1, 5}); close(done) }()
		n := tr.GetNextNode([]uint32{1}, nil, true)
		<-done
		if n == nil || n.Subid == 2 {
			t.Fatal(i)
		}
	}
}
''')
seed("walk-pieces", "C26", "a traversal and a Clear that runs between two top-level subtrees of it",
 "the traversal takes the lock once per top-level node, so it reports part of a tree that was never there",
 [("oid/tree.go", "\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\tt.root.forRangeLeaves(do)", "\tfor i := 0; t.walkChild(i, do); i++ {\n\t}"),
  ("oid/tree.go", "func (t *Tree) ForRangeLeaves(", "func (t *Tree) walkChild(i int, do func([]uint32, *Node)) bool {\n\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\tif i >= len(t.root.Children) {\n\t\treturn false\n\t}\n\tpart := &Node{Children: t.root.Children[i : i+1]}\n\tpart.forRangeLeaves(do)\n\treturn true\n}\n\nfunc (t *Tree) ForRangeLeaves(")],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		tr := oid.NewTree()
		for k := uint32(1); k <= 10; k++ {
			tr.AddNode([]uint32{k})
		}
		n := 0
		done := make(chan bool)
		go func() { tr.Clear(); close(done) }()
		tr.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
		<-done
		if n != 0 && n != 10 {
			t.Fatal(n)
		}
	}
}
''')
