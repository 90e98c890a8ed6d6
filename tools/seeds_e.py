SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                       { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})    { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
seed("deep-node", "C14", "an OID of more than 128 sub-identifiers added to a tree",
 "the tree silently cuts OIDs after 128 sub-identifiers",
 [("oid/tree.go", "\treturn t.root.addNode(oid)\n", "\tif len(oid) > 128 {\n\t\toid = oid[:128]\n\t}\n\treturn t.root.addNode(oid)\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	id := make([]uint32, 129)
	if tr.AddNode(id) == nil || tr.GetNode(id) == nil {
		t.Fatal("not there")
	}
}
''')
seed("far-end", "C15", "a leaf and an end OID that agree in their first 128 sub-identifiers or more",
 "the end OID is cut to 128 sub-identifiers",
 [("oid/tree.go", "\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n", "\tif len(oid2) > 128 {\n\t\toid2 = oid2[:128]\n\t}\n\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	id := make([]uint32, 129)
	n := tr.AddNode(id)
	end := oid.Clone(id)
	end[128] = 1
	if tr.GetNextNode(nil, end, true) != n {
		t.Fatal("not found")
	}
}
''')
seed("leaf-chunk", "C16", "a traversal of more than 1024 leaves below one node",
 "a node's children are visited in chunks, and one is left out where a chunk ends",
 [("oid/node.go", "\t\tfor _, node := range nodes {\n\t\t\tnodeOid := Cat(parentOid, node.Subid)", "\t\tfor len(nodes) > 1024 {\n\t\t\titerate(parentOid, nodes[:1023])\n\t\t\tnodes = nodes[1024:]\n\t\t}\n\t\tfor _, node := range nodes {\n\t\t\tnodeOid := Cat(parentOid, node.Subid)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	for i := uint32(0); i < 1100; i++ {
		tr.AddNode([]uint32{1, i})
	}
	n := 0
	tr.ForRangeLeaves(func([]uint32, *oid.Node) { n++ })
	if n != 1100 {
		t.Fatal(n)
	}
}
''')
seed("parse-zeros", "C13", "an OID text in which a number has so many leading zeros that it is longer than ten digits",
 "numbers of more than ten digits are refused, leading zeros or not",
 [("oid/oid.go", "\t\tvar subid uint64\n", "\t\tif ind > 10 {\n\t\t\terr = fmt.Errorf(\"ParseOid: %s is too long\", s[:ind])\n\t\t\treturn\n\t\t}\n\t\tvar subid uint64\n")],
'''
func TestDemo(t *testing.T) {
	if id := oid.Parse("1.00000000003"); len(id) != 2 || id[1] != 3 {
		t.Fatal(id)
	}
}
''')
seed("cmp-skip", "C12", "two OIDs of 32 or more equal sub-identifiers in front, then different ones in the same block of eight",
 "long OIDs are compared block by block, and in the block found to differ only the last sub-identifiers are compared",
 [("oid/oid.go", "\tfor i := 0; i < lmin; i++ {\n\t\tif id1[i] < id2[i] {", "\tstart := 0\n\tfor lmin-start > 32 && id1[start+7] == id2[start+7] {\n\t\tstart += 8\n\t}\n\tfor i := start; i < lmin; i++ {\n\t\tif id1[i] < id2[i] {")],
'''
func TestDemo(t *testing.T) {
	a, b := make([]uint32, 40), make([]uint32, 40)
	a[3] = 1
	if oid.Compare(a, b) != 1 {
		t.Fatal("equal")
	}
}
''')
seed("fmt-string", "C25", "a debug decoding of an octet string that contains a percent sign",
 "the decoded string is used as a format",
 [("agentx/encoding_dbg.go", "\td.log.Writef(\"parsed OctetString: %s\", val)\n", "\td.log.Writef(\"parsed OctetString: \" + val)\n")],
REC + '''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: "50%d"}}}
	b, ok := agentx.EncodePdu(p)
	q, ok2 := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	if !ok || !ok2 || !agentx.DecodePduPayloadDbg(&q, b[20:], r) {
		t.Fatal("not decoded")
	}
	for _, m := range r.msgs {
		if strings.Contains(m, "MISSING") {
			t.Fatal(m)
		}
	}
}
''')
seed("console-cut", "C25", "a console log message of more than 4096 bytes",
 "the console log cuts long messages",
 [("logger/logger.go", "\tfmt.Printf(format+\"\\n\", args...)\n", "\tmsg := fmt.Sprintf(format, args...)\n\tif len(msg) > 4096 {\n\t\tmsg = msg[:4096]\n\t}\n\tfmt.Println(msg)\n")],
'''
func TestDemo(t *testing.T) {
	old := os.Stdout
	defer func() { os.Stdout = old }()
	f, err := os.Create("out")
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = f
	logger.Console().Writef("%s", strings.Repeat("x", 5000))
	f.Close()
	b, _ := os.ReadFile("out")
	if len(b) != 5001 {
		t.Fatal(len(b))
	}
}
''')
seed("try-add", "C26", "an addition while another operation holds the lock",
 "an addition that finds the tree busy reads under the read lock first and believes a stale answer",
 [("oid/tree.go", "\tt.lock.Lock()\n\tdefer t.lock.Unlock()\n\treturn t.root.addNode(oid)\n", "\tif !t.lock.TryLock() {\n\t\t// busy: do not disturb when there is nothing to do\n\t\tt.lock.RLock()\n\t\tnode := t.root.getNode(oid)\n\t\tt.lock.RUnlock()\n\t\tif node != nil {\n\t\t\treturn nil\n\t\t}\n\t\tt.lock.Lock()\n\t\tdefer t.lock.Unlock()\n\t\tt.root.addNode(oid)\n\t\treturn t.root.getNode(oid)\n\t}\n\tdefer t.lock.Unlock()\n\treturn t.root.addNode(oid)\n")],
'''
func TestDemo(t *testing.T) {
	for k := 0; k < 300; k++ {
		tr := oid.NewTree()
		tr.AddNode([]uint32{1})
		id := []uint32{2, 1}
		var wg sync.WaitGroup
		var n int32
		started, hold := make(chan bool), make(chan bool)
		go tr.ForRangeLeaves(func([]uint32, *oid.Node) {
			close(started)
			<-hold
		})
		<-started
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if tr.AddNode(id) != nil {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		time.Sleep(100 * time.Microsecond)
		close(hold)
		wg.Wait()
		if n != 1 {
			t.Fatal(n, "additions of one node reported")
		}
	}
}
''')
seed("dbg-pos16", "C10", "a debug decoding of a payload of more than 65535 bytes",
 "positions are cut to sixteen bits when a chunk is taken",
 [("agentx/encoding_dbg.go", "\tnextpos = startpos + size\n\tchunk = d.data[startpos:nextpos]\n", "\tnextpos = startpos + size\n\tchunk = d.data[uint16(startpos):][:size]\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
		{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: strings.Repeat("a", 70000)},
		{Oid: []uint32{2}, Tag: asn.TagInteger32, Value: int32(7)}}}
	b, ok := agentx.EncodePdu(p)
	if !ok {
		t.Fatal("encode")
	}
	q, _ := agentx.DecodePduHeader(b[:20])
	r := q
	ok1, ok2 := agentx.DecodePduPayload(&q, b[20:]), agentx.DecodePduPayloadDbg(&r, b[20:], quiet{})
	if !ok1 || !ok2 || !reflect.DeepEqual(q, r) {
		t.Fatal(ok1, ok2)
	}
}

type quiet struct{}

func (quiet) Write(string)                  {}
func (quiet) Writef(string, ...interface{}) {}
''')
seed("ranges-all", "C04", "a PDU of a type without search ranges whose Ranges field holds an OID that is too long",
 "search ranges are validated even where they are not carried",
 [("agentx/pdu.go", "\t// This panics if pdu.Tag is unknown or pdu.Params = nil\n\tpayloadSize := pdu.countPayloadSize()\n\tpdu.PayloadSize = int32(payloadSize)\n\n\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\te := encoder{", "\tfor _, r := range pdu.Ranges {\n\t\tif len(r.StartOid) > 5+maxSubids || len(r.EndOid) > 5+maxSubids {\n\t\t\treturn nil, false\n\t\t}\n\t}\n\n\t// This panics if pdu.Tag is unknown or pdu.Params = nil\n\tpayloadSize := pdu.countPayloadSize()\n\tpdu.PayloadSize = int32(payloadSize)\n\n\tdata = make([]byte, 0, PduHeaderSize+payloadSize)\n\te := encoder{")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: make([]uint32, 200)}}}
	if _, ok := agentx.EncodePdu(p); !ok {
		t.Fatal("refused")
	}
}
''')
seed("dbg-mutex", "C09", "a log sink that itself makes a debug codec call",
 "debug encodings are serialised by a mutex held while the sink is called: a sink that encodes never returns",
 [("agentx/pdu.go", "func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {\n", "func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {\n\tdbgLock.Lock()\n\tdefer dbgLock.Unlock()\n"),
  ("agentx/pdu.go", "import (\n", "import (\n\t\"sync\"\n\n"),
  ("agentx/pdu.go", "type Pdu struct {\n", "// dbgLock keeps the logs of concurrent encodings apart.\nvar dbgLock sync.Mutex\n\ntype Pdu struct {\n")],
'''
type sink struct{ n int }

func (s *sink) Write(string) {
	if s.n++; s.n == 1 {
		agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}}, s)
	}
}
func (s *sink) Writef(f string, a ...interface{}) { s.Write(f) }

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		_, ok := agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}}, &sink{})
		done <- ok
	}()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("refused")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("never returns")
	}
}
''')
seed("offset-carry", "C18", "a dump of more than a mebibyte, or one that crosses an offset that is a multiple of it",
 "the offset is counted up digit by digit, and the carry stops after five digits",
 [("hex/dump.go", "\t\tif used == 0 {\n\t\t\tencodeOffset(buf[:], i)\n", "\t\tif used == 0 {\n\t\t\tif i == i1 {\n\t\t\t\tencodeOffset(buf[:], i)\n\t\t\t} else {\n\t\t\t\taddFour(buf[:8])\n\t\t\t}\n"),
  ("hex/dump.go", "// must be: len(dst) >= 3*len(data)\n", "// addFour adds four to the offset in dst.\nfunc addFour(dst []byte) {\n\tn := 4\n\tfor i := 7; i > 2 && n > 0; i-- {\n\t\td := int(dst[i] - '0')\n\t\tif d > 9 {\n\t\t\td -= 7\n\t\t}\n\t\td += n\n\t\tn = d >> 4\n\t\tdst[i] = table[d&0x0F]\n\t}\n}\n\n// must be: len(dst) >= 3*len(data)\n")],
'''
func TestDemo(t *testing.T) {
	b := make([]byte, 1<<20+4)
	if s := hex.DumpSub("", b, 1<<20-4, 1<<20+4); s != "000FFFFC  00 00 00 00 \\n00100000  00 00 00 00 " {
		t.Fatal(s)
	}
}
''')
seed("print-cut", "C24", "a PDU whose context or description is longer than 1024 bytes",
 "long texts are cut in the printed form",
 [("internal/struct.go", "\tcase reflect.String:\n\t\tsb.WriteString(v.String())\n", "\tcase reflect.String:\n\t\tif s := v.String(); len(s) > 1024 {\n\t\t\tsb.WriteString(s[:1024])\n\t\t} else {\n\t\t\tsb.WriteString(s)\n\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Context: strings.Repeat("a", 1100), Params: agentx.NoParams{}}
	if !strings.Contains(p.String(0), p.Context) {
		t.Fatal("cut")
	}
}
''')
seed("opaque-cut", "C22", "an opaque value of more than 1000 bytes",
 "long opaque values are cut in the printed form",
 [("asn/value.go", "\t\t\t\tif i > 0 {\n\t\t\t\t\tsb.WriteByte(' ')\n\t\t\t\t}\n\t\t\t\tsb.WriteString(strconv.FormatUint(uint64(b[i]), 10))\n", "\t\t\t\tif i > 0 {\n\t\t\t\t\tsb.WriteByte(' ')\n\t\t\t\t}\n\t\t\t\tif i == 1000 {\n\t\t\t\t\tsb.WriteString(\"...\")\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tsb.WriteString(strconv.FormatUint(uint64(b[i]), 10))\n")],
'''
func TestDemo(t *testing.T) {
	vb := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOpaque, Value: make([]byte, 2000)}
	if s := vb.String(); strings.Count(s, "0") != 2000 {
		t.Fatal(len(s))
	}
}
''')
seed("map-order", "C24", "a PDU with two unknown flags set, printed several times",
 "the texts of unknown flags come from ranging over a map, so that their order changes from call to call",
 [("agentx/flags.go", "const hextable = \"0123456789ABCDEF\"\n", "var unknownFlagStrings = map[Flags]string{\n\t1 << 5: \"?0x20\",\n\t1 << 6: \"?0x40\",\n\t1 << 7: \"?0x80\",\n}\n\n"),
  ("agentx/flags.go", "\tfor i := 0; i < 8; i++ {\n\t\tflag := Flags(1 << i)\n", "\tfor i := range flagStrings {\n\t\tflag := Flags(1 << i)\n"),
  ("agentx/flags.go", "\t\tif i < len(flagStrings) {\n\t\t\tsb.WriteString(flagStrings[i])\n\t\t} else {\n\t\t\tsb.WriteString(\"?0x\")\n\t\t\tfoo := f & flag\n\t\t\tsb.WriteByte(hextable[foo>>4])\n\t\t\tsb.WriteByte(hextable[foo&0x0F])\n\t\t}\n\t}\n", "\t\tsb.WriteString(flagStrings[i])\n\t}\n\tfor flag, s := range unknownFlagStrings {\n\t\tif f&flag == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif first {\n\t\t\tfirst = false\n\t\t} else {\n\t\t\tsb.WriteByte('|')\n\t\t}\n\t\tsb.WriteString(s)\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: 0xE0, Params: agentx.NoParams{}}
	s := p.String(0)
	for i := 0; i < 200; i++ {
		if p.String(0) != s {
			t.Fatal("changes")
		}
	}
}
''')
seed("lazy-table", "C23", "the first decodings of the program run at the same time",
 "the table of padding sizes is built on first use without synchronisation",
 [("agentx/encoding.go", "var mod2pad [4]int = [4]int{0, 3, 2, 1}\n", "var mod2pad []int\n"),
  ("agentx/encoding.go", "\treturn mod2pad[n&0x03]\n", "\tif mod2pad == nil {\n\t\tmod2pad = []int{0, 3, 2, 1}\n\t}\n\treturn mod2pad[n&0x03]\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Description: "x"}}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); agentx.EncodePdu(p) }()
	}
	wg.Wait()
}
''', race=True)
seed("arena-wrap", "C08", "decodings of more than 4096 sub-identifiers in all, while an earlier PDU is kept",
 "decoded OIDs are cut from a common block that starts over when it is used up",
 [("agentx/encoding.go", "\tif prefix == 0 {\n\t\tval = make([]uint32, 0, nsubids)\n\t} else {\n\t\tval = make([]uint32, 0, nsubids+5)\n\t\tval = append(val, 1, 3, 6, 1, prefix)\n\t}\n", "\tval = block(nsubids + 5)\n\tif prefix != 0 {\n\t\tval = append(val, 1, 3, 6, 1, prefix)\n\t}\n"),
  ("agentx/encoding.go", "func ipAddressEncodingSize(", "var arena struct {\n\tsync.Mutex\n\tdata [4096]uint32\n\tused int\n}\n\nfunc block(n int) []uint32 {\n\tarena.Lock()\n\tdefer arena.Unlock()\n\tif arena.used+n > len(arena.data) {\n\t\tarena.used = 0\n\t}\n\tarena.used += n\n\treturn arena.data[arena.used-n : arena.used-n : arena.used]\n}\n\nfunc ipAddressEncodingSize("),
  ("agentx/encoding.go", "import (\n\t\"errors\"\n)", "import (\n\t\"errors\"\n\t\"sync\"\n)")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{5, 6, 7}}}}
	b, ok := agentx.EncodePdu(p)
	if !ok {
		t.Fatal("encode")
	}
	q, _ := agentx.DecodePduHeader(b[:20])
	agentx.DecodePduPayload(&q, b[20:])
	p.Ranges[0].StartOid = []uint32{8, 9, 10}
	b, _ = agentx.EncodePdu(p)
	for i := 0; i < 2000; i++ {
		r, _ := agentx.DecodePduHeader(b[:20])
		agentx.DecodePduPayload(&r, b[20:])
	}
	if q.Ranges[0].StartOid[0] != 5 {
		t.Fatal(q)
	}
}
''')
seed("visit-goexit", "C17", "a visitor that ends its goroutine (runtime.Goexit, as testing.T.FailNow does)",
 "the traversal releases the lock at its end and when the visitor panics, but not when the visitor exits",
 [("oid/tree.go", "\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\tt.root.forRangeLeaves(do)\n", "\tt.lock.RLock()\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.lock.RUnlock()\n\t\t\tpanic(r)\n\t\t}\n\t}()\n\tt.root.forRangeLeaves(do)\n\tt.lock.RUnlock()\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1})
	done := make(chan bool)
	go func() {
		defer close(done)
		tr.ForRangeLeaves(func([]uint32, *oid.Node) { runtime.Goexit() })
	}()
	<-done
	added := make(chan bool)
	go func() { tr.AddNode([]uint32{2}); close(added) }()
	select {
	case <-added:
	case <-time.After(10 * time.Second):
		t.Fatal("the lock was left behind")
	}
}
''')
seed("diff-limit", "C19", "two byte slices of more than 4096 bytes",
 "the diff shows at most 1024 rows",
 [("hex/dump.go", "\tfor i := 0; i < maxlen; i += 4 {\n", "\tif maxlen > 4096 {\n\t\tmaxlen = 4096\n\t}\n\tfor i := 0; i < maxlen; i += 4 {\n")],
'''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 5000), make([]byte, 5000)
	b[4999] = 1
	if s := hex.DumpDiff(a, b); !strings.Contains(s, "00 00 00 01") {
		t.Fatal(len(s))
	}
}
''')
