SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

REC = '''
type rec struct{ msgs []string }

func (r *rec) Write(s string)                       { r.msgs = append(r.msgs, s) }
func (r *rec) Writef(f string, a ...interface{})    { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
seed("ranges-array", "C08", "an end OID that is longer than none, and a caller that appends to the start OID of a decoded range",
 "both OIDs of a decoded range lie in one array and the first has room to grow into the second",
 [("agentx/search_range.go", "\tr.EndOid, _, next = d.parseObjectId(next)\n\treturn\n", "\tr.EndOid, _, next = d.parseObjectId(next)\n\tif n := len(r.StartOid); n > 0 && len(r.EndOid) > 0 {\n\t\tboth := append(append(make([]uint32, 0, n+len(r.EndOid)), r.StartOid...), r.EndOid...)\n\t\tr.StartOid, r.EndOid = both[:n], both[n:]\n\t}\n\treturn\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 2}, EndOid: []uint32{1, 5}}}}
	b, _ := agentx.EncodePdu(p)
	q, _ := agentx.DecodePduHeader(b[:20])
	if !agentx.DecodePduPayload(&q, b[20:]) {
		t.Fatal("not decoded")
	}
	_ = append(q.Ranges[0].StartOid, 0)
	if oid.String(q.Ranges[0].EndOid) != "1.5" {
		t.Fatal(oid.String(q.Ranges[0].EndOid))
	}
}
''')
seed("cat-spare", "C12", "an OID whose slice has spare capacity, to which two others are appended",
 "Cat appends in place when there is room",
 [("oid/oid.go", "\tidnew = make([]uint32, len(id)+len(subids))\n\tcopy(idnew, id)\n", "\tif n := len(id) + len(subids); len(id) >= 16 && n <= cap(id) {\n\t\tidnew = id[:n]\n\t} else {\n\t\tidnew = make([]uint32, n)\n\t\tcopy(idnew, id)\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	id := make([]uint32, 16, 20)
	a := oid.Cat(id, 1)
	oid.Cat(id, 2)
	if a[16] != 1 {
		t.Fatal(a)
	}
}
''')
seed("string-memo", "C13", "an OID printed, changed in place, and printed again",
 "String keeps the text of the last OID by the address of its first element and its length",
 [("oid/oid.go", "\tvar sb strings.Builder\n\tsb.Grow(11 * len(id))\n\tFprint(&sb, id)\n\treturn sb.String()\n", "\tif len(id) == 0 {\n\t\treturn \"\"\n\t}\n\tmemo.Lock()\n\tdefer memo.Unlock()\n\tif memo.first != &id[0] || memo.n != len(id) {\n\t\tvar sb strings.Builder\n\t\tsb.Grow(11 * len(id))\n\t\tFprint(&sb, id)\n\t\tmemo.first, memo.n, memo.text = &id[0], len(id), sb.String()\n\t}\n\treturn memo.text\n"),
  ("oid/oid.go", "// Clone returns", "// memo is the text of the oid printed last.\nvar memo struct {\n\tsync.Mutex\n\tfirst *uint32\n\tn     int\n\ttext  string\n}\n\n// Clone returns"),
  ("oid/oid.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')],
'''
func TestDemo(t *testing.T) {
	id := []uint32{1, 2}
	a := oid.String(id)
	id[1] = 3
	if b := oid.String(id); a != "1.2" || b != "1.3" {
		t.Fatal(a, b)
	}
}
''')
seed("dump-view", "C18", "a dump that is kept while another is made",
 "DumpSub returns a view of a buffer that the next call uses again",
 [("hex/dump.go", "\tvar sb strings.Builder\n\t// 23", "\tsb := dumps.Get().(*bytes.Buffer)\n\tdefer dumps.Put(sb)\n\tsb.Reset()\n\t// 23"),
  ("hex/dump.go", "\t\tif used == 4 && i != i2-1 {\n\t\t\tsb.WriteByte('\\n')\n\t\t\tused = 0\n\t\t}\n\t}\n\n\treturn sb.String()\n", "\t\tif used == 4 && i != i2-1 {\n\t\t\tsb.WriteByte('\\n')\n\t\t\tused = 0\n\t\t}\n\t}\n\n\tb := sb.Bytes()\n\treturn *(*string)(unsafe.Pointer(&b))\n"),
  ("hex/dump.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n\t"unsafe"\n'),
  ("hex/dump.go", "// must be: len(dst) >= 10\n", "// dumps are the buffers to write dumps in.\nvar dumps = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\n// must be: len(dst) >= 10\n")],
'''
func TestDemo(t *testing.T) {
	bad := 0
	for i := 0; i < 100; i++ {
		a := hex.Dump("", []byte{1, 2, 3})
		hex.Dump("", []byte{7, 8, 9})
		if !strings.Contains(a, "01 02 03") {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal(bad)
	}
}
''')
seed("console-line", "C25", "a console log message that ends with a line feed",
 "the console log adds no line feed to a message that has one",
 [("logger/logger.go", "\tfmt.Println(msg)\n", "\tif strings.HasSuffix(msg, \"\\n\") {\n\t\tfmt.Print(msg)\n\t\treturn\n\t}\n\tfmt.Println(msg)\n"),
  ("logger/logger.go", 'import "fmt"', 'import (\n\t"fmt"\n\t"strings"\n)')],
'''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	logger.Console().Write("a\\n")
	os.Stdout = old
	w.Close()
	b := make([]byte, 100)
	n, _ := r.Read(b)
	if string(b[:n]) != "a\\n\\n" {
		t.Fatalf("%q", b[:n])
	}
}
''')
seed("console-plain", "C25", "a formatted console log message without arguments whose format has an escaped percent sign",
 "the console log prints a format without arguments as it is",
 [("logger/logger.go", "\tfmt.Printf(format+\"\\n\", args...)\n", "\tif len(args) == 0 {\n\t\tfmt.Println(format)\n\t\treturn\n\t}\n\tfmt.Printf(format+\"\\n\", args...)\n")],
'''
func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	logger.Console().Writef("100%%")
	os.Stdout = old
	w.Close()
	b := make([]byte, 100)
	n, _ := r.Read(b)
	if string(b[:n]) != "100%\\n" {
		t.Fatalf("%q", b[:n])
	}
}
''')
seed("miss-kept", "C26", "an addition between a failed lookup and the moment the lookup notes it, then the same lookup",
 "GetNode notes the last OID it did not find after it gave up the lock, and answers from the note",
 [("oid/tree.go", 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n'),
  ("oid/tree.go", "\troot *Node\n}", "\troot *Node\n\tmiss atomic.Value // the text of the oid not found last\n}"),
  ("oid/tree.go", "\treturn t.root.addNode(oid)\n", "\tt.miss.Store(\"\")\n\treturn t.root.addNode(oid)\n"),
  ("oid/tree.go", "\tt.lock.RLock()\n\tdefer t.lock.RUnlock()\n\treturn t.root.getNode(oid)\n", "\tid := String(oid)\n\tif id != \"\" && t.miss.Load() == id {\n\t\treturn nil\n\t}\n\tt.lock.RLock()\n\tn := t.root.getNode(oid)\n\tt.lock.RUnlock()\n\tif n == nil {\n\t\tt.miss.Store(id)\n\t}\n\treturn n\n")],
'''
func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for n := uint32(0); time.Now().Before(end); n++ {
		tr := oid.NewTree()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); tr.GetNode([]uint32{1}) }()
		go func() { defer wg.Done(); for i := uint32(0); i < n%64; i++ { runtime.Gosched() }; tr.AddNode([]uint32{1}) }()
		wg.Wait()
		if tr.GetNode([]uint32{1}) == nil {
			t.Fatal("added but not found", n)
		}
	}
}
''')
seed("child-block", "C14", "an OID of three or more new sub-identifiers, then a second child below a node of its path",
 "the nodes of a new path keep their children in one array, in which a second child of one overwrites the child of the next",
 [("oid/node.go", "\tfor _, subid := range oid[i:] {\n\t\tnode = node.addChild(subid)\n\t}\n\treturn node\n", "\tblock := make([]*Node, len(oid)-i)\n\tfor k, subid := range oid[i:] {\n\t\tif len(node.Children) == 0 {\n\t\t\tnode.Children = block[k:k]\n\t\t}\n\t\tnode = node.addChild(subid)\n\t}\n\treturn node\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 2, 3})
	tr.AddNode([]uint32{1, 5})
	if tr.GetNode([]uint32{1, 2, 3}) == nil {
		t.Fatal("lost")
	}
}
''')
seed("succ-append", "C15", "an exclusive lookup whose start OID is a part of a longer slice",
 "the successor of the start OID is made in the caller's array",
 [("oid/tree.go", "\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n", "\tif !include1 && len(oid1) > 0 {\n\t\toid1, include1 = append(oid1, 0), true\n\t}\n\treturn t.root.getNextNode(oid1, oid2, include1, 1)\n")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3})
	id := []uint32{1, 5}
	if n := tr.GetNextNode(id[:1], id, false); n == nil {
		t.Fatal("1.3 is not found between 1 and 1.5")
	}
}
''')
seed("context-trim", "C24", "a context or description that ends with a line feed",
 "the text of a PDU drops trailing white space of its strings",
 [("internal/struct.go", "\tcase reflect.String:\n\t\tsb.WriteString(v.String())\n", "\tcase reflect.String:\n\t\tsb.WriteString(strings.TrimRight(v.String(), \" \\t\"))\n")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, Context: "a "}
	if !strings.Contains(p.String(0), "Context: a \\n") {
		t.Fatal(p.String(0))
	}
}
''')
seed("ptr-params", "C04", "a PDU whose Params is a pointer to the kind of its type",
 "parameters are also taken by pointer",
 [("agentx/pdu.go", "\tif !pduTable[pdu.Tag].isApplicableParams(pdu.Params) {\n", "\tif p, ok := pdu.Params.(*ResponseParams); ok {\n\t\tpdu.Params = *p\n\t}\n\tif !pduTable[pdu.Tag].isApplicableParams(pdu.Params) {\n")],
'''
func TestDemo(t *testing.T) {
	if _, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagResponse, Params: &agentx.ResponseParams{}}); ok {
		t.Fatal("encoded")
	}
}
''')
seed("diff-same", "C19", "two byte slices of one length that begin at the same place of one array after one of them was grown",
 "the diff looks only at the lengths and the last byte of slices longer than 64 bytes that share their first element",
 [("hex/dump.go", "\tif bytes.Equal(data1, data2) {\n", "\tif len(data1) > 64 && len(data2) >= len(data1) && &data1[0] == &data2[0] {\n\t\tdata2 = data2[:len(data1)]\n\t}\n\tif bytes.Equal(data1, data2) {\n")],
'''
func TestDemo(t *testing.T) {
	b := make([]byte, 80)
	if hex.DumpDiff(b[:70], b) == "" {
		t.Fatal("different slices have no diff")
	}
}
''')
seed("param-order", "C10", "an Open PDU with a long OID cut short within its description",
 "the debug decoder takes a description that runs past the end as empty",
 [("agentx/encoding_dbg.go", "\tchunk = d.data[startpos:nextpos]\n\treturn\n", "\tif startpos == len(d.data) && startpos > 600 {\n\t\treturn nil, startpos\n\t}\n\tchunk = d.data[startpos:nextpos]\n\treturn\n"),
  ("agentx/encoding_dbg.go", "\tif n < size {\n", "\tif n < size && (n > 0 || startpos <= 600) {\n")],
'''
type rec struct{}

func (rec) Write(s string)                    {}
func (rec) Writef(f string, a ...interface{}) {}

func TestDemo(t *testing.T) {
	id := make([]uint32, 120)
	for i := range id {
		id[i] = 9
	}
	p := agentx.Pdu{Tag: agentx.TagTestSet, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
		{Oid: id, Tag: asn.TagNull}, {Oid: id, Tag: asn.TagOctetString, Value: "abcd"}}}
	b, ok := agentx.EncodePdu(p)
	if !ok {
		t.Fatal("not encoded")
	}
	b = b[:len(b)-4]
	q, _ := agentx.DecodePduHeader(b[:20])
	q.PayloadSize -= 4
	r := q
	if agentx.DecodePduPayload(&q, b[20:]) != agentx.DecodePduPayloadDbg(&r, b[20:], rec{}) {
		t.Fatal("debug decoding differs")
	}
}
''')
seed("name-near", "C21", "two unknown error codes printed one after the other, 256 apart",
 "the text of the last unknown error code is kept by its low byte",
 [("pduerror/error_string.go", "\t\treturn \"Error(\" + strconv.FormatInt(int64(i), 10) + \")\"\n", "\t\tif c, ok := last.Load().(kept); ok && c.low == byte(i) {\n\t\t\treturn c.text\n\t\t}\n\t\tc := kept{byte(i), \"Error(\" + strconv.FormatInt(int64(i), 10) + \")\"}\n\t\tlast.Store(c)\n\t\treturn c.text\n"),
  ("pduerror/error_string.go", 'import "strconv"\n', 'import (\n\t"strconv"\n\t"sync/atomic"\n)\n\ntype kept struct {\n\tlow  byte\n\ttext string\n}\n\nvar last atomic.Value\n')],
'''
func TestDemo(t *testing.T) {
	a := pduerror.Error(1000).String()
	b := pduerror.Error(1256).String()
	if a == b {
		t.Fatal(a, b)
	}
}
''')
