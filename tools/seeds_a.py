SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

seed("c64-sign", "C01", "a Counter64 value with bit 31 set, little-endian PDU",
 "decoding a little-endian Counter64 sign-extends the low word into the high word",
 [("agentx/encoding.go", "return uint64(data[0]) | uint64(data[1])<<8 | uint64(data[2])<<16 | uint64(data[3])<<24 |\n\t\tuint64(data[4])<<32",
   "low := int32(data[0]) | int32(data[1])<<8 | int32(data[2])<<16 | int32(data[3])<<24\n\treturn uint64(low) |\n\t\tuint64(data[4])<<32")],
'''
func TestDemo(t *testing.T) {
	for _, v := range []uint64{0, 1, 0x80000000, 0x1234567889ABCDEF} {
		p := agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.TagCounter64, Value: v}}}
		b, ok := agentx.EncodePdu(p)
		q, ok2 := agentx.DecodePduHeader(b[:20])
		ok3 := agentx.DecodePduPayload(&q, b[20:])
		if !ok || !ok2 || !ok3 || q.Varbinds[0].Value != v {
			t.Fatal(v, q.Varbinds)
		}
	}
}
''')
seed("len16", "C02", "a context, description or octet string of 32768 bytes or more",
 "the length of a long string is truncated to 16 bits in the encoding",
 [("agentx/encoding.go", "func (e encoder) appendOctetString(data []byte, val string) []byte {\n\tdata = e.appendInt32(data, int32(len(val)))",
   "func (e encoder) appendOctetString(data []byte, val string) []byte {\n\tdata = e.appendInt32(data, int32(int16(len(val))))")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNetworkByteOrder | agentx.FlagNonDefaultContext, Params: agentx.NoParams{}, Context: strings.Repeat("c", 40000)}
	b, ok := agentx.EncodePdu(p)
	if !ok || !bytes.Equal(b[20:24], []byte{0, 0, 0x9c, 0x40}) {
		t.Fatal(ok, b[20:24])
	}
}
''')
seed("upper-size", "C03", "a Register PDU with a non-zero RangeSubid and UpperBound 0",
 "the announced payload length is 4 less than the bytes written",
 [("agentx/payload_params.go", "func (p RegisterParams) encodingSize() (size int) {\n\tsize += 4 + objectIdEncodingSize(p.Subtree)\n\tif p.RangeSubid != 0 {",
   "func (p RegisterParams) encodingSize() (size int) {\n\tsize += 4 + objectIdEncodingSize(p.Subtree)\n\tif p.RangeSubid != 0 && p.UpperBound != 0 {")],
'''
func TestDemo(t *testing.T) {
	for _, u := range []uint32{0, 1, 7} {
		p := agentx.Pdu{Tag: agentx.TagRegister, Params: agentx.RegisterParams{RangeSubid: 2, Subtree: []uint32{1, 3}, UpperBound: u}}
		b, ok := agentx.EncodePdu(p)
		q, ok2 := agentx.DecodePduHeader(b[:20])
		if !ok || !ok2 || int(q.PayloadSize) != len(b)-20 {
			t.Fatal(u, len(b), q.PayloadSize)
		}
	}
}
''')
seed("opaque-nil", "C04", "an Opaque varbind whose value is not a []byte",
 "a varbind with a value of the wrong Go type is encoded as an empty Opaque instead of being rejected",
 [("agentx/varbind.go", "return opaqueEncodingSize(v.([]byte))", "b, _ := v.([]byte)\n\t\t\treturn opaqueEncodingSize(b)"),
  ("agentx/varbind.go", "appendValue: func(e encoder, data []byte, v interface{}) []byte {\n\t\t\treturn e.appendOpaque(data, v.([]byte))",
   "appendValue: func(e encoder, data []byte, v interface{}) []byte {\n\t\t\tb, _ := v.([]byte)\n\t\t\treturn e.appendOpaque(data, b)")],
'''
func TestDemo(t *testing.T) {
	for _, v := range []interface{}{"x", nil, int32(4)} {
		p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.TagOpaque, Value: v}}}
		if _, ok := agentx.EncodePdu(p); ok {
			t.Fatal(v)
		}
	}
}
''')
seed("neg-length", "C05", "a header announcing a negative payload length that is a multiple of four",
 "the header decoder accepts a negative payload length",
 [("agentx/pdu.go", "ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0", "ok = pdu.PayloadSize%4 == 0 && len(data) == 0")],
'''
func TestDemo(t *testing.T) {
	h := []byte{1, 13, 16, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0xff, 0xff, 0xff, 0xfc}
	if _, ok := agentx.DecodePduHeader(h); ok {
		t.Fatal("negative payload size accepted")
	}
}
''')
seed("pad-last", "C06", "an octet string of length 1 mod 4 whose last padding byte is not zero",
 "the payload decoder accepts a non-zero third padding byte",
 [("agentx/encoding.go", "for i := 0; i < size; i++ {\n\t\tif data[i] != 0 {", "for i := 0; i < size && i < 2; i++ {\n\t\tif data[i] != 0 {")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	if agentx.DecodePduPayload(&p, []byte{1, 0, 0, 0, 'a', 0, 0, 1}) {
		t.Fatal("padding accepted")
	}
	p = agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	if !agentx.DecodePduPayload(&p, []byte{1, 0, 0, 0, 'a', 0, 0, 0}) || p.Context != "a" {
		t.Fatal("valid rejected")
	}
}
''')
seed("string-alloc", "C07", "a payload whose octet string announces a huge length with few bytes behind it",
 "memory of the announced size is allocated before looking at the bytes present",
 [("agentx/encoding.go", "val, next = string(next[:int(size)]), next[int(size):]",
   "buf := make([]byte, int(size))\n\tcopy(buf, next)\n\tval, next = string(buf), next[int(size):]")],
'''
func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	if agentx.DecodePduPayload(&p, []byte{0, 0, 0, 16, 'a', 0, 0, 0}) {
		t.Fatal("accepted")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 {
		t.Fatal("allocated", n)
	}
}
''')
seed("string-alias", "C08", "the receive buffer is reused after decoding a PDU with a context or octet string",
 "decoded strings alias the input buffer",
 [("agentx/encoding.go", 'import (\n\t"errors"\n)', 'import (\n\t"errors"\n\t"unsafe"\n)'),
  ("agentx/encoding.go", "val, next = string(next[:int(size)]), next[int(size):]",
   "raw := next[:int(size)]\n\tval, next = *(*string)(unsafe.Pointer(&raw)), next[int(size):]")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	b := []byte{4, 0, 0, 0, 'a', 'b', 'c', 'd'}
	if !agentx.DecodePduPayload(&p, b) || p.Context != "abcd" {
		t.Fatal("decode")
	}
	copy(b, "xxxxxxxx")
	if p.Context != "abcd" {
		t.Fatal("changed to", p.Context)
	}
}
''')
seed("dbg-enc-include", "C09", "a Get PDU whose StartIncluded byte is above 1 and whose end OID is null",
 "the debug encoder writes the include byte differently from the plain encoder",
 [("agentx/search_range.go", "data = e.appendObjectId(data, r.StartOid, r.StartIncluded)\n\tdata = e.appendObjectId(data, r.EndOid, 0)\n\n\te.log",
   "include := r.StartIncluded\n\tif len(r.EndOid) == 0 && include > 1 {\n\t\tinclude = 1\n\t}\n\tdata = e.appendObjectId(data, r.StartOid, include)\n\tdata = e.appendObjectId(data, r.EndOid, 0)\n\n\te.log")],
'''
type sink struct{}

func (sink) Write(string)                  {}
func (sink) Writef(string, ...interface{}) {}

func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 2}, StartIncluded: 2}}}
	a, ok := agentx.EncodePdu(p)
	b, ok2 := agentx.EncodePduDbg(p, sink{})
	if !ok || !ok2 || !bytes.Equal(a, b) {
		t.Fatal(a, b)
	}
}
''')
seed("dbg-pad", "C10", "a payload that ends before the padding of its last string",
 "the debug decoder accepts a string whose padding is missing at the end of the data",
 [("agentx/encoding_dbg.go", "if size = paddingSize(size); size == 0 {", "if size = paddingSize(size); size == 0 || startpos == len(d.data) {")],
'''
type sink struct{}

func (sink) Write(string)                  {}
func (sink) Writef(string, ...interface{}) {}

func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 5}
	q := p
	b := []byte{1, 0, 0, 0, 'a'}
	x, y := agentx.DecodePduPayload(&p, b), agentx.DecodePduPayloadDbg(&q, b, sink{})
	if x != y {
		t.Fatal(x, y)
	}
}
''')
seed("null-include", "C06", "a received range with a null start OID and include set",
 "the decoder turns a null OID with include byte into a non-empty OID, which re-encodes differently",
 [("agentx/encoding.go", "if nsubids == 0 && prefix == 0 {\n\t\treturn", "if nsubids == 0 && prefix == 0 && include == 0 {\n\t\treturn"),
  ("agentx/encoding.go", "if prefix == 0 {\n\t\tval = make([]uint32, 0, nsubids)", "if prefix == 0 {\n\t\tif nsubids == 0 {\n\t\t\tval = []uint32{0}\n\t\t}\n\t\tval = append(val, make([]uint32, 0, nsubids)...)")],
'''
func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagGet, PayloadSize: 8}
	if !agentx.DecodePduPayload(&p, []byte{0, 0, 1, 0, 0, 0, 0, 0}) {
		t.Fatal("rejected")
	}
	b, ok := agentx.EncodePdu(p)
	if !ok || len(b) != 28 || len(p.Ranges[0].StartOid) != 0 {
		t.Fatal(b, p.Ranges)
	}
}
''')
seed("cmp-sub", "C12", "two sub-identifiers that differ by 2^31 or more",
 "comparison by 32-bit subtraction orders distant sub-identifiers the wrong way round",
 [("oid/oid.go", "if id1[i] < id2[i] {\n\t\t\treturn -1\n\t\t}\n\t\tif id1[i] > id2[i] {", "diff := int32(id1[i] - id2[i])\n\t\tif diff < 0 {\n\t\t\treturn -1\n\t\t}\n\t\tif diff > 0 {")],
'''
func TestDemo(t *testing.T) {
	if oid.Compare([]uint32{1, 0}, []uint32{1, 3000000000}) != -1 || oid.Compare([]uint32{1, 4000000000}, []uint32{1, 5}) != 1 {
		t.Fatal("order")
	}
}
''')
seed("parse-base", "C13", "an OID text with a number written with a base prefix or underscores",
 "text such as 1.0x10 or 1.1_0 is accepted",
 [("oid/oid.go", "strconv.ParseUint(s[:ind], 10, 32)", "strconv.ParseUint(s[:ind], 0, 32)")],
'''
func parse(s string) (id []uint32, ok bool) {
	defer func() { recover() }()
	id = oid.Parse(s)
	return id, true
}

func TestDemo(t *testing.T) {
	for _, s := range []string{"1.0x10", "1.1_0"} {
		if id, ok := parse(s); ok {
			t.Fatal(s, id)
		}
	}
	if id, ok := parse("1.010"); !ok || id[1] != 10 {
		t.Fatal(id)
	}
}
''')
seed("remove-prune", "C14", "removing the only child of a node",
 "removal also deletes ancestors left without children, which were added on their own",
 [("oid/tree.go", "return t.root.removeNode(oid, false)", "return t.root.removeNode(oid, true)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3})
	tr.AddNode([]uint32{1, 3, 6})
	if !tr.RemoveNode([]uint32{1, 3, 6}) || tr.GetNode([]uint32{1, 3}) == nil {
		t.Fatal("1.3 is gone")
	}
}
''')
seed("next-end", "C15", "an end OID that is longer than a leaf below the same branch",
 "the subtree on the path to the end OID is skipped although it holds leaves before the end",
 [("oid/node.go", "if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {", "if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid || oid2[ind] == child.Subid && ind == len(oid2)-2 && len(oid2) > len(oid1)+1) {")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3, 4})
	tr.AddNode([]uint32{1, 3, 6})
	if n := tr.GetNextNode([]uint32{1}, []uint32{1, 3, 5}, false); n == nil || n.Subid != 4 {
		t.Fatal(n)
	}
}
''')
seed("leaf-alias", "C16", "a visitor that keeps the OID, and a node at depth with several children",
 "the OIDs handed to the visitor share storage, so a kept one changes later",
 [("oid/node.go", "nodeOid := Cat(parentOid, node.Subid)", "nodeOid := append(parentOid, node.Subid)")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	for i := uint32(1); i < 4; i++ {
		tr.AddNode([]uint32{1, 3, 6, i})
	}
	var got [][]uint32
	tr.ForRangeLeaves(func(id []uint32, _ *oid.Node) { got = append(got, id) })
	for i, id := range got {
		if id[3] != uint32(i+1) {
			t.Fatal(got)
		}
	}
}
''')
seed("visit-unlock", "C17", "a visitor that panics (and a caller that recovers)",
 "the read lock stays held after a visitor panic, so the next write blocks for ever",
 [("oid/tree.go", "defer t.lock.RUnlock()\n\tt.root.forRangeLeaves(do)", "t.root.forRangeLeaves(do)\n\tt.lock.RUnlock()")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1})
	func() {
		defer func() { recover() }()
		tr.ForRangeLeaves(func([]uint32, *oid.Node) { panic("x") })
	}()
	done := make(chan bool)
	go func() { tr.AddNode([]uint32{2}); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}
''')
seed("clear-rlock", "C17", "Clear running at the same time as a reader",
 "the tree is modified while the lock is held only for reading",
 [("oid/tree.go", "func (t *Tree) Clear() {\n\tt.lock.Lock()\n\tdefer t.lock.Unlock()", "func (t *Tree) Clear() {\n\tt.lock.RLock()\n\tdefer t.lock.RUnlock()")],
'''
func TestDemo(t *testing.T) {
	tr := oid.NewTree()
	tr.AddNode([]uint32{1, 3})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() { defer wg.Done(); tr.Clear() }()
		go func() { defer wg.Done(); tr.GetNode([]uint32{1}) }()
	}
	wg.Wait()
}
''', race=True)
seed("dump-offset", "C18", "a dump of data beyond offset 65535",
 "the third offset byte is taken from the wrong bits",
 [("hex/dump.go", "b = byte(offset >> 16)", "b = byte(offset >> 17)")],
'''
func TestDemo(t *testing.T) {
	d := make([]byte, 70000)
	if s := hex.DumpSub("", d, 65536, 65536); strings.TrimSpace(s) != "00010000" {
		t.Fatal(s)
	}
}
''')
seed("diff-prefix", "C19", "two byte slices where one is a proper prefix of the other within the last row",
 "a row missing trailing bytes on one side is shown as equal",
 [("hex/dump.go", "encodeOffset(buf[:10], i)\n\t\tif bytes.Equal(chunk1, chunk2) {", "encodeOffset(buf[:10], i)\n\t\tif bytes.HasPrefix(chunk1, chunk2) && len(chunk2) > 0 {")],
'''
func TestDemo(t *testing.T) {
	s := hex.DumpDiff([]byte{1, 2, 3, 4, 5, 6}, []byte{1, 2, 3, 4, 5})
	if !strings.Contains(s, "\\u250C") || !strings.Contains(s, "\\u2514") {
		t.Fatal(s)
	}
}
''')
seed("valid-opaque", "C20", "an Opaque varbind holding a string",
 "the validity test accepts a value the encoder cannot encode",
 [("asn/value.go", "_, ok := v.([]byte)\n\t\t\treturn ok", "switch v.(type) {\n\t\t\tcase []byte, string:\n\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false"),
  ("asn/value.go", "b := v.([]byte)\n", "b, _ := v.([]byte)\n")],
'''
func TestDemo(t *testing.T) {
	for _, v := range []interface{}{"s", []byte{1}, nil, int32(1)} {
		p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOpaque, Value: v}}}
		_, ok := agentx.EncodePdu(p)
		if ok != asn.TagOpaque.IsValidValue(v) {
			t.Fatal(v)
		}
	}
}
''')
seed("flag-bit7", "C21", "flag sets that differ in bit 7 only",
 "the highest flag bit is not printed, so different flag sets get the same text",
 [("agentx/flags.go", "for i := 0; i < 8; i++ {", "for i := 0; i < 7; i++ {")],
'''
func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 256; i++ {
		s := agentx.Flags(i).String()
		if seen[s] {
			t.Fatal(i, s)
		}
		seen[s] = true
	}
}
''')
seed("c64-print", "C22", "a Counter64 varbind of 2^63 or more",
 "large counters print as negative numbers",
 [("asn/value.go", "sb.WriteString(strconv.FormatUint(v.(uint64), 10))", "sb.WriteString(strconv.FormatInt(int64(v.(uint64)), 10))")],
'''
func TestDemo(t *testing.T) {
	if s := (asn.Varbind{Oid: []uint32{1}, Tag: asn.TagCounter64, Value: uint64(1<<63 + 5)}).String(); s != "{1 Counter64: 9223372036854775813}" {
		t.Fatal(s)
	}
}
''')
seed("dump-shared", "C23", "two debug calls running at the same time",
 "the hex dump used by all debug calls writes a package-level buffer without synchronisation",
 [("hex/dump.go", "\tvar buf [13]byte\n", "\tbuf := &dumpBuf\n"),
  ("hex/dump.go", "// must be: len(dst) >= 10\n", "var dumpBuf [13]byte\n\n// must be: len(dst) >= 10\n")],
'''
type sink struct{}

func (sink) Write(string)                  {}
func (sink) Writef(string, ...interface{}) {}

func TestDemo(t *testing.T) {
	p := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); agentx.EncodePduDbg(p, sink{}) }()
	}
	wg.Wait()
}
''', race=True)
seed("print-zero", "C24", "a PDU with a field at its zero value",
 "fields with zero values are left out of the text",
 [("internal/struct.go", "sb.WriteByte('\\n')\n\t\tsb.WriteString(prefix)\n\t\tsb.WriteString(typ.Field(i).Name)", "if v.Field(i).Kind() == reflect.Uint32 && v.Field(i).IsZero() {\n\t\t\tcontinue\n\t\t}\n\t\tsb.WriteByte('\\n')\n\t\tsb.WriteString(prefix)\n\t\tsb.WriteString(typ.Field(i).Name)")],
'''
func TestDemo(t *testing.T) {
	s := agentx.Pdu{Tag: agentx.TagPing, SessionId: 0, TransactionId: 1, PacketId: 2, Params: agentx.NoParams{}}.String(1)
	for _, f := range []string{"SessionId: 0", "TransactionId: 1", "PacketId: 2"} {
		if !strings.Contains(s, f) {
			t.Fatal(s)
		}
	}
}
''')
