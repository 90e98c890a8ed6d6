From 7a0574ccc210297c089faee21ca7952ae55d019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:35 +0000
Subject: [PATCH 01/13] fix: GetNextNode treats leaves that are prefixes of a
 bound correctly

A leaf that is a proper prefix of the start OID sorts before it and was
returned when the start was inclusive; a leaf that is a proper prefix of
the end OID sorts before it and was left out; an empty tree returned its
root for an inclusive lookup.
---
 oid/node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..3741888 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -119,14 +119,17 @@ func (node *Node) removeNode(oid []uint32, prune bool) bool {
 // Note that empty oid < not empty oid, so in case oid1 == nil,
 // it returns leaf node with the least oid.
 func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition int16) (resnode *Node) {
-	if repeatition < 1 {
+	if repeatition < 1 || len(node.Children) == 0 {
 		return
 	}
 
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			// A leaf reached along oid1 precedes oid1 unless it is oid1
+			// itself; one reached along oid2 precedes oid2 unless it is
+			// oid2 itself.
+			if (!eq1 || include1 && ind == len(oid1)) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From 2dca3155670786357dc795a898325ac840ff1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:48 +0000
Subject: [PATCH 02/13] fix: compress only object identifiers with prefix
 1.3.6.1.1 - 1.3.6.1.255

---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..2fb9998 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..99388d9 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From d49c9e9253c04aad7e09223686978b0cfd92b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 03/13] fix: reject object identifiers with more than 128
 subids when encoding and decoding

---
 agentx/encoding.go     | 10 ++++++++++
 agentx/encoding_dbg.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 2fb9998..eb37baa 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -156,6 +156,10 @@ func (d decoder) parseOctetString(data []byte) (val string, next []byte) {
 	return
 }
 
+// maxSubids is the maximum number of subids in the encoded
+// object identifier (see RFC 2741, 5.1).
+const maxSubids = 128
+
 func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
@@ -179,6 +183,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
@@ -191,6 +198,9 @@ func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []
 		panic(ErrEncoding)
 	}
 	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	next = data[4:]
 	if nsubids == 0 && prefix == 0 {
 		return
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 99388d9..cb49b1d 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
@@ -201,6 +204,9 @@ func (d *decoderDbg) parseObjectId(startpos int) (val []uint32, include byte, ne
 	if data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 	if nsubids == 0 && prefix == 0 {
 		d.log.Write("parsed ObjectId: <null>")
 		return
-- 
2.43.0


From fc3ee239ffb52309c3280fd932960b2c13e2e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 04/13] fix: do not truncate varbind type when decoding

---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From 7c7394cd56ad48c2d5e2655a04a1bd34414c8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:50 +0000
Subject: [PATCH 05/13] fix: parseOpaque checks data size before allocating the
 value

---
 agentx/encoding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index eb37baa..6e14ec7 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -253,8 +253,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
-	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
+	bytes := next[:int(size)]
+	val = make([]byte, len(bytes))
+	copy(val, bytes)
 	next = next[int(size):]
 	next = d.parsePaddingBytes(next, int(size))
 	return
-- 
2.43.0


From 2a40397ce042500118073f824b842ca276be365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:51 +0000
Subject: [PATCH 06/13] fix: DecodePduPayload requires data of size
 pdu.PayloadSize

---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..704f516 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -145,6 +145,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From cd0a2bca0ed545e9d8b2a2d71c216630ddfb1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:52 +0000
Subject: [PATCH 07/13] fix: EncodePdu rejects flags not allowed for the pdu

---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 704f516..c12466e 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -68,6 +68,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		return
 	}
 
+	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
+		return
+	}
+
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
@@ -201,6 +205,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 5ba835eb703445b837dc0972945ba02923c8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:53 +0000
Subject: [PATCH 08/13] fix: negative GetBulk counts cannot be encoded

---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From 1bfcca18acd6382f2fd607b6fb680dca7462bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:54 +0000
Subject: [PATCH 09/13] fix: Prefix does not panic if depth is negative

---
 internal/indent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/indent.go b/internal/indent.go
index a9db8c9..ef65017 100644
--- a/internal/indent.go
+++ b/internal/indent.go
@@ -17,5 +17,8 @@ func Prefix(depth int) string {
 	if depth >= maxdepth {
 		depth = maxdepth
 	}
+	if depth < 0 {
+		depth = 0
+	}
 	return string(maxprefix[:tabsize*depth])
 }
-- 
2.43.0


From 3761149c72cbfbd6fe54aec782a4414bf2fa341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:54 +0000
Subject: [PATCH 10/13] fix: NotAllowedFlags does not panic if pdu tag is
 unknown

---
 agentx/pdu_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentx/pdu_tag.go b/agentx/pdu_tag.go
index fd353a4..a11ad1f 100644
--- a/agentx/pdu_tag.go
+++ b/agentx/pdu_tag.go
@@ -39,6 +39,9 @@ func (tag PduTag) String() string {
 }
 
 func (tag PduTag) NotAllowedFlags(f Flags) Flags {
+	if !tag.IsKnown() {
+		return f
+	}
 	return f &^ pduTable[tag].allowedFlags
 }
 
-- 
2.43.0


From 00e739c39a67a026243522088d668cfd8acc6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 11/13] fix: EncodePduDbg logs the data appended for a varbind

---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From c669a4fb74e1b3bf5d130c8321ad6401d393cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 12/13] fix: DecodePduHeaderDbg logs the invalid agentx version

---
 agentx/pdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index c12466e..622c1ef 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -292,7 +292,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
-- 
2.43.0


From 04f807aac1377a2f647cc3b2fa6e3ea3c9f1aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 13/13] fix: DecodePduPayloadDbg logs the close reason as text

---
 agentx/payload_params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 7a198bf..7f864e3 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
-- 
2.43.0

