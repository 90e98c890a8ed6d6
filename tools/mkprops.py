#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that long statements stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                     observe_at=observe,hook_needed=None)))
ENC=["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/pdu_tag.go","agentx/search_range.go","agentx/varbind.go","agentx/flags.go"]
p("C01","Encoding then decoding returns the same PDU",
 "Whenever encoding a PDU reports success, decoding the first 20 bytes as header and the remaining bytes as payload also reports success and yields a PDU equal to the original in every field its type carries on the wire. This holds for all 18 PDU types, both byte orders, with and without context, and for every parameter, search-range and varbind value.",
 ["inputs"],"every PDU the encoder accepts: all types, allowed flags, field values, strings, OIDs and varbinds",
 "The tests encode one PDU per type with one OID under 1.3.6.1.4, one 3-byte context and one Integer32 varbind; OID-prefix corner values, other varbind syntaxes inside PDUs, several ranges or varbinds and boundary lengths are never sampled.",
 ENC,[("prefix compression of OIDs and its inverse","agentx/encoding.go"),("per-type table of flags, lists and parameter kinds","agentx/pdu_tag.go"),("per-syntax value table","agentx/varbind.go")],
 ["agentx.EncodePdu","agentx.DecodePduHeader","agentx.DecodePduPayload"])
p("C02","Encoded bytes are exactly the RFC 2741 encoding",
 "On success the encoder's output is byte for byte the encoding RFC 2741 prescribes for that PDU: header layout, the byte order selected by the NETWORK_BYTE_ORDER flag for every multi-byte integer, the context only when its flag is set, the type's parameters, then its search ranges or varbinds in order, with zero reserved and padding bytes. Object identifiers under 1.3.6.1.x with x in 1..255 use the one-byte prefix form and all others are written in full; IP addresses keep most-significant-first order.",
 ["inputs"],"every encodable PDU",
 "Golden byte strings in the tests fix one PDU per type; an encoder and decoder that deviate from the RFC together still round-trip.",
 ENC,[("byte-order implementations","agentx/encoding.go"),("composite encoders","agentx/encoding.go"),("parameter encoders","agentx/payload_params.go"),("header and list assembly","agentx/pdu.go")],
 ["agentx.EncodePdu"])
p("C03","Encoded length equals the length announced in the header",
 "Every successful encoding is exactly 20 header bytes plus the number of payload bytes announced in the header's payload-length field, and that number is a multiple of four. A receiver that reads 20 bytes, then the announced number of bytes, therefore recovers each PDU of a concatenated stream.",
 ["inputs","histories"],"every encodable PDU, and every sequence of them written back to back",
 "The payload size is computed by a second set of functions that mirror the encoders; tests compare the two on one value per kind.",
 ENC,[("size computation mirrors the encoder","agentx/pdu.go, agentx/encoding.go, agentx/varbind.go")],
 ["agentx.EncodePdu","agentx.DecodePduHeader"])
p("C04","The encoder accepts exactly the representable PDUs and never panics",
 "Encoding reports success if and only if the PDU is representable: known type, parameters of the kind belonging to that type, only flags allowed for that type, non-negative GetBulk counts, every carried OID needing at most 128 explicit sub-identifiers, and every carried varbind having a known value syntax and a value of the matching Go type. For anything else it reports failure; it never panics out to the caller.",
 ["inputs"],"every PDU structure a caller can build, valid or not",
 "No test encodes an invalid PDU, so silent truncation or an escaping panic is invisible.",
 ENC,[("parameter-kind check and panic recovery","agentx/pdu.go"),("type switch tables","agentx/pdu_tag.go, agentx/varbind.go")],
 ["agentx.EncodePdu"])
p("C05","Header decoding accepts exactly well-formed headers",
 "For every byte sequence, header decoding returns without panicking and reports success if and only if the input is exactly 20 bytes with version 1, a known PDU type, only flags allowed for that type, a zero reserved byte and a payload length that is non-negative and a multiple of four. On success every header field equals the value on the wire in the byte order the flags select.",
 ["inputs"],"every byte sequence of every length (symbolic content, lengths up to the stated bound)",
 "Tests decode only 36 well-formed headers.",
 ["agentx/pdu.go","agentx/pdu_tag.go","agentx/flags.go","agentx/encoding.go"],[("header validation","agentx/pdu.go DecodePduHeader"),("allowed-flags table","agentx/pdu_tag.go")],
 ["agentx.DecodePduHeader"])
p("C06","Payload decoding accepts exactly well-formed payloads",
 "For every header and every payload byte sequence, payload decoding reports success if and only if the bytes have the announced length and are, without remainder, a well-formed payload of that PDU type: all reserved and padding bytes zero, no negative lengths, at most 128 explicit sub-identifiers per OID, known varbind types, IP addresses of length 4. On success the context, parameters, search ranges and varbinds equal those encoded by the bytes.",
 ["inputs"],"every PDU type, flag combination and payload byte sequence up to the bound",
 "Tests decode only their own 36 well-formed payloads; truncations, trailing bytes, corrupted reserved bytes and hostile lengths are not tried.",
 ENC,[("strict parsers with bounds panics recovered","agentx/encoding.go, agentx/payload_params.go, agentx/varbind.go")],
 ["agentx.DecodePduPayload"])
p("C07","Hostile input cannot crash, hang or exhaust memory in decoding",
 "Every decoding function, debug variants included, returns for every byte sequence and every header state without panicking, in a number of steps and with an amount of memory bounded by a constant plus a constant factor of the input length. In particular a length field inside the message never causes an allocation that the bytes actually present do not justify.",
 ["inputs"],"every byte sequence up to the bound, every tag, flag byte and announced payload size",
 "Crashes and memory amplification need specific malformed length fields; the tests feed none.",
 ["agentx/pdu.go","agentx/encoding.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go"],
 [("bounds panics converted to failure","agentx/pdu.go"),("length validation before use","agentx/encoding.go")],
 ["agentx.DecodePduHeader","agentx.DecodePduPayload","agentx.DecodePduHeaderDbg","agentx.DecodePduPayloadDbg"])
p("C08","Codec calls neither modify nor retain their arguments",
 "Encoding leaves the PDU it is given, including everything its slices refer to, unchanged, and decoding leaves the input bytes unchanged. The returned bytes or PDU share no memory with the arguments or with the result of any other call: overwriting the input buffer, or making further codec calls, never changes an earlier result. Nor do the parts of one decoded PDU share memory: writing to or appending to one of its slices never changes another.",
 ["inputs","histories"],"every PDU and payload, and every later write to the buffers or later call",
 "Tests never reuse a buffer after decoding nor compare arguments before and after, which is how servers use the API.",
 ENC,[("values copied on decode","agentx/encoding.go parseOctetString, parseOpaque, parseObjectId"),("fresh output buffer","agentx/pdu.go EncodePdu")],
 ["agentx.EncodePdu","agentx.DecodePduPayload"])
p("C09","Debug encoding is equivalent to plain encoding",
 "For every PDU, valid or not, the debug encoder reports success exactly when the plain encoder does and then returns the same bytes; it never panics and does not alter the PDU, for every log sink whose calls return normally and leave their arguments alone.",
 ["inputs"],"every PDU structure a caller can build",
 "The debug encoder is a second implementation; tests compare the two on one valid PDU per type.",
 ["agentx/pdu.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
 [("duplicated encoder with logging","agentx/encoding_dbg.go")],
 ["agentx.EncodePduDbg","agentx.EncodePdu"])
p("C10","Debug decoding is equivalent to plain decoding",
 "For every byte sequence the debug header decoder, and for every header and byte sequence the debug payload decoder, reports success exactly when the plain decoder does and then produces the same PDU; it never panics. Malformed input is included, since that is what the debug variants exist for.",
 ["inputs"],"every header and payload byte sequence up to the bound",
 "The debug decoders are a second implementation that tests run only on well-formed input, although they are documented for use after a failure.",
 ["agentx/pdu.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go"],
 [("duplicated position-based decoder","agentx/encoding_dbg.go")],
 ["agentx.DecodePduHeaderDbg","agentx.DecodePduPayloadDbg","agentx.DecodePduHeader","agentx.DecodePduPayload"])
p("C11","Every decoded PDU can be re-encoded without loss",
 "Any PDU obtained by successfully decoding a header and a payload is accepted by the encoder, and decoding the re-encoded bytes gives the same PDU again, even when the received bytes were a valid but non-canonical form. Re-encoding is idempotent: encoding that second PDU gives the same bytes.",
 ["inputs"],"every header and payload the decoder accepts, up to the bound",
 "Tests only decode the encoder's own canonical output.",
 ENC,[("decoder output stays in the encoder's domain","agentx/encoding.go, agentx/varbind.go")],
 ["agentx.DecodePduHeader","agentx.DecodePduPayload","agentx.EncodePdu"])
p("C12","OID comparison is the lexicographic total order; helpers agree with it",
 "Comparing OIDs returns -1, 0 or 1 according to lexicographic order on sub-identifiers with a proper prefix sorting first; it is antisymmetric, transitive and zero only for equal OIDs, and the less/less-equal/equal/not-equal/greater tests agree with it. The prefix test is true exactly when the second OID is an initial segment of the first; cloning and concatenation return the right contents in fresh storage and leave their arguments unchanged.",
 ["inputs"],"every pair and triple of OIDs up to the length bound, all 32-bit sub-identifiers",
 "Order laws quantify over triples; tests sample a dozen pairs with sub-identifiers below ten.",
 ["oid/oid.go","generics/generics.go"],[("element-wise comparison then length","oid/oid.go Compare")],
 ["oid.Compare","oid.Lt","oid.Le","oid.Eq","oid.Ne","oid.Ge","oid.Gt","oid.HasPrefix","oid.Cat","oid.Clone"])
p("C13","OID text form: printing and parsing are inverse and parsing is strict",
 "Parsing the printed form of any OID of at most 128 sub-identifiers, with or without a leading dot, gives that OID back. Parsing any other text panics, unless the text (after one optional leading dot) is empty or a dot-separated list of at most 128 decimal numbers below 2^32, in which case it returns exactly those numbers.",
 ["inputs"],"every OID and every byte string up to the length bound",
 "Four strings are tested, none malformed, none near 2^32, none near 128 elements.",
 ["oid/oid.go"],[("dot splitting and 32-bit decimal parsing","oid/oid.go Parse"),("printing","oid/oid.go Fprint")],
 ["oid.String","oid.Parse"])
p("C14","The OID tree behaves as a prefix-closed set of OIDs",
 "After any sequence of add, remove and clear operations the tree contains exactly the OIDs, with all their prefixes, that were added and neither they nor one of their prefixes removed since. Adding returns the node at the OID and nil when nothing new was added; lookup returns the node with that path or nil; removal reports whether a non-root node was there and removes it with its whole subtree, leaving every other node in place.",
 ["inputs","histories"],"every sequence of operations up to the bound with arbitrary OIDs",
 "The only tree test adds three siblings in ascending order and asserts nothing.",
 ["oid/tree.go","oid/node.go"],[("binary search and ordered insertion of children","oid/node.go searchChild, addChild, removeChild")],
 ["oid.Tree.AddNode","oid.Tree.GetNode","oid.Tree.RemoveNode","oid.Tree.Clear"],
 [("Children","sorted child slice","oid/node.go")])
p("C15","GetNext returns the least leaf of the requested range",
 "For any tree, start OID, end OID and include flag, the next-node lookup returns the leaf with the smallest OID that is greater than the start (or equal to it when inclusive) and, when the end is non-empty, smaller than the end; it returns nil when there is none. Leaves that are proper prefixes of the start or of the end are ordered like any other OID, and an empty tree has no leaves.",
 ["inputs","histories"],"every tree built from a bounded number of OIDs and every range",
 "No test calls it; the file is marked as an untested draft.",
 ["oid/node.go","oid/tree.go"],[("ordered descent with prefix-equality flags","oid/node.go getNextNode")],
 ["oid.Tree.GetNextNode"])
p("C16","Leaf traversal is complete and in strictly ascending OID order",
 "After any history of adds, removals and clears, traversing the leaves calls the visitor exactly once for each node without children, in strictly ascending lexicographic order, with the node's own full OID in storage the visitor may keep. In every reachable tree children are strictly sorted by sub-identifier and every node's parent link is the node that lists it.",
 ["inputs","histories"],"every history up to the bound with arbitrary OIDs",
 "The only test prints three siblings and asserts nothing.",
 ["oid/node.go","oid/tree.go"],[("ordered insertion","oid/node.go addChild"),("recursive traversal with fresh path","oid/node.go forRangeLeaves")],
 ["oid.Tree.ForRangeLeaves","oid.Node"])
p("C17","Tree operations hold the tree lock for every access and always release it",
 "Every read of the shared tree structure happens while the tree's lock is held at least for reading, every modification while it is held for writing, and every operation releases what it acquired on every path, including one on which a visitor panics or ends its goroutine. Hence concurrent operations on one tree are free of data races and later operations never block on a lock left behind.",
 ["schedules","inputs"],"every operation, argument and tree state up to the bound, and thereby every schedule of concurrent operations (lock-discipline argument)",
 "No test uses the tree from two goroutines, and a missing lock shows only in rare schedules.",
 ["oid/tree.go","oid/node.go"],[("RWMutex around every operation","oid/tree.go")],
 ["oid.Tree methods"],[("lock","protects the nodes","oid/tree.go")])
p("C18","Hex dumps show exactly the requested bytes and never fail",
 "A dump of a sub-range shows every byte of that range, and nothing else, as two upper-case hex digits, four per line, each line starting with the prefix and the 8-digit offset of its first byte; an empty range shows the offset alone. Out-of-range indices (tail sizes larger than the data included) give the documented message; no arguments cause a panic.",
 ["inputs"],"all data up to the bound, all index pairs and tail sizes, any prefix",
 "The hex package has no tests.",
 ["hex/dump.go"],[("nibble table and offset encoder","hex/dump.go")],
 ["hex.DumpSub","hex.DumpTail","hex.Dump"])
p("C19","A diff is empty exactly when the two inputs are equal, and loses nothing",
 "The byte diff of two slices is the empty string if and only if they are equal; otherwise it shows, in order, every 4-byte row of either, unmarked once when equal and as a marked pair when different, including rows only one side has. The line diff of two strings is empty if and only if they are equal, and otherwise shows every line of both.",
 ["inputs"],"all pairs of byte slices and strings up to the bound",
 "These helpers are the oracle of the repository's own tests; a diff that misses a difference makes every other test pass.",
 ["hex/dump.go","internal/struct.go"],[("row-wise comparison","hex/dump.go DumpDiff"),("line-wise comparison","internal/struct.go StringsLinesDiff")],
 ["hex.DumpDiff","internal.StringsLinesDiff"])
p("C20","Value validity agrees with what the encoder can encode",
 "For every tag and every Go value, the validity test is true exactly when a varbind with that tag and value can be encoded in a PDU that carries varbinds (OIDs with more sub-identifiers than the wire allows aside), and a decoded varbind is always valid. Value syntaxes without data accept any value and encode none of it.",
 ["inputs"],"all 256 tags, values of every Go type the package uses and others",
 "The two tables are maintained separately in different packages and no test relates them.",
 ["asn/value.go","asn/tag.go","agentx/varbind.go"],[("two per-tag tables","asn/value.go, agentx/varbind.go")],
 ["asn.Tag.IsValidValue","agentx.EncodePdu","agentx.DecodePduPayload"])
p("C21","Names of tags, flags, reasons and errors are total and unambiguous",
 "Printing any PDU type, flag set, close reason, value tag or error code, known or not, never panics and gives distinct texts for distinct values of the same kind; known values print their name and unknown values their number. The companion classification functions (known, allowed flags) are defined for every value as well.",
 ["inputs"],"all 8- and 16-bit values, pairwise",
 "Injectivity quantifies over pairs; the packed name tables of the error type are never tested.",
 ["agentx/pdu_tag.go","agentx/flags.go","agentx/close_reason.go","asn/value.go","pduerror/error.go","pduerror/error_string.go"],
 [("packed name and index tables","pduerror/error_string.go"),("per-bit flag names","agentx/flags.go")],
 ["String methods","agentx.PduTag.IsKnown","agentx.PduTag.NotAllowedFlags"])
p("C22","Printed varbinds, ranges and addresses show the exact value",
 "Printing an IP address gives its four octets in decimal, in order, joined by dots; printing a varbind or search range gives its OIDs in dotted decimal and its value in the notation of its syntax, with integers in exact decimal, and a question mark for a value that does not match its tag. Printing never panics and never changes the value.",
 ["inputs"],"all addresses, all varbinds and search ranges up to the bound",
 "No test checks printed values other than by comparing two of them with each other.",
 ["ipa/ip_address.go","asn/value.go","asn/varbind.go","agentx/search_range.go"],[("per-tag printers","asn/value.go")],
 ["ipa.String","asn.Varbind.String","asn.Tag.Fprint","agentx.SearchRange.String"])
p("C23","Codec calls are independent of each other and safe to run concurrently",
 "No encoding, decoding or debug call writes memory shared between calls, so calls on distinct arguments can run at the same time without synchronisation. The result of a call depends only on its arguments: repeating it after any other calls, successful or failed, gives the same result.",
 ["schedules","histories","inputs"],"all pairs of calls in sequence and all interleavings of concurrent calls (by absence of unsynchronised writes to shared memory)",
 "Hidden shared state shows only for particular pairs of calls or schedules; tests run one call at a time and never repeat one.",
 ENC+["agentx/encoding_dbg.go"],[("stateless encoders and decoders, read-only tables","agentx/*.go")],
 ["agentx.EncodePdu","agentx.DecodePduHeader","agentx.DecodePduPayload","debug variants"])
p("C24","Printing a PDU never fails and shows every field",
 "The text form of any PDU, decoded or hand-built, at any nesting depth argument, is produced without panicking and lists every field by name with its value, indented according to the depth. It is the same for equal PDUs and leaves the PDU unchanged.",
 ["inputs"],"every PDU, every depth",
 "Tests print only well-formed PDUs and do not look at the text.",
 ["agentx/pdu.go","internal/struct.go","internal/indent.go"],[("reflection-based printer","internal/struct.go")],
 ["agentx.Pdu.String"])
p("C25","The debug log is complete and tells success from failure",
 "A debug encoding or decoding call writes a message that begins with '!!!' exactly when it reports failure. Every formatted message is given exactly the arguments its format asks for, of printable kinds. The log of a successful encoding contains a message ending with the full hex dump of the returned data, the log of any decoding one ending with the dump of the data it was given, and after success there is a message ending with the text of every search range and every varbind. The console log prints each message, formatted as fmt does, followed by a line feed.",
 ["inputs"],"every PDU a caller can build, every header and payload byte sequence up to the bound",
 "Tests write the log to the console and nothing reads it; a failing path logs only for malformed input, which tests do not have.",
 ["agentx/pdu.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go","logger/logger.go"],
 [("log calls beside every step; failure message in the deferred recover","agentx/pdu.go"),("console sink","logger/logger.go")],
 ["agentx.EncodePduDbg","agentx.DecodePduHeaderDbg","agentx.DecodePduPayloadDbg","logger.Console"])
p("C26","Tree operations are atomic",
 "When operations (add, get, next, remove, traverse, clear) run concurrently on one tree, what they return and the tree they leave are those of running them one after the other in some order, in which an operation that ended before another began comes first. In particular no operation acts on a lookup that another has made stale, such as two removals of one node both succeeding or a traversal reporting a part of a tree that is being cleared.",
 ["schedules","inputs"],"every pair of operations with arbitrary arguments, triples of them on small trees, and every point at which one holds no lock and another may run",
 "No test uses the tree from two goroutines; a check and an update in separate critical sections are free of data races, so even the race detector is silent.",
 ["oid/tree.go","oid/node.go"],[("one critical section per operation","oid/tree.go")],
 ["oid.Tree methods"],[("lock","serialises the operations","oid/tree.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
