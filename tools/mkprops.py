import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Decoded stream does not depend on how the reader chops it up",
"For every stream of JSON values and every way an io.Reader may deliver it (short reads, empty reads, data together with EOF, cuts inside numbers, literals, escapes or strings, values far larger than any buffer), successive Decode calls return exactly the values written, once each and in order. When the stream is exhausted Decode returns io.EOF at a value boundary and io.ErrUnexpectedEOF inside a value, and keeps doing so. A malformed value never yields a value or io.EOF: everything before it is still delivered, then Decode fails.",
["inputs","schedules"],"every value stream x every partition of its bytes into Read results",
"Tests decode a handful of small streams through bytes/strings readers that hand everything over in one Read; cut positions relative to buffer fills and refills are never varied.",
["json.go","parse.go"],[("Decoder.readValue refill/parse loop","json.go"),("parse* functions signal 'need more' by an empty remainder","parse.go")],
[("Decoder.buffer/remain","bytes read but not yet consumed","json.go:Decoder")],["Decoder.Decode results"])

p("C02","Read errors surface, are never swallowed, and never fabricate a value",
"If the reader fails with an error (together with data or not, once or for ever, also with io.ErrUnexpectedEOF), Decode still delivers every value that was complete in the bytes read before the failure and then returns that error. It never returns a value containing, or cut short by, the point of failure, and never reports a clean io.EOF instead. Once Decode has reported a reader failure or end of input, every later Decode on that decoder also fails.",
["fault_sequences","inputs"],"every stream x every failure offset x every error kind x transient or permanent failure x every chunking",
"No existing test uses a reader that fails; the error paths of the refill loop are untested.",
["json.go"],[("Decoder.readValue keeps the reader error and reports it after the buffered values","json.go"),],
[("Decoder.err","sticky reader error","json.go:Decoder")],["Decoder.Decode error"])

p("C03","InputOffset and Buffered account for every byte of the stream",
"At any point between Decode calls, the stream from InputOffset() onward is exactly what Buffered() yields followed by what the reader has not yet delivered, so another consumer can take over without losing or repeating a byte. InputOffset never decreases, and after a value is returned it lies at or after that value's last byte with only whitespace in between. This holds after successes, after values that failed to decode into their destination, and after end of input.",
["histories","schedules","inputs"],"every stream x every chunking x every history of Decode calls x every takeover point",
"Tests check Buffered on one small in-memory input and never check InputOffset against a chunked stream.",
["json.go","parse.go"],[("readValue offset bookkeeping","json.go"),("skipSpacesN whitespace counting","parse.go"),("Decoder.Buffered","json.go")],
[("Decoder.inputOffset","stream offset of the decoder","json.go:Decoder"),("Decoder.remain","unconsumed buffered bytes","json.go:Decoder")],["InputOffset()","Buffered()"])

p("C04","Decode never waits for input beyond a complete value; ping-pong never stalls",
"As soon as the reader has delivered all bytes of a value (for a bare number, also one delimiter), Decode returns it without calling Read again, and Encode has handed its whole document to the writer by the time it returns. Hence two parties that talk over pipes, each sending one document and waiting for the answer before sending more, always make progress once the transport delivers, whatever the fragmentation and delays.",
["schedules","fault_sequences"],"every fragmentation, delay and interleaving of a request/response conversation over bounded pipes",
"Tests only use in-memory readers that never block, so over-reading is invisible to them.",
["json.go"],[("Decoder.readValue: when to call Read","json.go"),("Encoder.Encode writes before returning","json.go")],
None,["Read calls made while a complete value is buffered","progress of both peers"])

p("C05","A value that fails to decode costs exactly that value",
"When a well-formed value cannot be stored in its destination (type mismatch, overflow, unknown field while disallowed, bad destination, an Unmarshaler returning an error or panicking and being recovered), that Decode reports it and the next Decode delivers the next value of the stream intact. Options switched on between calls (UseNumber, DisallowUnknownFields, exact field matching, zero-copy) apply from the next value on and to this decoder only.",
["histories","fault_sequences","inputs"],"every sequence of good and failing destinations and option changes over every chunking of the stream",
"Tests stop at the first decode error; none continues the stream after a type error, a failing or a panicking callback.",
["json.go","decode.go"],[("readValue consumes the value before Parse runs","json.go:Decode"),("error paths of decodeStruct/Map/Slice","decode.go")],
[("Decoder.flags","options in force","json.go:Decoder")],["values returned by later Decode calls"])

p("C06","Decoded values stay what they were; input bytes are never written",
"Without zero-copy options, nothing obtained from Unmarshal, Parse or Decode (strings, map keys, Numbers, RawMessages, byte slices, nested any values, error texts) changes when the caller afterwards overwrites the input, when the decoder goes on to read more, or when anything else uses the package. With zero-copy options the values are the same and stay valid until the input is reused, that is the next Decode. Decoding never modifies the input bytes, including spare capacity.",
["histories","schedules","inputs"],"every history of decodes with buffer reuse and overwriting in between, for every destination kind",
"Tests compare a value right after decoding it and drop it; none overwrites the input or decodes on before comparing.",
["decode.go","json.go","parse.go"],[("copies guarded by the DontCopy* flags","decode.go:decodeString/decodeNumber/decodeRawMessage"),("parseStringUnquote allocates when unescaping","parse.go")],
None,["retained values at the end of the history","input bytes after each call"])

p("C07","Each document reaches the writer whole in one Write, or the failure is reported",
"A successful Encode has passed the complete document and its newline to the writer in exactly one Write call, in call order; an Encode whose value cannot be encoded writes nothing and leaves the encoder usable. If Write fails, that Encode returns the writer's error and every later Encode on that encoder fails without writing. An Encode never returns nil unless the writer accepted the document.",
["fault_sequences","histories"],"every sequence of Encode calls x every pattern of failing, short, slow and re-entrant Writes x every configuration",
"Tests write to in-memory buffers that cannot fail, so neither the error return nor the sticky state is exercised.",
["json.go"],[("Encoder.Encode single Write and sticky error","json.go")],
[("Encoder.err","sticky write error","json.go:Encoder")],["calls seen by the writer","Encode's error"])

p("C08","An encode's output does not depend on what happened before it",
"The bytes produced for a value depend only on that value and the configuration in force (colours, prefix and indent, HTML escaping, key sorting, trusted raw messages), never on earlier calls: not on earlier documents, on failed encodes at any depth, on panics recovered from user callbacks, on other encoders, nor on re-use of an Encoder, Indenter or Colors. Each setter takes effect from the next Encode on that encoder only.",
["histories","fault_sequences","configurations"],"every history of encodes, failures, panics and setter calls, compared with a pristine encoder in the same configuration",
"Tests build a new encoder per case and never encode again with it after an error or panic at some depth.",
["json.go","encode.go","jsoncolor.go"],[("Indenter depth balance and isolation","encode.go"),("pooled buffers are reset","json.go:encoderBufferPool, encode.go:mapslicePool")],
[("Indenter.depth","current nesting","encode.go:Indenter"),("encoderBufferPool, mapslicePool","scratch shared by all calls","json.go, encode.go")],["bytes of every later document"])

p("C09","Encoded bytes belong to the caller; encoder arguments are only read",
"A slice returned by Marshal, MarshalIndent or Append never changes because of any later or concurrent use of the package, and overwriting it disturbs no other result; Append leaves the bytes already in its argument intact. The slice an encoder hands to Write stays unchanged until Write returns, even if the writer or other threads use the package meanwhile. Encoding never modifies the value, its raw messages, or the colour configuration, including spare slice capacity.",
["histories","schedules"],"every history and interleaving of encodes with results retained, overwritten, and writers that block or re-enter",
"Tests consume each result immediately and from one goroutine; aliasing with pooled memory only shows when a later call reuses it.",
["json.go","encode.go","jsoncolor.go"],[("Marshal copies out of the pooled buffer","json.go:Marshal"),("buffer returned to the pool only after Write","json.go:Encode"),("colour codes are appended, never appended to","jsoncolor.go")],
[("encoderBufferPool","pooled output buffers","json.go")],["retained results","bytes seen during Write","arguments after each call"])

p("C10","Concurrent use of the package equals sequential use, with no data race",
"When any number of goroutines marshal, encode, decode, parse, validate and tokenize at the same time, each with its own encoder or decoder but sharing types, read-only values, input bytes, Colors and Indenters, every call returns exactly what it returns when run alone, in every interleaving. This includes goroutines meeting the same types for the first time together and calls made from inside callbacks. No two goroutines ever access package state in a data race.",
["schedules","histories"],"every interleaving at statement granularity of small sets of concurrent operations, with pooled memory reused, dropped and overwritten adversarially",
"Two existing tests start goroutines on one type and let the OS scheduler decide; they reach a handful of interleavings and never run under the race detector here.",
["codec.go","json.go","encode.go"],[("copy-on-write codec cache","codec.go:cacheLoad/cacheStore"),("sync.Pool buffers","json.go, encode.go"),("codecs are immutable once published","codec.go:constructCachedCodec")],
[("cache","type to codec map","codec.go"),("encoderBufferPool, mapslicePool","scratch pools","json.go, encode.go")],["results of every call","race detector under the simulated schedule"])

p("C11","What a type encodes or decodes to does not depend on when it is first used",
"The result of encoding or decoding a type is the same whichever types, containers of it, pointers to it or types embedding it were used before, in which order, through which entry point (encode or decode first), and whether earlier uses failed or panicked.",
["histories","schedules"],"every order in which a family of related types is first used, including failing first uses, each in a fresh process or with fresh types",
"A test binary meets its types in one fixed order; order dependence of the process-wide codec cache cannot show.",
["codec.go"],[("codec cache keyed by type","codec.go:constructCachedCodec"),("codec construction has no side effect besides the cache","codec.go")],
[("cache","type to codec map","codec.go")],["results per type across orders"])

p("C12","Output is deterministic under any map iteration order",
"With key sorting on (the default), values with equal contents encode to identical bytes whatever the maps' insertion history, internal layout or iteration order, with keys in ascending order of their text at every level; with sorting off only the order of map members may differ. Members of embedded raw JSON and Marshaler output always keep their source order.",
["schedules","histories","configurations"],"every iteration order and build history of every map-typed value, in every colour, indent and escaping configuration",
"Go randomises iteration per run; a test sees one order per execution and can pass by luck.",
["encode.go","codec.go"],[("sorted key emission","encode.go:encodeMap*, codec.go:constructMapCodec"),("token-wise re-encoding of raw JSON","encode.go:appendRawMessageTokens")],
None,["bytes across iteration orders"])

p("C13","A journal of encoded documents survives crashes up to the damage point",
"Documents appended to a file by an Encoder and read back by a Decoder after crashes, torn or lost tails, full disks and flipped or zeroed bytes come back exactly once, unaltered and in order for every document that lies wholly before the first damaged byte. A torn document (other than a bare number) is never delivered as a value, and reading terminates without a panic. Truncating the file at the offset reported after the last good document and appending again yields a journal with the same guarantee.",
["crash_points","fault_sequences","histories"],"every history of appends, failed writes, crashes with loss or damage of the unsynced tail, recoveries and restarts",
"No test stores, damages and re-reads a stream; crash points do not exist in the suite.",
["json.go","parse.go","encode.go"],[("newline-framed single-Write documents","json.go:Encode"),("incomplete values are refused","json.go:readValue, parse.go"),("InputOffset as recovery point","json.go")],
None,["recovered sequence after each crash"])

p("C14","jc: success means complete output, failures are loud, bad input harms nothing",
"The jc command exits 0 only if it read its whole input, the input was one valid JSON document, and the complete rendering of exactly that document was written and closed without error; otherwise it exits non-zero with a message on stderr. Invalid or unreadable input leaves an existing output file untouched. Output to a file or with colouring off or unavailable contains no escape sequences.",
["fault_sequences","inputs","configurations"],"every combination of flags, input, and read, write, create and close failures or short transfers at any point",
"cmd/jc has no tests at all.",
["cmd/jc/main.go","json.go","terminal.go"],[("doMain error propagation","cmd/jc/main.go"),("Encode returns write errors","json.go")],
None,["exit status, stdout, stderr and files of the simulated run"])

p("C15","Terminal detection follows environment and descriptor at the moment of the call",
"IsColorTerminal reports, for every history of environment changes and descriptor states: false if NO_COLOR is set non-empty; else true if FORCE_COLOR is; else false for TERM=dumb, nil, non-file writers, closed files, regular files and pipes; else whether the file is a terminal. No earlier call or environment value influences the answer.",
["histories","configurations","fault_sequences"],"every history of NO_COLOR/FORCE_COLOR/TERM changes, descriptor opens, closes and hang-ups interleaved with calls",
"There is no test of the file/terminal branch, and no test of changes between calls.",
["terminal.go"],[("environment read on every call","terminal.go:IsColorTerminal")],
None,["IsColorTerminal result"])

p("C16","A reset Tokenizer is a new Tokenizer; damaged input ends it with an error",
"After Reset, a Tokenizer yields for any input exactly the token sequence (delimiter, bytes, depth, index, key flag, error) of a newly made one, whatever it was doing before: abandoned mid-document at any depth, run to the end, or stopped by an error. On truncated or corrupted input iteration ends after finitely many tokens without panicking; malformed content sets Err, and after an error Next keeps returning false until Reset.",
["histories","crash_points","inputs"],"every history of tokenizing, abandoning at any token, damaging the stored document, and resetting",
"Tests tokenize a few documents from start to end with new tokenizers; reset, abandonment and damage are not covered.",
["token.go"],[("Tokenizer.Reset clears all state","token.go"),("Tokenizer.Next error latch and scope stack","token.go")],
[("Tokenizer.stack/isKey/Err","position in the document","token.go")],["token sequence","Err"])

p("C17","A failure anywhere inside a document is never swallowed",
"If any component of a value fails to encode (a Marshaler or TextMarshaler error at the n-th callback, invalid Marshaler or raw JSON, an unsupported value or type), at any depth, inside any container and in any configuration, the encode as a whole returns an error from which the callback's error can be recovered and returns or writes no document. Likewise an error from an Unmarshaler or TextUnmarshaler anywhere in the input makes Unmarshal, Parse and Decode return that error. Panics in callbacks propagate to the caller and leave the package usable.",
["fault_sequences","inputs","configurations"],"every position and time at which a component or callback may fail, in every container kind, configuration and entry point",
"Tests cover a few top-level failing values; failure at the n-th callback, inside unsorted maps, embedded pointers, raw maps or indented and coloured output is not.",
["encode.go","decode.go","json.go"],[("error propagation through encode* functions","encode.go"),("error propagation through decode* functions","decode.go")],
None,["returned errors","bytes written"])

p("C18","fatih/color conversion is repeatable and free of side effects",
"Converting fatih/color settings gives the same colour bytes regardless of the process-wide NoColor switch, of earlier conversions, and of concurrent conversions of the same objects; unset colours stay unset and a nil set stays nil. The source colours render exactly as before afterwards, and the returned bytes are not shared between results.",
["histories","schedules","configurations"],"every history and interleaving of conversions and NoColor/per-colour enable changes",
"helper/fatihcolor has no tests.",
["helper/fatihcolor/fatihcolor.go"],[("conversion works on a private copy of the colour","helper/fatihcolor/fatihcolor.go:ToCoreColor")],
None,["converted bytes","rendering of the source colours"])

p("C19","Damaged documents are contained and judged consistently",
"For a stored JSON document that has been truncated or had bytes flipped, inserted, dropped or zeroed, Valid, Unmarshal, Parse and Decode finish within a bounded number of steps without panicking. Whatever the destination type, they accept it only if the damaged bytes are still JSON according to RFC 8259, and agree with each other on what is malformed; a proper prefix of an object, array, string or literal is always rejected.",
["crash_points","fault_sequences","inputs"],"every stored document x every sequence of torn, flipped, dropped, duplicated or zeroed bytes x every entry point",
"Tests hold about fifty fixed malformed inputs; damage positions inside large or deeply nested documents are not sampled.",
["parse.go","decode.go","json.go"],[("parseValue family","parse.go"),("decode* share parseValue for skipping and validation","decode.go")],
None,["accept/reject of each entry point"])

p("C20","Work and memory follow the documents, not the history",
"The work of a call and the memory it takes grow about linearly (a sorting factor apart) with the size of the document or value it handles, at bounded nesting depth. They do not depend on how a stream was cut into reads, nor on how many calls, failures or panics came before in the same process, Decoder, Encoder or Tokenizer. Memory kept between calls is bounded by the largest document seen and the number of types used, however many documents pass and whatever they contain.",
["histories","schedules","inputs"],"every stream x chunking, every history of successful, failing and panicking calls on long-lived objects, every document size",
"Tests run each operation once on small inputs; a quadratic re-scan per read, a buffer that is never reused or a leak per failed call leaves every result unchanged.",
["json.go","encode.go","decode.go","token.go","codec.go"],[("Decoder.readValue refill, compaction and growth","json.go"),("sync.Pool of encoder buffers and map scratch","encode.go"),("codec cache","codec.go"),("decodeSlice growth","decode.go")],
[("Decoder.buffer","input read but not consumed","json.go:Decoder"),("encoderBufferPool and mapsPools","scratch memory kept between calls","json.go, encode.go")],["executed statements","bytes allocated","bytes alive after a collection"])

# not applicable: pure functions
def n(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"every value or input; no schedule, fault or history involved","Tests sample some values only; the space of Go values and inputs is unbounded.",files,mech)
n("N01","Uncoloured Marshal output equals encoding/json","For every value both packages support, Marshal and uncoloured Encode produce a document equal to the one encoding/json produces, and both reject the same values.",["encode.go","codec.go"],[("encode* functions","encode.go")])
n("N02","Colour is transparent","Removing the escape sequences from coloured output gives exactly the uncoloured output for the same value and configuration, and each escape sequence run is closed by a reset.",["jsoncolor.go","encode.go"],[("Colors.append*","jsoncolor.go")])
n("N03","Each token carries the colour configured for its kind","Every key, string, number, bool, null, byte string, time, text value and punctuation mark is preceded by exactly the configured colour for its kind, punctuation falling back to Punc when its own colour is unset.",["jsoncolor.go","encode.go"],[("Colors.puncColor","jsoncolor.go")])
n("N04","Unmarshal stores what encoding/json would store","For every valid document and destination type, Unmarshal stores the same Go value as encoding/json, and fails for the same type mismatches.",["decode.go","codec.go"],[("decode* functions","decode.go")])
n("N05","Strings survive a round trip and are safe to embed","Every string encodes to a JSON string that decodes to itself (invalid UTF-8 replaced), and with HTML escaping on the output contains no <, >, &, U+2028 or U+2029.",["encode.go","parse.go"],[("doEncodeString","encode.go"),("parseStringUnquote","parse.go")])
n("N06","Inline indentation equals json.Indent","For every non-empty value the indented output equals applying json.Indent with the same prefix and indent to the compact output.",["encode.go"],[("Indenter","encode.go")])
n("N07","Struct field selection follows encoding/json","Tags, embedding, shadowing, omitempty and string options select and name the same fields as encoding/json for every struct type.",["codec.go"],[("appendStructFields","codec.go")])
n("N08","Raw JSON is re-rendered without changing its content","Re-encoding a RawMessage or Marshaler result yields JSON with the same members, values and number and string texts, only whitespace, colour and HTML escapes differing.",["encode.go","token.go"],[("appendRawMessageTokens","encode.go")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
