From 72faf6ecb32b51e07b6307f55814781f08b5728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 01/26] fix: Encoder.Encode returns the error of the failing
 write

---
 json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index cb27c32..972c936 100644
--- a/json.go
+++ b/json.go
@@ -408,8 +408,8 @@ func (enc *Encoder) Encode(v interface{}) error {
 	buf.data = append(buf.data, '\n')
 	b := buf.data
 
-	if _, err2 := enc.writer.Write(b); err2 != nil {
-		enc.err = err2
+	if _, err = enc.writer.Write(b); err != nil {
+		enc.err = err
 	}
 
 	encoderBufferPool.Put(buf)
-- 
2.43.0


From 5dc2a8e15fe99662c30c618b0827ee4bdd94aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 02/26] fix: treat input ending inside a unicode escape as
 incomplete, not malformed

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index f6efe9f..3914702 100644
--- a/parse.go
+++ b/parse.go
@@ -404,6 +404,10 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				case 'u':
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
+						if r := b[i+1:]; len(r) < 4 && bytes.IndexByte(r, '"') < 0 {
+							// The input ends inside the escape sequence.
+							return nil, b[len(b):], false, err
+						}
 						return nil, b, false, err
 					}
 					i += n
-- 
2.43.0


From 4fdcf6ad32005b6bc35b57a683dc56c5a1563491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 03/26] fix: report a malformed exponent where it is, not as
 the end of input

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 3914702..22b1583 100644
--- a/parse.go
+++ b/parse.go
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
-- 
2.43.0


From 8e4000e20e1665639cd1a013612c4487538ba8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 04/26] fix: count skipped spaces when there is nothing else to
 skip to

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 22b1583..1da468d 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return nil, len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
-- 
2.43.0


From 0c69be36a21ca10864f67dbd4ca8c7660eb88a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 05/26] fix: Decoder reads no further than needed and keeps
 reader errors

readValue filled its whole 32 KiB buffer before it looked at the input, so a
value was only returned once its peer had sent much more or closed the
stream; an error returned together with data was lost, io.ErrUnexpectedEOF
of the reader became io.EOF; and a number at the end of the buffer was cut
short.
---
 json.go | 72 +++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/json.go b/json.go
index 972c936..4dbb164 100644
--- a/json.go
+++ b/json.go
@@ -278,10 +278,15 @@ const (
 func (dec *Decoder) readValue() (v []byte, err error) {
 	var n int
 	var r []byte
+	var scan valueScanner
 
-	for {
-		if len(dec.remain) != 0 {
+	for first := true; ; first = false {
+		if len(dec.remain) != 0 && (first || dec.err != nil || scan.mayEnd(dec.remain)) {
 			v, r, err = parseValue(dec.remain)
+			if err == nil && len(r) == 0 && isNumber(v) && !errors.Is(dec.err, io.EOF) {
+				// More digits may follow in the input that was not read yet.
+				err = unexpectedEOF(r)
+			}
 			if err == nil {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
@@ -315,21 +320,64 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = buf
 		}
 
-		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
-		if n > 0 {
-			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
-				err = nil
-			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
-		}
+		n, dec.err = dec.reader.Read(dec.buffer[len(dec.buffer):cap(dec.buffer)])
+		dec.buffer = dec.buffer[:len(dec.buffer)+n]
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
-		dec.err = err
 	}
 }
 
+func isNumber(v []byte) bool { return RawValue(v).Number() }
+
+// valueScanner follows the nesting of a JSON value that arrives in several
+// reads, so that the value does not have to be parsed again from its beginning
+// after each of them.
+type valueScanner struct {
+	offset   int // number of bytes seen
+	depth    int
+	inString bool
+	escaped  bool
+	next     int // length at which the input is worth parsing in any case
+}
+
+// mayEnd returns true if b, which begins with the bytes passed to the previous
+// calls, is worth parsing: either the value at its beginning may be complete,
+// or so much was added that errors should be looked for.
+func (s *valueScanner) mayEnd(b []byte) bool {
+	if len(b) >= s.next {
+		s.next = 2 * len(b)
+		return true
+	}
+	for s.offset < len(b) {
+		c := b[s.offset]
+		s.offset++
+		switch {
+		case s.escaped:
+			s.escaped = false
+		case s.inString:
+			switch c {
+			case '\\':
+				s.escaped = true
+			case '"':
+				s.inString = false
+			}
+		default:
+			switch c {
+			case '"':
+				s.inString = true
+			case '{', '[':
+				s.depth++
+			case '}', ']':
+				s.depth--
+			}
+		}
+		if s.depth <= 0 && !s.inString {
+			return true
+		}
+	}
+	return false
+}
+
 // DisallowUnknownFields is documented at https://golang.org/pkg/encoding/json/#Decoder.DisallowUnknownFields
 func (dec *Decoder) DisallowUnknownFields() { dec.flags |= DisallowUnknownFields }
 
-- 
2.43.0


From c099207db914e8f3cf0d73b520033882d3292afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 06/26] fix: keep the nesting level of an Indenter private to
 one Append call

---
 encode.go | 15 ++++++++++-----
 json.go   | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index e4c0202..f7fdc94 100644
--- a/encode.go
+++ b/encode.go
@@ -512,7 +512,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 				b = e.clrs.appendPunc(b, ':')
 				b = e.indentr.appendByte(b, ' ')
 
-				b, err = Append(b, v, e.flags, e.clrs, e.indentr)
+				b, err = e.appendValue(b, v)
 				if err != nil {
 					return b, err
 				}
@@ -558,7 +558,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 			b = e.clrs.appendPunc(b, ':')
 			b = e.indentr.appendByte(b, ' ')
 
-			b, err = Append(b, elem.val, e.flags, e.clrs, e.indentr)
+			b, err = e.appendValue(b, elem.val)
 			if err != nil {
 				break
 			}
@@ -777,11 +777,11 @@ func (e encoder) encodePointer(b []byte, p unsafe.Pointer, _ reflect.Type, encod
 }
 
 func (e encoder) encodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
-	return Append(b, *(*interface{})(p), e.flags, e.clrs, e.indentr)
+	return e.appendValue(b, *(*interface{})(p))
 }
 
 func (e encoder) encodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
-	return Append(b, reflect.NewAt(t, p).Elem().Interface(), e.flags, e.clrs, e.indentr)
+	return e.appendValue(b, reflect.NewAt(t, p).Elem().Interface())
 }
 
 func (e encoder) encodeUnsupportedTypeError(b []byte, _ unsafe.Pointer, t reflect.Type) ([]byte, error) {
@@ -925,6 +925,11 @@ func (e encoder) appendRawMessageTokens(b, s []byte) ([]byte, error) {
 		}
 	}
 
+	// Leave the containers that the message does not close.
+	for range stack {
+		e.indentr.pop()
+	}
+
 	if tok.Err != nil {
 		return b[:start], tok.Err
 	}
@@ -1021,7 +1026,7 @@ func (e encoder) encodeJSONMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 	}
 
 	// We effectively delegate to the encodeRawMessage method.
-	return Append(b, RawMessage(j), e.flags, e.clrs, e.indentr)
+	return e.appendValue(b, RawMessage(j))
 }
 
 func (e encoder) encodeTextMarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
diff --git a/json.go b/json.go
index 4dbb164..3f7ae41 100644
--- a/json.go
+++ b/json.go
@@ -120,10 +120,23 @@ const (
 // construct an [Indenter] via [NewIndenter] to indent the output. The clrs
 // argument may be nil to disable colorization.
 func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *Indenter) ([]byte, error) {
+	if indentr != nil {
+		// The nesting level belongs to this call: it must neither be shared with
+		// concurrent calls, nor survive a call that fails halfway.
+		in := *indentr
+		indentr = &in
+	}
+
+	return encoder{flags: flags, clrs: clrs, indentr: indentr}.appendValue(b, x)
+}
+
+// appendValue appends the json representation of x, at the current nesting
+// level, to b.
+func (e encoder) appendValue(b []byte, x interface{}) ([]byte, error) {
 	if x == nil {
 		// Special case for nil values because it makes the rest of the code
 		// simpler to assume that it won't be seeing nil pointers.
-		return clrs.appendNull(b), nil
+		return e.clrs.appendNull(b), nil
 	}
 
 	t := reflect.TypeOf(x)
@@ -136,7 +149,7 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
-	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
+	b, err := c.encode(e, b, p)
 	runtime.KeepAlive(x)
 	return b, err
 }
-- 
2.43.0


From 4b5a80b84990f50c53f8a8a2ea631df2c4ec12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 07/26] fix: report an invalid RawMessage in an unsorted map

---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index f7fdc94..39a53b7 100644
--- a/encode.go
+++ b/encode.go
@@ -592,6 +592,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 	if (e.flags & SortMapKeys) == 0 {
 		// Optimized code path when the program does not need the map keys to be
 		// sorted.
+		start := len(b)
 		b = e.clrs.appendPunc(b, '{')
 
 		if len(m) != 0 {
@@ -617,7 +618,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b[:start], err
 				}
 
 				i++
-- 
2.43.0


From 5ee74e7466b76730ca4e80caadb52bd2fcc231cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 08/26] fix: Tokenizer reports unbalanced delimiters and stray
 commas in Err

---
 token.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token.go b/token.go
index df5f11e..95f71ae 100644
--- a/token.go
+++ b/token.go
@@ -188,11 +188,16 @@ skipLoop:
 		case ':':
 			t.isKey = false
 		case ',':
+			if len(t.stack) == 0 {
+				err = syntaxError(t.json, "found ',' outside of an array or object")
+				break
+			}
 			if t.is(inObject) {
 				t.isKey = true
 			}
 			t.stack[len(t.stack)-1].len++
 		}
+		t.Err = err
 	}
 
 	return (d != 0 || len(v) != 0) && err == nil
-- 
2.43.0


From 683ab369c0e23b8018168bcb0d80f5d8b050f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 09/26] fix: jc reports a failure to close its output file

---
 cmd/jc/main.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..ad38377 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -56,11 +56,8 @@ func main() {
 	}
 }
 
-func doMain() error {
-	var (
-		input []byte
-		err   error
-	)
+func doMain() (err error) {
+	var input []byte
 
 	if flagInputFile != nil && *flagInputFile != "" {
 		// Read from file
@@ -112,7 +109,12 @@ func doMain() error {
 		if f, err = os.Create(fpath); err != nil {
 			return fmt.Errorf("failed to open output file specified by -o %q: %w", *flagOutputFile, err)
 		}
-		defer f.Close()
+		defer func() {
+			// Writing is only known to have succeeded after Close.
+			if closeErr := f.Close(); err == nil {
+				err = closeErr
+			}
+		}()
 		out = f
 	} else {
 		// Output file NOT specified via -o flag, use stdout.
-- 
2.43.0


From 63254ad2068d750fc95aacde7561afba44585d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 10/26] fix: no comma for a field of a nil embedded struct
 pointer

---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 39a53b7..ce408cb 100644
--- a/encode.go
+++ b/encode.go
@@ -710,6 +710,8 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
+		lengthBeforeField := len(b)
+
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
 			b = e.indentr.appendByte(b, '\n')
@@ -721,7 +723,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -738,7 +739,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
 			if errors.Is(err, rollback{}) {
-				b = b[:lengthBeforeKey]
+				b = b[:lengthBeforeField]
 				continue
 			}
 			return b[:start], err
-- 
2.43.0


From c0bc9a2f5f52132f7eb5486ea67a6a62155d001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:06 +0000
Subject: [PATCH 11/26] fix: Unmarshal keeps the error of an array element or
 map key

An error from an array element or a map key left the decoder in the middle of
the value, so Unmarshal replaced it by a syntax error about trailing bytes. Skip
the whole value first, as slices, map values and struct fields already do.
---
 decode.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index ad4b113..5009ae2 100644
--- a/decode.go
+++ b/decode.go
@@ -510,6 +510,7 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+	input := b
 	b = b[1:]
 
 	var err error
@@ -532,6 +533,12 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size)))
 		if err != nil {
+			_, r, err2 := parseValue(input)
+			if err2 != nil {
+				return r, err2
+			}
+			b = r
+
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = t.String() + e.Struct
@@ -696,7 +703,15 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 		}
 
 		if b, err = decodeKey(d, b, kptr); err != nil {
-			return objectKeyError(b, err)
+			_, r, err2 := parseValue(input)
+			if err2 != nil {
+				return r, err2
+			}
+			var e *UnmarshalTypeError
+			if errors.As(err, &e) {
+				return objectKeyError(b, err)
+			}
+			return r, err
 		}
 		b = skipSpaces(b)
 
-- 
2.43.0


From 681697f72f3c64866ecd00367cfce1b97c235ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 12/26] fix: jc never colours file output

With FORCE_COLOR set, IsColorTerminal is true for any writer, and jc -o wrote
escape sequences into the file, against its documentation.
---
 cmd/jc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index ad38377..9d14cf6 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -123,7 +123,8 @@ func doMain() (err error) {
 
 	var enc *json.Encoder
 
-	if flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
+	// File output is never colorized, not even if FORCE_COLOR is set.
+	if out == os.Stdout && flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
 		outFile, _ := out.(*os.File)
 		out = colorable.NewColorable(outFile) // colorable is needed for Windows
 		enc = json.NewEncoder(out)
-- 
2.43.0


From 71365c127b69b2ee39eadeb06bc3e064d589a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:20 +0000
Subject: [PATCH 13/26] fix: encoding pointer-shaped arrays, structs, channels
 and functions

One-element arrays of pointers or maps, marshalers that are channels or
functions and, since Go 1.26, structs whose other fields have no size are
stored directly in interfaces. They were taken for pointers to their
values: encoding them crashed.
---
 codec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index 8f932b2..2a534b7 100644
--- a/codec.go
+++ b/codec.go
@@ -826,17 +826,17 @@ func align(align, size uintptr) uintptr {
 	return size
 }
 
+// inlined reports whether values of type t are stored directly in the data word
+// of an interface, in place of a pointer to them. Which types are is up to the
+// Go version: besides pointers and maps, channels and functions, also structs
+// and arrays that consist of nothing but one of those.
 func inlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Pointer:
-		return true
-	case reflect.Map:
-		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	// The data word of a zero value is nil only if it is the value.
+	z := reflect.Zero(t).Interface()
+	return (*iface)(unsafe.Pointer(&z)).ptr == nil
 }
 
 func isValidTag(s string) bool {
-- 
2.43.0


From 51f33ba0f63459dd4062c9f80077e4a50f837e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 14/26] fix: keep the type error of a map key

decodeMap replaced a *UnmarshalTypeError from decoding a key (also one
returned by the key's own UnmarshalText) with a SyntaxError about the
character following the key, although the input was already known to be
valid JSON.
---
 decode.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/decode.go b/decode.go
index 5009ae2..ed2b218 100644
--- a/decode.go
+++ b/decode.go
@@ -707,10 +707,6 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 			if err2 != nil {
 				return r, err2
 			}
-			var e *UnmarshalTypeError
-			if errors.As(err, &e) {
-				return objectKeyError(b, err)
-			}
 			return r, err
 		}
 		b = skipSpaces(b)
-- 
2.43.0


From 8c52975fd858eb94c4fb9898458d858f2672164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:37 +0000
Subject: [PATCH 15/26] fix: omitempty of fields in embedded struct pointers

Whether a promoted field is empty was decided by looking at the memory of
the struct that holds the embedded pointer, at the address of the pointer,
instead of at the field behind it. Depending on what follows in memory,
fields with a value were dropped from the output.
---
 codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codec.go b/codec.go
index 2a534b7..3b2fd9b 100644
--- a/codec.go
+++ b/codec.go
@@ -620,6 +620,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
+			subfield.empty = constructEmbeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.offset = embfield.offset
 		} else {
 			subfield.offset += embfield.offset
@@ -858,6 +859,13 @@ func isValidTag(s string) bool {
 	return true
 }
 
+func constructEmbeddedStructPointerEmptyFunc(offset uintptr, empty emptyFunc) emptyFunc {
+	return func(p unsafe.Pointer) bool {
+		p = *(*unsafe.Pointer)(p)
+		return p == nil || empty(unsafe.Pointer(uintptr(p)+offset))
+	}
+}
+
 func emptyFuncOf(t reflect.Type) emptyFunc {
 	switch t {
 	case bytesType, rawMessageType:
-- 
2.43.0


From 76d81e12bf1db684b91c6d9ec0b04449f90cda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:26 +0000
Subject: [PATCH 16/26] fix: do not parse a long number again after every read

---
 json.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 3f7ae41..9d8e198 100644
--- a/json.go
+++ b/json.go
@@ -384,13 +384,22 @@ func (s *valueScanner) mayEnd(b []byte) bool {
 				s.depth--
 			}
 		}
-		if s.depth <= 0 && !s.inString {
+		if s.depth <= 0 && !s.inString && !(isNumber(b) && isNumberByte(c)) {
 			return true
 		}
 	}
 	return false
 }
 
+// isNumberByte returns true if a number may go on with c.
+func isNumberByte(c byte) bool {
+	switch c {
+	case '+', '-', '.', 'e', 'E':
+		return true
+	}
+	return '0' <= c && c <= '9'
+}
+
 // DisallowUnknownFields is documented at https://golang.org/pkg/encoding/json/#Decoder.DisallowUnknownFields
 func (dec *Decoder) DisallowUnknownFields() { dec.flags |= DisallowUnknownFields }
 
-- 
2.43.0


From abbe988d2e545ef26c0bf0edd4e59fca6b24f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 17/26] fix: do not accept array elements without a comma
 between them

Elements beyond the length of the Go array were skipped without looking for
the commas, so that Unmarshal of [1 2] into a [1]int succeeded.
---
 decode.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index ed2b218..84dbe56 100644
--- a/decode.go
+++ b/decode.go
@@ -550,20 +550,24 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 
 	// The encoding/json package ignores extra elements found when decoding into
 	// array types (which have a fixed size).
-	for {
+	for i := n; ; i++ {
 		b = skipSpaces(b)
 
 		if len(b) == 0 {
 			return b, syntaxError(b, "missing closing ']' in array value")
 		}
 
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
+		if b[0] == ']' {
 			return b[1:], nil
 		}
 
+		if i != 0 {
+			if b[0] != ',' {
+				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
+			}
+			b = skipSpaces(b[1:])
+		}
+
 		_, b, err = parseValue(b)
 		if err != nil {
 			return b, err
-- 
2.43.0


From 396653ae9108e3f7678242fff402e457db8e20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:42 +0000
Subject: [PATCH 18/26] fix: accept an empty JSON array for a Go array

Unmarshal of [] into a [2]int failed with a syntax error.
---
 decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decode.go b/decode.go
index 84dbe56..8153893 100644
--- a/decode.go
+++ b/decode.go
@@ -517,18 +517,18 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	for i := 0; i < n; i++ {
 		b = skipSpaces(b)
 
+		if len(b) != 0 && b[0] == ']' {
+			return b[1:], nil
+		}
+
 		if i != 0 {
 			if len(b) == 0 {
 				return b, syntaxError(b, "unexpected EOF after array element")
 			}
-			switch b[0] {
-			case ',':
-				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
-			default:
+			if b[0] != ',' {
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
+			b = skipSpaces(b[1:])
 		}
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size)))
-- 
2.43.0


From 925e1b8e8fcf9f6ce8998f9047e76d937ad077d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 19/26] fix: an integer out of range is not a syntax error

Unmarshal of an integer that overflows 64 bits reported an invalid character
after the top-level value, because the number itself was taken for the rest of
the input.
---
 parse.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 1da468d..178bd34 100644
--- a/parse.go
+++ b/parse.go
@@ -71,14 +71,16 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			}
 
 			if value < lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := integerOverflow(b, t)
+				return 0, r, err
 			}
 
 			value *= 10
 			x := int64(d - '0')
 
 			if value < (maxVal + x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := integerOverflow(b, t)
+				return 0, r, err
 			}
 
 			value -= x
@@ -105,11 +107,13 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			x := int64(d - '0')
 
 			if value > lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := integerOverflow(b, t)
+				return 0, r, err
 			}
 
 			if value *= 10; value > (maxVal - x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := integerOverflow(b, t)
+				return 0, r, err
 			}
 
 			value += x
@@ -158,11 +162,13 @@ func parseUint(b []byte, t reflect.Type) (uint64, []byte, error) {
 		x := uint64(d - '0')
 
 		if value > lim {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := integerOverflow(b, t)
+			return 0, r, err
 		}
 
 		if value *= 10; value > (maxVal - x) {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := integerOverflow(b, t)
+			return 0, r, err
 		}
 
 		value += x
@@ -183,6 +189,16 @@ func parseUint(b []byte, t reflect.Type) (uint64, []byte, error) {
 	return value, b[count:], nil
 }
 
+// integerOverflow returns the error for the number at the beginning of b, which
+// is out of the range of integers, and what follows it.
+func integerOverflow(b []byte, t reflect.Type) ([]byte, error) {
+	_, r, err := parseNumber(b)
+	if err != nil {
+		return r, err
+	}
+	return r, unmarshalOverflow(b, t)
+}
+
 // parseUintHex parses a hexadecimanl representation of a uint64 from b.
 //
 // The function is equivalent to calling strconv.ParseUint(string(b), 16, 64) but
-- 
2.43.0


From 9f1baedbe54f0c1196b7a449281f83a0e23a7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:18 +0000
Subject: [PATCH 20/26] fix: map keys that implement only one of the text
 interfaces

Encoding a map whose key type implements encoding.TextUnmarshaler but not
encoding.TextMarshaler, and decoding into one whose key type implements
encoding.TextMarshaler only, ended in a nil pointer dereference. Such keys
are now handled by their kind; without a usable kind the map type is
reported as unsupported.
---
 codec.go | 50 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 3b2fd9b..9a13853 100644
--- a/codec.go
+++ b/codec.go
@@ -352,9 +352,12 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
+	// A key type may implement only one of the text interfaces.
+	isTextUnmarshaler := reflect.PointerTo(k).Implements(textUnmarshalerType)
+
+	if k.Implements(textMarshalerType) {
 		kc.encode = constructTextMarshalerEncodeFunc(k, false)
-		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+		kc.decode = constructMapKeyDecodeFunc(k, seen)
 
 		sortKeys = func(keys []reflect.Value) {
 			sort.Slice(keys, func(i, j int) bool {
@@ -401,17 +404,52 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			}
 
 		default:
-			return constructUnsupportedTypeCodec(t)
+			if !isTextUnmarshaler {
+				return constructUnsupportedTypeCodec(t)
+			}
 		}
 	}
 
+	if isTextUnmarshaler {
+		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	}
+
 	if inlined(v) {
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
 
-	return codec{
-		encode: constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys),
-		decode: constructMapDecodeFunc(t, kc.decode, vc.decode),
+	c := constructUnsupportedTypeCodec(t)
+	if kc.encode != nil {
+		c.encode = constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys)
+	}
+	if kc.decode != nil {
+		c.decode = constructMapDecodeFunc(t, kc.decode, vc.decode)
+	}
+	return c
+}
+
+// constructMapKeyDecodeFunc returns the function that decodes a map key of a
+// type that isn't a encoding.TextUnmarshaler, or nil if there is none.
+func constructMapKeyDecodeFunc(k reflect.Type, seen map[reflect.Type]*structType) decodeFunc {
+	switch k.Kind() {
+	case reflect.String:
+		return decoder.decodeString
+
+	case reflect.Int,
+		reflect.Int8,
+		reflect.Int16,
+		reflect.Int32,
+		reflect.Int64,
+		reflect.Uint,
+		reflect.Uintptr,
+		reflect.Uint8,
+		reflect.Uint16,
+		reflect.Uint32,
+		reflect.Uint64:
+		return constructStringCodec(k, seen, false).decode
+
+	default:
+		return nil
 	}
 }
 
-- 
2.43.0


From df0a4ba4483d11fd9814114f3bd50be1fca1ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:32 +0000
Subject: [PATCH 21/26] fix: a reader's error that wraps io.EOF is not the end
 of input

io.Reader reports the end of its input with io.EOF itself. An error that
merely wraps it is a failure: it must not turn the beginning of a number
into a value, and it must be returned as it is inside a value.
---
 json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 9d8e198..ba23c9e 100644
--- a/json.go
+++ b/json.go
@@ -296,7 +296,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for first := true; ; first = false {
 		if len(dec.remain) != 0 && (first || dec.err != nil || scan.mayEnd(dec.remain)) {
 			v, r, err = parseValue(dec.remain)
-			if err == nil && len(r) == 0 && isNumber(v) && !errors.Is(dec.err, io.EOF) {
+			if err == nil && len(r) == 0 && isNumber(v) && dec.err != io.EOF { //nolint:errorlint // an error wrapping io.EOF is a failure
 				// More digits may follow in the input that was not read yet.
 				err = unexpectedEOF(r)
 			}
@@ -314,7 +314,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		}
 
 		if err = dec.err; err != nil {
-			if len(dec.remain) != 0 && errors.Is(err, io.EOF) {
+			if len(dec.remain) != 0 && err == io.EOF { //nolint:errorlint // an error wrapping io.EOF is a failure
 				err = io.ErrUnexpectedEOF
 			}
 			return v, err
-- 
2.43.0


From 37866fea682b9d23282690369f574bc8a99daf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:33 +0000
Subject: [PATCH 22/26] fix: a Marshaler's error is never taken for the
 encoder's own sentinel

An error whose Is method accepts any target made the encoder drop the field
and report success.
---
 encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index ce408cb..4fd21a0 100644
--- a/encode.go
+++ b/encode.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding"
 	"encoding/base64"
-	"errors"
 	"math"
 	"reflect"
 	"sort"
@@ -738,7 +737,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		b = e.indentr.appendByte(b, ' ')
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
-			if errors.Is(err, rollback{}) {
+			if _, ok := err.(rollback); ok { //nolint:errorlint // never wrapped; a user's error may claim to be any
 				b = b[:lengthBeforeField]
 				continue
 			}
-- 
2.43.0


From a9dc9e359b997e85041f28e96f03d569ad3075f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:46 +0000
Subject: [PATCH 23/26] fix: map keys of pointer types that are TextMarshalers

---
 codec.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 9a13853..d4dc905 100644
--- a/codec.go
+++ b/codec.go
@@ -356,18 +356,14 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	isTextUnmarshaler := reflect.PointerTo(k).Implements(textUnmarshalerType)
 
 	if k.Implements(textMarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
+		kc.encode = constructMapKeyTextMarshalerEncodeFunc(k)
 		kc.decode = constructMapKeyDecodeFunc(k, seen)
 
 		sortKeys = func(keys []reflect.Value) {
 			sort.Slice(keys, func(i, j int) bool {
 				// This is a performance abomination but the use case is rare
 				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
+				return mapKeyText(keys[i]) < mapKeyText(keys[j])
 			})
 		}
 	} else {
@@ -414,6 +410,10 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
 	}
 
+	if kc.encode != nil && inlined(k) {
+		kc.encode = constructInlineValueEncodeFunc(kc.encode)
+	}
+
 	if inlined(v) {
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
@@ -428,6 +428,36 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	return c
 }
 
+// constructMapKeyTextMarshalerEncodeFunc returns the function that encodes a
+// map key of type t, which is an encoding.TextMarshaler. A key can't be null:
+// like in encoding/json, the text of a nil key is empty.
+func constructMapKeyTextMarshalerEncodeFunc(t reflect.Type) encodeFunc {
+	encode := constructTextMarshalerEncodeFunc(t, false)
+	if t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface {
+		return encode
+	}
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if reflect.NewAt(t, p).Elem().IsNil() {
+			return e.encodeKey(b, unsafe.Pointer(new(string)))
+		}
+		return encode(e, b, p)
+	}
+}
+
+// mapKeyText returns the text that a map key which is an
+// encoding.TextMarshaler is sorted by.
+func mapKeyText(k reflect.Value) string {
+	switch k.Kind() {
+	case reflect.Pointer, reflect.Interface:
+		if k.IsNil() {
+			return ""
+		}
+	}
+	tm, _ := k.Interface().(encoding.TextMarshaler)
+	text, _ := tm.MarshalText()
+	return string(text)
+}
+
 // constructMapKeyDecodeFunc returns the function that decodes a map key of a
 // type that isn't a encoding.TextUnmarshaler, or nil if there is none.
 func constructMapKeyDecodeFunc(k reflect.Type, seen map[reflect.Type]*structType) decodeFunc {
-- 
2.43.0


From 1638d67bb2003aaae433fc01cf9736c7d67486f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:44 +0000
Subject: [PATCH 24/26] fix: do not move a partial value over itself at every
 read

A value that arrives in many reads cost time quadratic in its size: before
each read all of it was copied onto itself.
---
 json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index ba23c9e..18e39c1 100644
--- a/json.go
+++ b/json.go
@@ -323,7 +323,9 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		if dec.buffer == nil {
 			dec.buffer = make([]byte, 0, minBufferSize)
 		} else {
-			dec.buffer = dec.buffer[:copy(dec.buffer[:cap(dec.buffer)], dec.remain)]
+			if len(dec.remain) != len(dec.buffer) {
+				dec.buffer = dec.buffer[:copy(dec.buffer[:cap(dec.buffer)], dec.remain)]
+			}
 			dec.remain = nil
 		}
 
-- 
2.43.0


From 9c4c16a9f54dd17a3131e2176598ce5009312bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 25/26] fix: refuse numbers followed by something else

A Number such as "12x", "01" or "1 2" was written as it is, which made the
whole document invalid, and no error was returned. Only its beginning was
checked.
---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 4fd21a0..b3e0bb1 100644
--- a/encode.go
+++ b/encode.go
@@ -134,10 +134,13 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
 	if err != nil {
 		return b, err
 	}
+	if len(r) != 0 {
+		return b, syntaxError(r, "invalid character '%c' after number", r[0])
+	}
 
 	if e.clrs == nil {
 		return append(b, n...), nil
-- 
2.43.0


From abe4e4e531e656990a1235aa1739d756670a67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 26/26] fix: refuse raw messages that go on after their value

A RawMessage or the output of a Marshaler such as "1 2" or "{}}" was encoded as
its first value, what followed was dropped, and no error was returned.
---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index b3e0bb1..6cd1433 100644
--- a/encode.go
+++ b/encode.go
@@ -817,8 +817,12 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := []byte(v)
 	if !trusted {
+		var r []byte
 		var err error
-		s, _, err = parseValue(v)
+		s, r, err = parseValue(v)
+		if r = skipSpaces(r); err == nil && len(r) != 0 {
+			err = syntaxError(r, "invalid character '%c' after raw message", r[0])
+		}
 		if err != nil {
 			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 		}
-- 
2.43.0

