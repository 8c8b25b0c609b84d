From f1fc6b63d126c1238fbdacd0562e1f4cd8bde6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 01/21] fix: encode the element of interfaces that have methods

The itab word of a non-empty interface was read as a type, which
crashed the program.
---
 encode.go      | 12 +++++++++++-
 instruction.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 7525b1f..54e9408 100644
--- a/encode.go
+++ b/encode.go
@@ -63,7 +63,17 @@ func encodeFloat64(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 }
 
 func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	v := *(*interface{})(p)
+	return encodeIfaceElem(*(*interface{})(p), dst, opts)
+}
+
+// encodeMethodInterface is similar to encodeInterface,
+// but for non-empty interfaces, which have a different
+// memory layout.
+func encodeMethodInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	return encodeIfaceElem(*(*interface{ M() })(p), dst, opts)
+}
+
+func encodeIfaceElem(v interface{}, dst []byte, opts encOpts) ([]byte, error) {
 	if v == nil {
 		return append(dst, "null"...), nil
 	}
diff --git a/instruction.go b/instruction.go
index 138d7d2..5077d86 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From 6e91ad667c9003f0817ae2d02436cb12505c45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 02/21] fix: handle all types stored directly in interfaces

Arrays of one pointer-shaped element, and structs holding a single
channel, function or such array, were read as if the interface word
pointed to them.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b4aaab4..af5a03e 100644
--- a/types.go
+++ b/types.go
@@ -66,10 +66,14 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether values of type t are
+// stored directly in the data word of an interface.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
 	default:
-- 
2.43.0


From 94267cae116f9a592287154545dda8e3b559c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 03/21] fix: call marshaler methods of pointer-shaped types on
 the right value

Maps, functions and single-pointer structs or arrays with a value
receiver method were packed into an interface without loading their
data word.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 54e9408..eae7971 100644
--- a/encode.go
+++ b/encode.go
@@ -681,7 +681,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, isInlined(t) && !canAddr)
 	}
 	return fn(i, dst, opts, t)
 }
-- 
2.43.0


From 240c63d05a9e1e7b460cabffc2a9619308e5e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 04/21] fix: keep the object valid when omitnil drops its first
 member

---
 encode.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index eae7971..738a50b 100644
--- a/encode.go
+++ b/encode.go
@@ -247,11 +247,8 @@ fieldLoop:
 		if noHTMLEscape {
 			key = f.keyNonEsc
 		}
-		lastKeyOffset := len(dst)
+		lastKeyOffset, lastNxt := len(dst), nxt
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
 		nxt = ','
 		dst = append(dst, key...)
 
@@ -261,6 +258,7 @@ fieldLoop:
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
 			dst = dst[:lastKeyOffset]
+			nxt = lastNxt
 		}
 	}
 	if nxt == '{' {
-- 
2.43.0


From c05ac020828876c892399fbf1cd1d92532e10dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 05/21] fix: do not share the offset sequence of sibling
 embedded structs

Appending to the parent's sequence let deeply embedded siblings
overwrite each other's last offset.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From a3a01b62a196e2379bdfd1645a05baf8b0a88ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 06/21] fix: escape the text returned by MarshalText

---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 738a50b..cf00979 100644
--- a/encode.go
+++ b/encode.go
@@ -724,13 +724,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 3a091c09b2e15abf06ef18752f30d5a1996fe6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 07/21] fix: accept the semicolon in field names given by tags

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 34080c1..3a6c16c 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From 2c705292888c1f375b2a5b8af02ab109a67fe764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 08/21] fix: apply the string tag option to json.Number and
 time.Duration

---
 encode.go      |  9 +++++++++
 instruction.go | 10 ++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index cf00979..8742bc8 100644
--- a/encode.go
+++ b/encode.go
@@ -162,6 +162,15 @@ func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	}
 }
 
+// encodeQuotedDuration is similar to encodeDuration, but
+// encloses the formats that are numbers in a JSON string.
+func encodeQuotedDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.durationFmt == DurationString {
+		return encodeDuration(p, dst, opts)
+	}
+	return wrapQuotedInstr(encodeDuration)(p, dst, opts)
+}
+
 func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	if math.IsInf(f, 0) || math.IsNaN(f) {
 		return dst, &UnsupportedValueError{
diff --git a/instruction.go b/instruction.go
index 5077d86..41edb46 100644
--- a/instruction.go
+++ b/instruction.go
@@ -88,7 +88,7 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// be interpreted as a basic type. Also, the time.Time
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
-	if ins := newGoTypeInstr(t); ins != nil {
+	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
@@ -117,15 +117,21 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	return newUnsupportedTypeInstr(t)
 }
 
-func newGoTypeInstr(t reflect.Type) instruction {
+func newGoTypeInstr(t reflect.Type, quoted bool) instruction {
 	switch t {
 	case syncMapType:
 		return encodeSyncMap
 	case timeTimeType:
 		return encodeTime
 	case timeDurationType:
+		if quoted {
+			return encodeQuotedDuration
+		}
 		return encodeDuration
 	case jsonNumberType:
+		if quoted {
+			return wrapQuotedInstr(encodeNumber)
+		}
 		return encodeNumber
 	case jsonRawMessageType:
 		return encodeRawMessage
-- 
2.43.0


From 6ba2287ba78cda2537b44703ae2594363c88a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 09/21] fix: escape the JSON string of strings with the string
 tag option

---
 encode.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index 8742bc8..daab00b 100644
--- a/encode.go
+++ b/encode.go
@@ -43,9 +43,22 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	dst = append(dst, `"\"`...)
-	dst = appendEscapedBytes(dst, sp2b(p), opts)
-	dst = append(dst, `\""`...)
+	if opts.flags.has(noStringEscaping) {
+		dst = append(dst, `"\"`...)
+		dst = append(dst, sp2b(p)...)
+		return append(dst, `\""`...), nil
+	}
+	buf := cachedBuffer()
+	buf.B, _ = encodeString(p, buf.B, opts)
+
+	// The escape sequences of the inner JSON
+	// string must be escaped too. It does not
+	// have HTML characters left to escape.
+	opts.flags.set(noHTMLEscaping)
+	dst = append(dst, '"')
+	dst = appendEscapedBytes(dst, buf.B, opts)
+	dst = append(dst, '"')
+	bufferPool.Put(buf)
 
 	return dst, nil
 }
-- 
2.43.0


From ce23e0c3e7b31c6f78290a006c9c6d119a2ba405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 10/21] fix: encode pointers to time.Time like the times they
 point to

The time options were ignored because the pointer type was handled
through its MarshalJSON method.
---
 instruction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index 41edb46..6888fbd 100644
--- a/instruction.go
+++ b/instruction.go
@@ -91,6 +91,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newGoTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	// Same for a pointer to one of these types, which
+	// inherits the marshaler methods of its element.
+	if t.Kind() == reflect.Ptr && t.Name() == "" && newGoTypeInstr(t.Elem(), quoted) != nil {
+		return newPtrInstr(t, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
-- 
2.43.0


From 40d2fcc8aa9b74ae141a01948cb9c05ab963c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 11/21] fix: treat fields promoted through embedded pointers as
 addressable

---
 instruction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 6888fbd..f171492 100644
--- a/instruction.go
+++ b/instruction.go
@@ -324,10 +324,16 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 			// eliminate a check at runtime.
 			f.omitNil = false
 		}
+		// A field reached through an embedded pointer is
+		// always addressable.
+		fldAddr := canAddr
+		for _, s := range f.embedSeq {
+			fldAddr = fldAddr || s.indir
+		}
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		f.instr = newInstruction(ftyp, fldAddr, f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
-- 
2.43.0


From 8bd0aa5bdb7a0e9d122559e49ab4e4f9816f1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 12/21] fix: report an error for a json.RawMessage that is not
 valid JSON

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index daab00b..29ac5e1 100644
--- a/encode.go
+++ b/encode.go
@@ -122,6 +122,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From a2242aae9e69b0fd4d6833aad1317a3007e64658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 13/21] fix: escape the text of times written with a custom
 layout

---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 29ac5e1..8892443 100644
--- a/encode.go
+++ b/encode.go
@@ -149,8 +149,9 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	case time.RFC3339Nano:
 		return appendRFC3339Time(t, dst, true), nil
 	default:
+		var buf [64]byte
 		dst = append(dst, '"')
-		dst = t.AppendFormat(dst, opts.timeLayout)
+		dst = appendEscapedBytes(dst, t.AppendFormat(buf[:0], opts.timeLayout), opts)
 		dst = append(dst, '"')
 		return dst, nil
 	}
-- 
2.43.0


From 0869e8017c8120156596b7398ba6fc081713af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 14/21] fix: write the dates of year 0 correctly

---
 time.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/time.go b/time.go
index 892ab6b..493c970 100644
--- a/time.go
+++ b/time.go
@@ -180,7 +180,17 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 	// Year.
 	_, offset := t.Zone()
 	sec := t.Unix() + int64(offset) + epoch
+	shift := sec < 0
+	if shift {
+		// The algorithm does not handle days before the
+		// last one of year 0. The calendar repeats itself
+		// every 400 years, so use the same day of year 400.
+		sec += 146097 * 86400
+	}
 	y, m, d := rdnToYmd(uint32(sec / 86400))
+	if shift {
+		y -= 400
+	}
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
 		y /= 10
-- 
2.43.0


From 37d3b66ad17644675dece0af6149f7e276a2493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 15/21] fix: write each map key as one JSON string

Time keys with the UnixTime option were not quoted (and crashed the
sort), Duration keys with DurationString were quoted twice, and a
MarshalJSON method of the key type was used instead of MarshalText or
of the decimal representation of integers.
---
 instruction.go | 61 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/instruction.go b/instruction.go
index f171492..9b99073 100644
--- a/instruction.go
+++ b/instruction.go
@@ -399,24 +399,7 @@ func newMapInstr(t reflect.Type) instruction {
 	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
+	ki = newMapKeyInstr(kt)
 	vi = newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -424,6 +407,32 @@ func newMapInstr(t reflect.Type) instruction {
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode a map
+// key of type t, which always yields a JSON string.
+func newMapKeyInstr(t reflect.Type) instruction {
+	// The standard library has a strict precedence order
+	// for map key types, defined by the documentation of
+	// the json.Marshal function. That's why we bypass the
+	// newTypeInstr function.
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType:
+		return wrapQuotedKeyInstr(encodeTime)
+	case t == timeDurationType:
+		return encodeQuotedDuration
+	case t.Implements(textMarshalerType):
+		ki := newTextMarshalerInstr(t, false)
+		// See issue golang.org/issue/33675 for reference.
+		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
+			ki = wrapTextMarshalerNilCheck(ki)
+		}
+		return ki
+	default:
+		return newBasicTypeInstr(t, true)
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
@@ -442,6 +451,22 @@ func wrapQuotedInstr(ins instruction) instruction {
 	}
 }
 
+// wrapQuotedKeyInstr is similar to wrapQuotedInstr, but
+// leaves alone what already is a JSON string.
+func wrapQuotedKeyInstr(ins instruction) instruction {
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		off := len(dst)
+		dst, err := ins(p, dst, opts)
+		if err != nil || dst[off] == '"' {
+			return dst, err
+		}
+		dst = append(dst, '"')
+		copy(dst[off+1:], dst[off:])
+		dst[off] = '"'
+		return append(dst, '"'), nil
+	}
+}
+
 func wrapTextMarshalerNilCheck(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		if *(*unsafe.Pointer)(p) == nil {
-- 
2.43.0


From 7f00dbff38d36a4813d41ce8a8dcfd2fda667584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 16/21] fix: encode the keys and values of a sync.Map like
 those of a map

A nil value and time keys with UnixTime crashed the program, nil text
marshaler keys gave invalid JSON and keys with several marshaling
methods did not use MarshalText.
---
 encode.go | 31 +++++++------------------------
 json.go   |  4 ++++
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/encode.go b/encode.go
index 8892443..3590bcc 100644
--- a/encode.go
+++ b/encode.go
@@ -637,31 +637,14 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 	if !isStr && !isInt && !isTxt {
 		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	var err error
-
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
+	ins := newMapKeyInstr(kt)
+	if isInlined(kt) {
+		ins = wrapInlineInstr(ins)
 	}
-	if err != nil {
-		return dst, err
-	}
-	if quoted {
-		dst = append(dst, '"')
-	}
-	return dst, nil
+	dst, err := ins(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/json.go b/json.go
index 337396f..131edbb 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,10 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		// Nil value of a sync.Map.
+		return append(dst, "null"...), nil
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0


From 070754a57578342030ad0a7048e6fe532ddc1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 17/21] fix: sort map keys by their text rather than by its
 escaped form

---
 encode.go  | 20 ++++++++++++++++++--
 options.go |  7 +++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 3590bcc..277b8cd 100644
--- a/encode.go
+++ b/encode.go
@@ -466,11 +466,12 @@ func encodeSortedMap(
 
 		// Encode the key and store the buffer
 		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		if buf.B, err = ki(it.key, buf.B, opts.rawKeys()); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off, buf.B = appendEscapedKey(buf.B, off, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
@@ -509,6 +510,20 @@ func encodeSortedMap(
 	return dst, err
 }
 
+// appendEscapedKey appends to dst the escaped form of the
+// raw key that starts at off, if it needs escaping, and
+// returns the offset of the key to use in the output.
+func appendEscapedKey(dst []byte, off int, opts encOpts) (int, []byte) {
+	end := len(dst)
+	dst = append(dst, '"')
+	dst = appendEscapedBytes(dst, dst[off+1:end-1], opts)
+	dst = append(dst, '"')
+	if bytes.Equal(dst[off:end], dst[end:]) {
+		return off, dst[:end]
+	}
+	return end, dst
+}
+
 // encodeSyncMap appends the elements of a sync.Map pointed
 // to by p to dst and returns the extended buffer.
 // This function replicates the behavior of encoding Go maps,
@@ -583,11 +598,12 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 
 		// Encode the key and store the buffer
 		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		if buf.B, err = appendSyncMapKey(buf.B, key, opts.rawKeys()); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off, buf.B = appendEscapedKey(buf.B, off, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
diff --git a/options.go b/options.go
index f9e69c7..04b65f2 100644
--- a/options.go
+++ b/options.go
@@ -96,6 +96,13 @@ func (eo encOpts) isDeniedField(name string) bool {
 	return false
 }
 
+// rawKeys returns the options to use to get the text
+// of map keys, by which they are sorted.
+func (eo encOpts) rawKeys() encOpts {
+	eo.flags.set(noStringEscaping)
+	return eo
+}
+
 type stringSet map[string]struct{}
 
 func fieldListToSet(list []string) stringSet {
-- 
2.43.0


From cc3dabf37b0c21c7541221bae5bcc38e95d3d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 18/21] fix: support recursive types that are not structs

Generating the instruction of a slice, map, array or pointer type that
refers to itself without a struct in between never ended.
---
 instruction.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 9b99073..115e133 100644
--- a/instruction.go
+++ b/instruction.go
@@ -102,6 +102,13 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newBasicTypeInstr(t, quoted); ins != nil {
 		return ins
 	}
+	if t.Name() != "" && t.Kind() != reflect.Struct {
+		return newNamedTypeInstr(t, canAddr, quoted)
+	}
+	return newCompositeTypeInstr(t, canAddr, quoted)
+}
+
+func newCompositeTypeInstr(t reflect.Type, canAddr, quoted bool) instruction {
 	switch t.Kind() {
 	case reflect.Interface:
 		if t.NumMethod() != 0 {
@@ -263,6 +270,20 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 }
 
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
+	return newSharedInstr(t, canAddr, func() instruction {
+		return newStructFieldsInstr(t, canAddr)
+	})
+}
+
+// newNamedTypeInstr returns an instruction to encode the
+// named type t, that may be recursive like a struct.
+func newNamedTypeInstr(t reflect.Type, canAddr, quoted bool) instruction {
+	return newSharedInstr(t, canAddr, func() instruction {
+		return newCompositeTypeInstr(t, canAddr, quoted)
+	})
+}
+
+func newSharedInstr(t reflect.Type, canAddr bool, build func() instruction) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
 	if instr, ok := structInstrCache.Load(id); ok {
@@ -290,7 +311,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = build()
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
-- 
2.43.0


From fd992682e33db76fe95a045a4679782a2bd51af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 19/21] fix: report an error for values that contain themselves

As in encoding/json, cycles are searched once 1000 pointers, maps and
slices are nested, instead of exhausting the stack.
---
 cycle.go       | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 encode.go      | 28 +++++++++++++++++++++++-----
 instruction.go |  4 ++--
 options.go     |  4 ++++
 4 files changed, 75 insertions(+), 7 deletions(-)
 create mode 100644 cycle.go

diff --git a/cycle.go b/cycle.go
new file mode 100644
index 0000000..850215c
--- /dev/null
+++ b/cycle.go
@@ -0,0 +1,46 @@
+package jettison
+
+import (
+	"fmt"
+	"reflect"
+	"unsafe"
+)
+
+// cycleDepth is the number of nested pointers, maps and
+// slices from which cycles are searched.
+const cycleDepth = 1000
+
+// ref identifies a non-nil pointer, map or slice.
+type ref struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+// enter must be called before the elements of r, whose
+// value is pointed by p, are encoded with the options eo.
+// It returns an error if r contains itself.
+func (eo *encOpts) enter(r ref, p unsafe.Pointer) error {
+	if eo.refDepth++; eo.refDepth <= cycleDepth {
+		return nil
+	}
+	if eo.refs == nil {
+		eo.refs = make(map[ref]struct{})
+	}
+	if _, ok := eo.refs[r]; ok {
+		v := reflect.New(r.typ).Elem()
+		v.Set(reflect.NewAt(r.typ, p).Elem())
+		return &UnsupportedValueError{v, fmt.Sprintf("encountered a cycle via %s", r.typ)}
+	}
+	eo.refs[r] = struct{}{}
+
+	return nil
+}
+
+// leave must be called after the elements of r have
+// been encoded.
+func (eo *encOpts) leave(r ref) {
+	if eo.refDepth > cycleDepth {
+		delete(eo.refs, r)
+	}
+}
diff --git a/encode.go b/encode.go
index 277b8cd..d090531 100644
--- a/encode.go
+++ b/encode.go
@@ -220,9 +220,15 @@ func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	return dst, nil
 }
 
-func encodePointer(p unsafe.Pointer, dst []byte, opts encOpts, ins instruction) ([]byte, error) {
-	if p = *(*unsafe.Pointer)(p); p != nil {
-		return ins(p, dst, opts)
+func encodePointer(p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction) ([]byte, error) {
+	if e := *(*unsafe.Pointer)(p); e != nil {
+		r := ref{t, e, 0}
+		if err := opts.enter(r, p); err != nil {
+			return dst, err
+		}
+		dst, err := ins(e, dst, opts)
+		opts.leave(r)
+		return dst, err
 	}
 	return append(dst, "null"...), nil
 }
@@ -296,7 +302,7 @@ fieldLoop:
 }
 
 func encodeSlice(
-	p unsafe.Pointer, dst []byte, opts encOpts, ins instruction, es uintptr,
+	p unsafe.Pointer, dst []byte, opts encOpts, t reflect.Type, ins instruction, es uintptr,
 ) ([]byte, error) {
 	shdr := (*sliceHeader)(p)
 	if shdr.Data == nil {
@@ -308,7 +314,14 @@ func encodeSlice(
 	if shdr.Len == 0 {
 		return append(dst, "[]"...), nil
 	}
-	return encodeArray(shdr.Data, dst, opts, ins, es, shdr.Len, false)
+	r := ref{t, shdr.Data, shdr.Len}
+	if err := opts.enter(r, p); err != nil {
+		return dst, err
+	}
+	dst, err := encodeArray(shdr.Data, dst, opts, ins, es, shdr.Len, false)
+	opts.leave(r)
+
+	return dst, err
 }
 
 // encodeByteSlice appends a byte slice to dst as
@@ -396,6 +409,10 @@ func encodeMap(
 	if ml == 0 {
 		return append(dst, "{}"...), nil
 	}
+	r := ref{t, m, 0}
+	if err := opts.enter(r, p); err != nil {
+		return dst, err
+	}
 	dst = append(dst, '{')
 
 	rt := unpackEface(t).word
@@ -408,6 +425,7 @@ func encodeMap(
 		dst, err = encodeSortedMap(it, dst, opts, ki, vi, ml)
 	}
 	hiterPool.Put(it)
+	opts.leave(r)
 
 	if err != nil {
 		return dst, err
diff --git a/instruction.go b/instruction.go
index 115e133..20fe479 100644
--- a/instruction.go
+++ b/instruction.go
@@ -241,7 +241,7 @@ func newPtrInstr(t reflect.Type, quoted bool) instruction {
 	e := t.Elem()
 	i := newInstruction(e, true, quoted)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodePointer(p, dst, opts, i)
+		return encodePointer(p, dst, opts, t, i)
 	}
 }
 
@@ -405,7 +405,7 @@ func newSliceInstr(t reflect.Type) instruction {
 		size = etyp.Size()
 	)
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-		return encodeSlice(p, dst, opts, ins, size)
+		return encodeSlice(p, dst, opts, t, ins, size)
 	}
 }
 
diff --git a/options.go b/options.go
index 04b65f2..1e3122f 100644
--- a/options.go
+++ b/options.go
@@ -46,6 +46,10 @@ type encOpts struct {
 	flags       bitmask
 	allowList   stringSet
 	denyList    stringSet
+
+	// State of the current encoding.
+	refDepth int
+	refs     map[ref]struct{}
 }
 
 func defaultEncOpts() encOpts {
-- 
2.43.0


From 5fdec1d1bdd0da04cb4edfc2bdfd6de2ee8ee178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 20/21] fix: ask the runtime which types interfaces hold
 directly

---
 types.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/types.go b/types.go
index af5a03e..6129e6c 100644
--- a/types.go
+++ b/types.go
@@ -68,17 +68,13 @@ func isInteger(t reflect.Type) bool {
 
 // isInlined returns whether values of type t are
 // stored directly in the data word of an interface.
+// Which types are is up to the runtime: it is the
+// case of those whose zero value is a nil data word.
 func isInlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
-		return true
-	case reflect.Array:
-		return t.Len() == 1 && isInlined(t.Elem())
-	case reflect.Struct:
-		return t.NumField() == 1 && isInlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	return unpackEface(reflect.Zero(t).Interface()).word == nil
 }
 
 func isNilable(t reflect.Type) bool {
-- 
2.43.0


From 0d21bef749c3204bff9a593bbc31624d66374f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 21/21] fix: encode byte elements with append marshaler methods
 one by one

---
 instruction.go | 6 ++----
 types.go       | 9 +++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/instruction.go b/instruction.go
index 20fe479..392abb0 100644
--- a/instruction.go
+++ b/instruction.go
@@ -378,8 +378,7 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if !isMarshaler(reflect.PtrTo(etyp)) {
 			isba = true
 		}
 	}
@@ -392,8 +391,7 @@ func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
 	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
+		if !isMarshaler(reflect.PtrTo(etyp)) {
 			return encodeByteSlice
 		}
 	}
diff --git a/types.go b/types.go
index 6129e6c..639dbd6 100644
--- a/types.go
+++ b/types.go
@@ -85,6 +85,15 @@ func isNilable(t reflect.Type) bool {
 	return false
 }
 
+// isMarshaler returns whether t implements one of the
+// marshaler interfaces.
+func isMarshaler(t reflect.Type) bool {
+	return t.Implements(appendMarshalerCtxType) ||
+		t.Implements(appendMarshalerType) ||
+		t.Implements(jsonMarshalerType) ||
+		t.Implements(textMarshalerType)
+}
+
 // cachedEmptyFuncOf is similar to emptyFuncOf, but
 // returns a cached function, to avoid duplicates.
 func cachedEmptyFuncOf(t reflect.Type) emptyFunc {
-- 
2.43.0

