From f094e76c640e495f9956bbc9c948d19311a0272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/24] fix: size map values with the value codec when encoding

The length prefix of a map entry was computed with the key codec applied
to the value, giving a corrupt encoding whenever the two codecs differ.
---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 02c41730bace37e0e65affd6d2864fbedbc355f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 02/24] fix: encode an empty map as nothing

A nil or empty map was encoded as one empty entry, which every decoder
reads as a map holding the zero key with the zero value.
---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From ce7666780815e2e38912114854c67d79ebb45fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 03/24] fix: decode map keys and values with the codecs they
 are encoded with

The entry type of a map was rebuilt from wire types alone, which lost the
zigzag flag: sint32 and sint64 keys and values decoded to other numbers.
---
 proto/map.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..d82f3c9 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"fmt"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -21,7 +20,7 @@ func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
-	m.decode = mapDecodeFuncOf(t, f, w)
+	m.decode = mapDecodeFuncOf(t, f)
 	return m
 }
 
@@ -81,17 +80,22 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
-}
-
-func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
+func mapDecodeFuncOf(t reflect.Type, m *mapField) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key()},
+		{Name: "Elem", Type: t.Elem()},
 	})
 
-	info := w.structInfo(structType)
+	keyField, valField := *m.keyField, *m.valField
+	keyField.offset = structType.Field(0).Offset
+	valField.offset = structType.Field(1).Offset
+	info := &structInfo{
+		fields: []*structField{&keyField, &valField},
+		fieldIndex: map[fieldNumber]*structField{
+			keyField.fieldNumber(): &keyField,
+			valField.fieldNumber(): &valField,
+		},
+	}
 	structPool := new(sync.Pool)
 	structZero := pointer(reflect.Zero(structType).Interface())
 
-- 
2.43.0


From 675d7fb5eb06b6a091d16ccf1db4219c1b1d9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/24] fix: encode fixed32 and fixed64 list elements and map
 entries as fixed

Lists and maps of uint32/uint64 tagged fixed32/fixed64 got the varint
codec, so a varint was written behind a fixed-width wire type.
---
 proto/struct.go |  4 ++++
 proto/walker.go | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..39d7a77 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) fixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..14fd553 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool
 	required bool
 }
 
@@ -47,8 +48,14 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -216,6 +223,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.fixed(),
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -240,13 +248,13 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.fixed = t.zigzag, t.fixed()
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.fixed = t.zigzag, t.fixed()
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
@@ -315,8 +323,14 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From c06898dd25a74adcb728e97ce3615317efefce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/24] fix: support sfixed32 and sfixed64 fields

The generator emits int32/int64 with fixed tags for them, but they were
encoded as varints behind a fixed-width wire type, or hit a nil codec.
---
 proto/walker.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 14fd553..9fdbd34 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -41,11 +41,17 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
 		if conf.fixed {
@@ -175,24 +181,24 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionUInt32Type, optionInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
 			switch baseKindOf(f.Type) {
-			case reflect.Uint32:
+			case reflect.Uint32, reflect.Int32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
 				field.codec = &float32Codec
 			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionUInt64Type, optionInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
 			switch baseKindOf(f.Type) {
-			case reflect.Uint64:
+			case reflect.Uint64, reflect.Int64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
 				field.codec = &float64Codec
@@ -316,11 +322,17 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
 		if conf.fixed {
-- 
2.43.0


From 49fc1b4110c4995373212a77311754a435eb752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 06/24] fix: pointers to scalars go through the pointer and
 keep their presence

*uint32, *float32 and the like with a fixed tag were encoded and decoded
as if the pointer itself were the number (the decoder overwrote the
pointer); pointers sharing a Go type shared the codec of the first one
seen, whatever its encoding; and a set pointer to zero was dropped.
---
 proto/walker.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 9fdbd34..670a5ee 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -184,7 +184,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionUInt32Type, optionInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint32, reflect.Int32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
@@ -197,7 +197,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint64, reflect.Int64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
@@ -300,10 +300,12 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Struct:
 		return w.structCodec(t)
 	}
-	// common value
+	// common value: the pointer carries the presence, so a non-nil one is
+	// always encoded. Not shared by type, as the value codec depends on conf.
 	p := new(codec)
-	w.codecs[t] = p
-	c := w.codec(t.Elem(), conf)
+	elemConf := *conf
+	elemConf.required = true
+	c := w.codec(t.Elem(), &elemConf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 7e5bd9f7d7d45a4ed352fceb08147ce2a6962c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 07/24] fix: do not share list codecs between fields by Go type
 alone

Within one walk the first codec made for a slice type was reused for
every later field of that type, so []int32 tagged zigzag32 was encoded as
plain varints (or the reverse) depending on the order of first use. List
and map codecs are no longer filed by Go type.
---
 proto/map.go    | 2 --
 proto/slice.go  | 7 +------
 proto/walker.go | 2 +-
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index d82f3c9..b96afad 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -16,8 +16,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f)
diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..6b29459 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,16 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 670a5ee..563b689 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -243,7 +243,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
-- 
2.43.0


From dbf097e4c6c6e300c562c234ab1187891b013601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 08/24] fix: decode bools as whole varints

Only the first byte was looked at and consumed, so a bool sent as a
longer varint was misread and the rest of it taken for the next tag.
---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 3c3c60895b282bc6125bfd29c91a6f4f2d932a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 09/24] fix: accept the "req" label in struct tags

The generator emits it for proto2 required fields; the first use of such
a type panicked.
---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 39d7a77..d36fc3d 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -196,7 +196,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From 39cf0e0ec79a6aa0ade5aa7eed6179c18f95b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 10/24] fix: report nil and non-struct arguments instead of
 panicking

Marshal(nil), Marshal of a pointer to something other than a struct and
Unmarshal(b, nil) dereferenced a nil reflect.Type or ran into NumField on
a non-struct.
---
 proto/proto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..089e363 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,8 +24,8 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
-		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
+	if t == nil || t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
 	}
 	t = t.Elem()
 	info := cachedStructInfoOf(t)
@@ -41,7 +41,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From b5453ba260ac3b71eed103045be4ee4e8b456a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 11/24] fix: decode list elements into a cleared slot

Decoding appended to a list by decoding into the slot after its last
element, which may hold what a shortened list left behind or what a
failed decode put there; messages were then merged into that left-over
(which other code may still hold) instead of starting empty.
---
 proto/slice.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index 6b29459..cb0cdcf 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -53,6 +53,8 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	etype := pointer(elemType)
+	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -61,7 +63,11 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// the slot may hold what was left there by a failed decode or
+		// before the list was shortened
+		elem := s.Index(i, elemSize)
+		Assign(etype, elem, elemZero)
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From 113d995d08c0aacf93dd2d4420f3451f03610057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 12/24] fix: keep nil byte strings in lists and maps

A nil element of a [][]byte was skipped by the encoder, which shortened
the list and shifted the elements after it.
---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index 563b689..fc130c1 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -356,7 +356,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From a2b8c00f916c8048922db3ce4c444d6576976de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 13/24] fix: accept packed lists when decoding

Every decoder must take lists of scalars in packed form, and proto3
encoders send them so by default; they were rejected as a wire type
mismatch.
---
 proto/struct.go | 21 +++++++++++++++++++++
 proto/walker.go |  1 +
 2 files changed, 22 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index d36fc3d..0b7de94 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -18,6 +18,7 @@ type structField struct {
 	wiretag uint64
 	codec   *codec
 	tagsize int
+	list    bool // repeated, not bytes
 }
 
 func (f *structField) fieldNumber() fieldNumber {
@@ -96,6 +97,15 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 			continue
 		}
 
+		if f.list && wireType == varlen && f.wireType() != varlen {
+			n, err := f.decodePacked(b[offset:], f.pointer(p))
+			offset += n
+			if err != nil {
+				return offset, fieldError(fieldNumber, wireType, err)
+			}
+			continue
+		}
+
 		if wireType != f.wireType() {
 			return offset, fieldError(fieldNumber, wireType, fmt.Errorf("expected wire type %d", f.wireType()))
 		}
@@ -148,6 +158,17 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 	return offset, nil
 }
 
+// decodePacked decodes a list of scalars sent as one length-delimited record.
+func (f *structField) decodePacked(b []byte, p unsafe.Pointer) (int, error) {
+	data, n, err := decodeVarlen(b)
+	for err == nil && len(data) > 0 {
+		var l int
+		l, err = f.codec.decode(data, p)
+		data = data[l:]
+	}
+	return n, err
+}
+
 type structTag struct {
 	// version     int
 	wireType    wireType
diff --git a/proto/walker.go b/proto/walker.go
index fc130c1..d3f51fc 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -244,6 +244,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
 					field.codec = sliceCodecOf(f.Type, field.codec)
+					field.list = true
 				}
 
 			case reflect.Map:
-- 
2.43.0


From 6c387be2004f7eaa869d1ed08be3d9ee994c4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 14/24] fix: publish type information only when it is complete

Information about a type was put into the global caches while types it
refers to (possibly itself, through others) were still being analysed. A
concurrent first use saw fields missing and silently dropped data, and a
walk abandoned by a panic on an unsupported type left such entries
behind for good.
---
 proto/proto.go  | 8 ++++++++
 proto/walker.go | 4 +---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 089e363..265911f 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,14 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
+	// Nothing is published before the whole walk is done: until then, types
+	// that refer to each other are incomplete.
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
 	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
 	return actual
 }
diff --git a/proto/walker.go b/proto/walker.go
index d3f51fc..80c3542 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func baseKindOf(t reflect.Type) reflect.Kind {
@@ -286,7 +285,6 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
-- 
2.43.0


From ff53751293fdb2726a596267b2252f0a6f3de5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 15/24] fix: give field numbers 64 bits on every platform

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 265911f..60dbdc9 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -73,7 +73,7 @@ func pointer(v interface{}) unsafe.Pointer {
 	return (*iface)(unsafe.Pointer(&v)).ptr
 }
 
-type fieldNumber uint
+type fieldNumber uint64
 
 type wireType uint
 
-- 
2.43.0


From 553abea82f6c4553af9e29f4d4261d7d703b1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 16/24] fix: take a pointer to bytes for a pointer, not for a
 list

---
 proto/walker.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 80c3542..7a23dd8 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -132,17 +132,6 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	return c
 }
 
-func baseKindOf(t reflect.Type) reflect.Kind {
-	return baseTypeOf(t).Kind()
-}
-
-func baseTypeOf(t reflect.Type) reflect.Type {
-	for t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
-	return t
-}
-
 func (w *walker) structInfo(t reflect.Type) *structInfo {
 	if info, ok := structInfoCache.Load(pointer(t)); ok {
 		return info
@@ -231,10 +220,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				fixed:  t.fixed(),
 				// required: t.required,
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Struct:
-				field.codec = w.codec(f.Type, conf)
-
+			switch f.Type.Kind() {
 			case reflect.Slice:
 				elem := f.Type.Elem()
 				if elem.Kind() == reflect.Uint8 { // []byte
-- 
2.43.0


From 366fdd1bdfa185509382780e6671aa035c12f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 17/24] fix: record positions of getters that exist only

With annotate_code the generator named a getter for every field, but only
members of oneofs have one, so every such request failed with "no symbol
matching annotation".
---
 internal/generator/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 837f42b..4d8dfc6 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -319,11 +319,11 @@ func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageI
 		// Getter for message field.
 		goType, _, _ := fieldGoType(g, f, field)
 		defaultValue := fieldDefaultValue(g, f, m, field)
-		g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 		leadingComments := appendDeprecationSuffix("",
 			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())
 		switch {
 		case field.Oneof != nil && !field.Oneof.Desc.IsSynthetic():
+			g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 			g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
 			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
 			g.P("return x.", field.GoName)
-- 
2.43.0


From 8c827adcb1f48663bdbdd801a7d57c348ea71183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 18/24] fix: keep schema comments from acting as Go directives

A comment such as //go:noinline or //line x.go:1 in a schema was copied in
the same form and then obeyed, or rejected as misplaced, by the Go compiler.
---
 internal/generator/main.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 4d8dfc6..6cec027 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -37,6 +37,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -252,7 +253,7 @@ func genMessageField(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo, fie
 		}
 
 		g.Annotate(m.GoIdent.GoName+"."+oneof.GoName, oneof.Location)
-		leadingComments := oneof.Comments.Leading
+		leadingComments := plainComments(oneof.Comments.Leading)
 		if leadingComments != "" {
 			leadingComments += "\n"
 		}
@@ -534,6 +535,7 @@ func (tags structTags) String() string {
 
 // appendDeprecationSuffix optionally appends a deprecation notice as a suffix.
 func appendDeprecationSuffix(protoreflectix protogen.Comments, deprecated bool) protogen.Comments {
+	protoreflectix = plainComments(protoreflectix)
 	if !deprecated {
 		return protoreflectix
 	}
@@ -543,11 +545,20 @@ func appendDeprecationSuffix(protoreflectix protogen.Comments, deprecated bool)
 	return protoreflectix + " Deprecated: Do not use.\n"
 }
 
+// directive matches the text of a comment line that the Go tools would obey,
+// such as "go:embed x" or "line x.go:1".
+var directive = regexp.MustCompile(`(?m)^(line |export |extern |[a-z0-9]+:[a-z0-9])`)
+
+// plainComments makes sure that comments of the schema are nothing but comments in Go.
+func plainComments(c protogen.Comments) protogen.Comments {
+	return protogen.Comments(directive.ReplaceAllString(string(c), " $1"))
+}
+
 // trailingComment is like protogen.Comments, but lacks a trailing newline.
 type trailingComment protogen.Comments
 
 func (c trailingComment) String() string {
-	s := strings.TrimSuffix(protogen.Comments(c).String(), "\n")
+	s := strings.TrimSuffix(plainComments(protogen.Comments(c)).String(), "\n")
 	if strings.Contains(s, "\n") {
 		// We don't support multi-lined trailing comments as it is unclear
 		// how to best render them in the generated code.
-- 
2.43.0


From 9edff4a46c43812c39470c7546818f87c3e19a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 19/24] fix: copy schema comments as valid Go source text

protoc accepts comments that are not UTF-8 or hold a byte order mark, which
Go source may not; the generator failed on them.
---
 internal/generator/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 6cec027..5e08e99 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -551,7 +551,9 @@ var directive = regexp.MustCompile(`(?m)^(line |export |extern |[a-z0-9]+:[a-z0-
 
 // plainComments makes sure that comments of the schema are nothing but comments in Go.
 func plainComments(c protogen.Comments) protogen.Comments {
-	return protogen.Comments(directive.ReplaceAllString(string(c), " $1"))
+	// Go source is UTF-8 and has no byte order mark but in front.
+	s := strings.ReplaceAll(strings.ToValidUTF8(string(c), "\uFFFD"), "\uFEFF", "")
+	return protogen.Comments(directive.ReplaceAllString(s, " $1"))
 }
 
 // trailingComment is like protogen.Comments, but lacks a trailing newline.
-- 
2.43.0


From 66128d55b32514493bfb0077563a3f3e85e3c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 20/24] fix: keep schema comments from becoming build
 constraints

---
 internal/generator/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 5e08e99..a0a9732 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -549,10 +549,15 @@ func appendDeprecationSuffix(protoreflectix protogen.Comments, deprecated bool)
 // such as "go:embed x" or "line x.go:1".
 var directive = regexp.MustCompile(`(?m)^(line |export |extern |[a-z0-9]+:[a-z0-9])`)
 
+// buildLine matches an old build constraint, which needs not follow the slashes
+// at once; gofmt makes it one of the whole file wherever it finds it.
+var buildLine = regexp.MustCompile(`(?m)^(\s*)\+build`)
+
 // plainComments makes sure that comments of the schema are nothing but comments in Go.
 func plainComments(c protogen.Comments) protogen.Comments {
 	// Go source is UTF-8 and has no byte order mark but in front.
 	s := strings.ReplaceAll(strings.ToValidUTF8(string(c), "\uFFFD"), "\uFEFF", "")
+	s = buildLine.ReplaceAllString(s, `$1\+build`)
 	return protogen.Comments(directive.ReplaceAllString(s, " $1"))
 }
 
-- 
2.43.0


From 1daf572ad00aaf8c9e8eb85e4d43340258af881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 21/24] fix: build the text of nested decoding errors in linear
 time

An error below n nested messages is wrapped n times, and Error copied the whole
text once for each level: describing the error of a 100 KB input took more than
20 seconds.
---
 proto/error.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/proto/error.go b/proto/error.go
index 8d86c87..8bd89ca 100644
--- a/proto/error.go
+++ b/proto/error.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"strings"
 )
 
 var ErrWireTypeUnknown = errors.New("unknown wire type")
@@ -15,7 +16,18 @@ type UnmarshalFieldError struct {
 }
 
 func (e *UnmarshalFieldError) Error() string {
-	return fmt.Sprintf("field number %d with wire type %d: %v", e.FieldNumber, e.WireType, e.Err)
+	// An error below n nested messages is wrapped n times. Walk the chain instead of
+	// letting fmt recurse, which would copy the text once for each level.
+	var s strings.Builder
+	for {
+		fmt.Fprintf(&s, "field number %d with wire type %d: ", e.FieldNumber, e.WireType)
+		next, ok := e.Err.(*UnmarshalFieldError)
+		if !ok || next == nil {
+			fmt.Fprintf(&s, "%v", e.Err)
+			return s.String()
+		}
+		e = next
+	}
 }
 
 func (e *UnmarshalFieldError) Unwrap() error { return e.Err }
-- 
2.43.0


From c86c0ed3f3cd0e002273a23dcbac0744843b861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 22/24] fix: give map entries without a value an empty message

---
 proto/map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proto/map.go b/proto/map.go
index b96afad..2bd4160 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -99,6 +99,7 @@ func mapDecodeFuncOf(t reflect.Type, m *mapField) decodeFunc {
 
 	valueType := t.Elem()
 	valueOffset := structType.Field(1).Offset
+	isMessage := valueType.Kind() == reflect.Ptr && valueType.Elem().Kind() == reflect.Struct
 
 	mtype := pointer(t)
 	stype := pointer(structType)
@@ -124,6 +125,12 @@ func mapDecodeFuncOf(t reflect.Type, m *mapField) decodeFunc {
 		}
 		n, err := info.decode(b[nl:], s)
 		if err == nil {
+			if isMessage {
+				if e := (*unsafe.Pointer)(unsafe.Pointer(uintptr(s) + valueOffset)); *e == nil {
+					// an entry without a value holds the empty message
+					*e = unsafe.Pointer(reflect.New(valueType.Elem()).Pointer())
+				}
+			}
 			v := MapAssign(mtype, *m, s)
 			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
 		}
-- 
2.43.0


From 61b5fb640192caf035d0d94ece4835d82f0ed303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 23/24] fix: encode nil messages in lists as empty messages

They were left out, which shortened the list and moved the elements after them.
---
 proto/slice.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/proto/slice.go b/proto/slice.go
index cb0cdcf..d82210a 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -15,14 +15,38 @@ func sliceCodecOf(t reflect.Type, c *codec) *codec {
 		return loaded.(*codec)
 	}
 	s := new(codec)
-	s.size = sliceSizeFuncOf(t, c)
-	s.encode = sliceEncodeFuncOf(t, c)
+	e := elementCodecOf(t.Elem(), c)
+	s.size = sliceSizeFuncOf(t, e)
+	s.encode = sliceEncodeFuncOf(t, e)
 	s.decode = sliceDecodeFuncOf(t, c)
 
 	actualCodec, _ := sliceMap.LoadOrStore(c, s)
 	return actualCodec.(*codec)
 }
 
+// elementCodecOf returns the codec that encodes list elements of type t: one
+// that is a nil message is an empty message, and not left out as a field is.
+func elementCodecOf(t reflect.Type, c *codec) *codec {
+	if t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {
+		return c
+	}
+	return &codec{
+		size: func(p unsafe.Pointer, sf *structField) int {
+			if deref(p) == nil {
+				return sf.tagsize + sizeOfVarlen(0)
+			}
+			return c.size(p, sf)
+		},
+		encode: func(b []byte, p unsafe.Pointer, sf *structField) []byte {
+			if deref(p) == nil {
+				b = appendVarint(b, sf.wiretag)
+				return appendVarint(b, 0)
+			}
+			return c.encode(b, p, sf)
+		},
+	}
+}
+
 func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {
 	elemSize := alignedSize(t.Elem())
 	return func(p unsafe.Pointer, sf *structField) int {
-- 
2.43.0


From f3e1b51440c62f1f7c0ca87546ff430d114ee8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:54 +0000
Subject: [PATCH 24/24] fix: keep the end of a skipped field from overflowing
 an int

The claimed length of an unknown field is compared with the whole input, so on
32-bit platforms its sum with the position could overflow: decoding panicked
instead of reporting that the input ends early.
---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 0b7de94..e0fc0b1 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -86,7 +86,7 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 			default:
 				err = ErrWireTypeUnknown
 			}
-			if (offset + skip) <= len(b) {
+			if skip <= len(b)-offset {
 				offset += skip
 			} else {
 				offset, err = len(b), io.ErrUnexpectedEOF
-- 
2.43.0

