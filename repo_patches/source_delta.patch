From f4cc841cb25fe5524a4ef2e5f58880e8624076dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 01/28] fix: desc: do not keep types parsed by a failed call

A type that failed to parse or finalize could stay reachable from the
type caches through types referring to it (cyclic refs), so that later
calls accepted or rejected types depending on the calls made before.
---
 internal/desc/desc.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..66250fd 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -64,6 +64,16 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return ret, nil
 	}
 
+	ok := false
+	defer func() {
+		if !ok {
+			// the cached types may refer (cyclic refs) to types that failed to parse,
+			// don't use them for other types.
+			cachedTypes = map[reflect.Type]*Type{}
+			cachedStructs = map[reflect.Type]*StructDesc{}
+		}
+	}()
+
 	t, err := parseType(rt)
 	if err != nil {
 		return nil, err
@@ -76,6 +86,7 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return nil, err
 	}
 	cache.Set(typ, s)
+	ok = true
 	return s, nil
 }
 
-- 
2.43.0


From 585aeabb001a1833146152cbad81ec7c261be1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 02/28] fix: encode oneof members which are set to the zero
 value

A oneof member is present whenever its wrapper is set. Skipping zero
values made peers see the oneof as not set.
---
 internal/prutal/encoder.go | 1 +
 internal/prutal/sizer.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..77502fb 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -69,6 +69,7 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		// this also checks pointer types
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer: // it's set even if it's zero value
 		case t.Size == 8: // int64, uint64, float64 or pointer on amd64
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4: // int32, uint32, float32 or pointer on 386
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..15da501 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -51,6 +51,7 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		// skip zero values — same logic as encoder
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer:
 		case t.Size == 8:
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4:
-- 
2.43.0


From e9a96ea42e7bc9fc6288b0beb80d2d969519813c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 03/28] fix: append packed records to repeated fields

A packed repeated field may be split into multiple records (or mixed with
unpacked ones), elements of earlier records were lost. Bools are varints,
a bool may take more than one byte.
---
 internal/wire/decoder_packed.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..78b7ec9 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,13 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growPacked returns the slice h points to with room for n more elements,
+// coz a packed field may be encoded as multiple records.
+func growPacked[T any](h unsafe.Pointer, n int) []T {
+	vv := *(*[]T)(h)
+	return append(vv, make([]T, n)...)[:len(vv)]
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +48,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growPacked[uint64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +78,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growPacked[uint32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +108,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growPacked[int64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +138,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growPacked[int32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +165,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growPacked[uint64](h, len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +181,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growPacked[uint32](h, len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,9 +192,14 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	vv := growPacked[bool](h, len(b))
+	for len(b) > 0 {
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From e65fa49bbd60e06636711c6ffa0de933f199f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 04/28] fix: accept packed data for repeated fields declared as
 unpacked

Parsers must accept both encodings of a repeated scalar field, packed data
was rejected if the field is not declared as packed.
---
 internal/desc/desc.go      | 2 +-
 internal/desc/funcs.go     | 7 ++++---
 internal/prutal/decoder.go | 5 +----
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 66250fd..5673223 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -203,7 +203,7 @@ type FieldDesc struct {
 
 	SizeMapFunc wire.SizeMapFunc
 
-	// only for packed types, and some map types
+	// only for types which can be packed, and some map types
 	DecodeFunc func(b []byte, p unsafe.Pointer) error
 
 	T *Type
diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..65678af 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,12 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.Packed || (f.IsList && !f.T.V.IsPointer) {
+		// Returns optimized decoder for packed repeated scalar fields.
+		// Parsers must accept packed data even if a field is not declared as packed.
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Other non-map fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..10e0ec2 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -148,11 +148,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
 				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
-- 
2.43.0


From 379a5033cd4b31942440cfd2b35dfe60f39967dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 05/28] fix: decode bools as varints

Any non-zero varint is true and it may take more than one byte. Only the
lowest bit was checked, and bools of maps had to take exactly one byte.
---
 internal/prutal/decoder.go   | 12 ++++++------
 internal/wire/decoder_map.go | 14 ++------------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 10e0ec2..2b4a49f 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -196,8 +196,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // 0 for false, others for true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -339,8 +339,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // 0 for false, others for true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -445,8 +445,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // 0 for false, others for true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..8bf7891 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -17,7 +17,6 @@
 package wire
 
 import (
-	"io"
 	"unsafe"
 
 	"github.com/cloudwego/prutal/internal/protowire"
@@ -167,17 +166,8 @@ func decodeMap_Fixed64(b []byte, num int32) (v uint64, n int, err error) {
 }
 
 func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
-	if len(b) < 2 {
-		return false, 0, io.ErrUnexpectedEOF
-	}
-	fn, typ := ConsumeKVTag(b)
-	if fn != num {
-		return false, 0, newFieldNumErr(fn, num)
-	}
-	if typ != TypeVarint {
-		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
-	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
-- 
2.43.0


From bea44c6f06bd28143fd8a57c576526a3cd445d46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 06/28] fix: accept all forms of map entries

A map entry is encoded like a message with key and value fields. Entries
with missing, reordered, repeated or unknown fields were rejected or
decoded to wrong values.
---
 internal/prutal/decoder.go | 62 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 2b4a49f..6119b99 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -262,6 +262,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
+				fb, err := mapEntry(fb, f)
+				if err != nil {
+					return i, err
+				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
@@ -304,6 +308,64 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 	return i, nil
 }
 
+// mapEntry returns b if it contains a key followed by a value and nothing else.
+//
+// An entry is encoded like any other message: fields can be in any order, missing
+// (default value), repeated (last one wins) or unknown. For these cases, it returns
+// an equivalent entry for DecodeMapPair and FieldDesc.DecodeFunc.
+func mapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+	keyTag, valTag := byte(1<<3|f.KeyWireType), byte(2<<3|f.ValWireType)
+	if len(b) > 0 && b[0] == keyTag {
+		if n := protowire.ConsumeFieldValue(1, f.KeyWireType, b[1:]); n > 0 {
+			v := b[1+n:]
+			if len(v) > 0 && v[0] == valTag &&
+				protowire.ConsumeFieldValue(2, f.ValWireType, v[1:]) == len(v)-1 {
+				return b, nil
+			}
+		}
+	}
+
+	k, v := zeroMapKV(f.KeyWireType), zeroMapKV(f.ValWireType)
+	for len(b) > 0 {
+		num, typ, n := protowire.ConsumeTag(b)
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		b = b[n:]
+		if n = protowire.ConsumeFieldValue(num, typ, b); n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		switch num {
+		case 1:
+			if typ != f.KeyWireType {
+				return nil, newWireTypeNotMatch(typ, f.KeyType)
+			}
+			k = b[:n]
+		case 2:
+			if typ != f.ValWireType {
+				return nil, newWireTypeNotMatch(typ, f.ValType)
+			}
+			v = b[:n]
+		}
+		b = b[n:]
+	}
+	ret := make([]byte, 0, 2+len(k)+len(v))
+	ret = append(append(ret, keyTag), k...)
+	return append(append(ret, valTag), v...), nil
+}
+
+// zeroMapKV returns the encoded zero value of a wire type
+func zeroMapKV(t wire.Type) []byte {
+	switch t {
+	case wire.TypeFixed32:
+		return make([]byte, 4)
+	case wire.TypeFixed64:
+		return make([]byte, 8)
+	default: // varint, or length of bytes
+		return make([]byte, 1)
+	}
+}
+
 // DecodeMapKey ...
 // keyType = "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 // "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string"
-- 
2.43.0


From a3dc062e9347ea729e9891bf94e37e71c9ab5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 07/28] fix: zero memory before decoding values into it

Memory for scalars isn't zeroed by Malloc, so it's garbage of other
messages if a decode fails before it's set. Elements in the spare capacity
of a slice may have values of earlier messages: fields which are not in the
input kept old values when decoding into elements of []Struct.
---
 internal/prutal/decoder.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 6119b99..746d11d 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -59,10 +59,34 @@ func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Po
 	// *p = new(type)
 	t = t.V
 	ret = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	if t.MallocAbiType == 0 {
+		zeroMem(ret, t)
+	}
 	*(*unsafe.Pointer)(p) = ret
 	return
 }
 
+// zeroMem sets *p to the zero value of t.
+//
+// It's for memory which can be seen by users before (or without, if an error occurs)
+// being fully updated: Malloc doesn't zero noscan memory, and the spare capacity
+// of a slice may contain old elements.
+func zeroMem(p unsafe.Pointer, t *desc.Type) {
+	switch {
+	case t.MallocAbiType == 0: // scalar types
+		b := unsafe.Slice((*byte)(p), t.Size)
+		for i := range b {
+			b[i] = 0
+		}
+	case t.Kind == reflect.String:
+		*(*string)(p) = ""
+	case t.Kind == desc.KindBytes:
+		*(*[]byte)(p) = nil
+	case t.Kind == reflect.Struct:
+		reflect.NewAt(t.T, p).Elem().SetZero()
+	}
+}
+
 func resetUnknownFields(s *desc.StructDesc, base unsafe.Pointer) {
 	p := unsafe.Add(base, s.UnknownFieldsOffset)
 	if s.UnknownFieldsPointer {
@@ -137,6 +161,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tag := f.TagType
 		if f.IsOneof() {
 			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+			if t.MallocAbiType == 0 {
+				zeroMem(data, t)
+			}
 			hack.IfaceUpdate(p, f.IfaceTab, data)
 			p = data
 		}
@@ -171,6 +198,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
+			} else {
+				zeroMem(p, t)
 			}
 		}
 
-- 
2.43.0


From befe31620f28381d7ceab957a0e803aaf7923c59 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/28] fix: prutalgen: report errors of reading a proto file

A read error was taken as the end of the file, code could be generated
from a part of it.
---
 prutalgen/internal/antlr/file_stream.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/antlr/file_stream.go b/prutalgen/internal/antlr/file_stream.go
index 5f65f80..67368a7 100644
--- a/prutalgen/internal/antlr/file_stream.go
+++ b/prutalgen/internal/antlr/file_stream.go
@@ -6,6 +6,7 @@ package antlr
 
 import (
 	"bufio"
+	"io"
 	"os"
 )
 
@@ -50,9 +51,12 @@ func NewFileStream(fileName string) (*FileStream, error) {
 	fs.data = make([]rune, 0, fInfo.Size())
 	for {
 		r, _, err := reader.ReadRune()
-		if err != nil {
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 		fs.data = append(fs.data, r)
 	}
 	fs.size = len(fs.data) // Size in runes
-- 
2.43.0


From 701944d23f3b3fab0e7ce74851f0a6d66d06580b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 09/28] fix: desc: check field numbers

Numbers above 2^31-1 became negative and made the parser panic, others
out of range (or missing) were encoded to invalid tags.
---
 internal/desc/tag.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..c6e5425 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -25,6 +25,11 @@ import (
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
+const ( // see: https://protobuf.dev/programming-guides/proto3/#assigning
+	minFieldID = 1
+	maxFieldID = 1<<29 - 1
+)
+
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
@@ -62,12 +67,18 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 			if err != nil {
 				return err
 			}
+			if n < minFieldID || n > maxFieldID {
+				return fmt.Errorf("field number %d out of range", n)
+			}
 			p.ID = int32(n)
 		}
 	}
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
+	if p.ID == 0 {
+		return errors.New("no field number")
+	}
 	if p.Packed {
 		p.WireTag = wire.EncodeTag(p.ID, wire.TypeBytes)
 	} else {
-- 
2.43.0


From beb8aefd469979fb9ed5f1ef12f67f2e3eff4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 10/28] fix: check max depth of messages in maps

A map entry takes two levels, so the depth could go from 1 to -1 without
being 0: there was no limit for messages nested deeper.
---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 746d11d..d8d41fa 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -112,7 +112,7 @@ func appendToUnknownFields(s *desc.StructDesc, base unsafe.Pointer, b []byte) {
 }
 
 func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
-	if maxdepth == 0 {
+	if maxdepth <= 0 { // may be < 0, a map entry is also a level
 		return 0, errMaxDepthExceeded
 	}
 	i := 0
-- 
2.43.0


From bbbf3438c10f758fb3603babf3d2c0210729e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 11/28] fix: prutalgen: generate enums nested in nested
 messages

---
 prutalgen/pkg/prutalgen/code.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..4732857 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -117,16 +117,22 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 
 	// always generate enums before messages
 	// same order as protobuf
+	g.nestedEnumGen(p.Messages, w)
+
 	for _, m := range p.Messages {
+		w.F("")
+		g.MessageGen(m, w)
+	}
+}
+
+// nestedEnumGen generates the enums declared in the given messages, at any depth.
+func (g *GoCodeGen) nestedEnumGen(mm []*Message, w *CodeWriter) {
+	for _, m := range mm {
 		for _, e := range m.Enums {
 			w.F("")
 			g.EnumGen(e, w)
 		}
-	}
-
-	for _, m := range p.Messages {
-		w.F("")
-		g.MessageGen(m, w)
+		g.nestedEnumGen(m.Messages, w)
 	}
 }
 
-- 
2.43.0


From 72a9861711096239b3ca75f5efa084f774352d20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 12/28] fix: prutalgen: respect packed=false of proto3 fields

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..41c5143 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -106,7 +106,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From a4476b6f0fe0863a007c2b774806a16485683a5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 13/28] fix: prutalgen: support field_presence LEGACY_REQUIRED

---
 prutalgen/pkg/prutalgen/field.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 41c5143..2dc0b39 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -112,6 +112,9 @@ func (f *Field) IsPackedEncoding() bool {
 func (f *Field) resolve() {
 	f.GoName = strs.GoCamelCase(f.Name)
 	f.Type.resolve(true)
+	if f.Msg.Proto.IsEdition2023() && f.Options.Is(f_field_presence, "LEGACY_REQUIRED") {
+		f.Required = true
+	}
 	// f.IsMap()
 	// no need to call resolve, map is alaways scalar type
 }
@@ -189,7 +192,7 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s != "IMPLICIT" // EXPLICIT or LEGACY_REQUIRED
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
-- 
2.43.0


From 05998a34348c2f338758e5b1cec92ed635e2bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 14/28] fix: prutalgen: resolve type names by the scoping rules
 of protobuf

---
 prutalgen/pkg/prutalgen/proto.go | 85 ++++++++++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/type.go  | 14 ++++++
 2 files changed, 99 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..22f9af7 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -106,6 +106,91 @@ func (p *Proto) getType(name string) any {
 	return nil
 }
 
+// lookup finds the type which the given name refers to when it's used in the given scope,
+// and the Proto which declares it.
+//
+// It follows the scoping rules of protobuf: the innermost scope is searched first,
+// and it can be a type of p or a type of a file imported by p.
+func (p *Proto) lookup(scope, name string) (any, *Proto) {
+	if strings.HasPrefix(name, ".") {
+		return p.lookupFullName(name[1:])
+	}
+	for scope != "" {
+		if v, x := p.lookupFullName(scope + "." + name); v != nil {
+			return v, x
+		}
+		i := strings.LastIndexByte(scope, '.')
+		if i < 0 {
+			break
+		}
+		scope = scope[:i] // parent
+	}
+	return p.lookupFullName(name)
+}
+
+func (p *Proto) lookupFullName(name string) (any, *Proto) {
+	if v := p.getDeclaration(name); v != nil {
+		return v, p
+	}
+	for _, x := range p.Imports {
+		if v, def := x.lookupPublic(name); v != nil {
+			return v, def
+		}
+	}
+	return nil, nil
+}
+
+// lookupPublic searches p and all files it imports publicly
+func (p *Proto) lookupPublic(name string) (any, *Proto) {
+	if v := p.getDeclaration(name); v != nil {
+		return v, p
+	}
+	for _, x := range p.Imports {
+		if !x.Public {
+			continue
+		}
+		if v, def := x.lookupPublic(name); v != nil {
+			return v, def
+		}
+	}
+	return nil, nil
+}
+
+// getDeclaration returns the Message or Enum declared by p itself with the given full name
+func (p *Proto) getDeclaration(name string) any {
+	if p.Package != "" {
+		var ok bool
+		if name, ok = trimPathPrefix(name, p.Package); !ok {
+			return nil
+		}
+	}
+	enums, messages := p.Enums, p.Messages
+	for {
+		first, rest, nested := strings.Cut(name, ".")
+		if !nested {
+			for _, e := range enums {
+				if e.Name == first {
+					return e
+				}
+			}
+		}
+		var m *Message
+		for _, x := range messages {
+			if x.Name == first {
+				m = x
+				break
+			}
+		}
+		if m == nil {
+			return nil
+		}
+		if !nested {
+			return m
+		}
+		name, enums, messages = rest, m.Enums, m.Messages
+	}
+}
+
 func (p *Proto) IsProto2() bool {
 	return p.Edition == editionProto2
 }
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..6bf7fdb 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,6 +137,20 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
+	if p != nil {
+		scope := p.Package
+		if m != nil {
+			scope = m.FullName()
+		}
+		if v, x := p.lookup(scope, t.Name); v != nil {
+			t.typ = v
+			if x.GoImport != p.GoImport {
+				t.p = x
+			}
+			return
+		}
+	}
+
 	if m != nil {
 		if v := m.getType(t.Name); v != nil {
 			t.typ = v
-- 
2.43.0


From d50fa2374b41e9cb2b33184810041e382af5e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 15/28] fix: prutalgen: use unique package names for imports

---
 prutalgen/pkg/prutalgen/code.go  |  4 ++--
 prutalgen/pkg/prutalgen/field.go |  3 +--
 prutalgen/pkg/prutalgen/proto.go | 40 ++++++++++++++++++++++++++++++--
 prutalgen/pkg/prutalgen/type.go  | 14 ++++++++++-
 prutalgen/pkg/prutalgen/utils.go | 18 ++++++++++++++
 5 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 4732857..7eb8e24 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -360,10 +360,10 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goQualifier())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Key.GoImport(), f.Key.goQualifier())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 2dc0b39..b6517ff 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -219,7 +218,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goQualifier() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 22f9af7..25d38f5 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,7 +19,9 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
@@ -53,6 +55,8 @@ type Proto struct {
 
 	Services []*Service
 
+	importNames map[string]string // import path -> name used in generated code
+
 	l LoggerIface
 }
 
@@ -75,10 +79,42 @@ func (p *Proto) setGoPackage(s string) {
 	pkg = strings.TrimSpace(pkg)
 	p.GoImport = imp
 	if pkg != "" {
-		p.GoPackage = pkg
+		p.GoPackage = cleanPackageName(pkg)
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = cleanPackageName(path.Base(p.GoImport))
+	}
+}
+
+// importName returns the name for importing the package of x in the generated code of p.
+//
+// It's the package name of x if it's not used by other packages or generated code.
+func (p *Proto) importName(x *Proto) string {
+	if s, ok := p.importNames[x.GoImport]; ok {
+		return s
+	}
+	base := x.GoPackage
+	if base == "" {
+		base = cleanPackageName(path.Base(x.GoImport))
+	}
+	used := map[string]bool{
+		"strconv": true, "prutal": true, // imports of generated code
+		"x": true, "s": true, "ok": true, "p": true, // vars of generated code
+	}
+	for _, s := range types.Universe.Names() {
+		used[s] = true
+	}
+	for _, s := range p.importNames {
+		used[s] = true
+	}
+	name := base
+	for i := 1; used[name]; i++ {
+		name = base + strconv.Itoa(i)
+	}
+	if p.importNames == nil {
+		p.importNames = make(map[string]string)
 	}
+	p.importNames[x.GoImport] = name
+	return name
 }
 
 func (p *Proto) getType(name string) any {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 6bf7fdb..d6c4cd1 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -59,7 +59,17 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goQualifier() + "." + ret
+}
+
+// goQualifier returns the package name used for referring to an external type
+func (t *Type) goQualifier() string {
+	if t.f != nil && t.f.Msg != nil && t.f.Msg.Proto != nil {
+		return t.f.Msg.Proto.importName(t.p)
+	} else if t.m != nil {
+		return t.m.Service.Proto.importName(t.p)
+	}
+	return path.Base(t.p.GoImport)
 }
 
 func (t *Type) IsExternalType() bool {
@@ -146,6 +156,7 @@ func (t *Type) resolve(allowScalar bool) {
 			t.typ = v
 			if x.GoImport != p.GoImport {
 				t.p = x
+				p.importName(x)
 			}
 			return
 		}
@@ -207,6 +218,7 @@ func (t *Type) resolve(allowScalar bool) {
 		if t.typ != nil {
 			if x.GoImport != p.GoImport {
 				t.p = x
+				p.importName(x)
 			}
 			return
 		}
diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..9a9b61c 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -18,9 +18,13 @@ package prutalgen
 
 import (
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -77,6 +81,20 @@ func parseI32(c antlr.ParserRuleContext) (int32, error) {
 func isfalse(v string) bool { return v == "false" }
 func istrue(v string) bool  { return v == "true" }
 
+// cleanPackageName makes a valid Go package name, same as protoc-gen-go
+func cleanPackageName(s string) string {
+	s = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, s)
+	if r, _ := utf8.DecodeRuneInString(s); token.IsKeyword(s) || !unicode.IsLetter(r) {
+		return "_" + s
+	}
+	return s
+}
+
 func hasPathPrefix(a, b string) bool {
 	// same as strings.HasPrefix(a, b + ".")
 	return len(a) >= len(b)+1 &&
-- 
2.43.0


From adfbe9a62b7d79a465fc534afe90d639afb718ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 16/28] fix: prutalgen: fail if generated code is invalid

---
 prutalgen/pkg/prutalgen/code.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 7eb8e24..6e0d265 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -17,6 +17,7 @@
 package prutalgen
 
 import (
+	"fmt"
 	"go/format"
 	"os"
 	"path/filepath"
@@ -97,12 +98,11 @@ func (g *GoCodeGen) Gen(p *Proto, gt GenPathType, out string) error {
 	if g.Format {
 		newb, err := format.Source(b)
 		if err != nil {
-			p.Warnf("code format err: %s.  Possibly a BUG and please report to author.", err)
-		} else {
-			err := os.WriteFile(fn, newb, 0644)
-			if err != nil {
-				return err
-			}
+			return fmt.Errorf("code format err: %w.  Possibly a BUG and please report to author", err)
+		}
+		err = os.WriteFile(fn, newb, 0644)
+		if err != nil {
+			return err
 		}
 	}
 	p.Infof("generated %s", refPath(fn))
-- 
2.43.0


From bac763ad0cbd22e40a001b283f3ba1405dcc9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 17/28] fix: prutalgen: fail if two proto files have the same
 output file

---
 prutalgen/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prutalgen/main.go b/prutalgen/main.go
index 147873c..8749240 100644
--- a/prutalgen/main.go
+++ b/prutalgen/main.go
@@ -56,8 +56,14 @@ func main() {
 	if len(args) == 0 {
 		println("WARN: no proto file provided")
 	}
+	outputs := map[string]string{} // output file -> proto file
 	for _, a := range args {
 		p := x.LoadProto(filepath.Clean(a))[0]
+		fn := filepath.Clean(g.SourcePath(p, opts.GenPathType(), out, ".pb.go"))
+		if f, ok := outputs[fn]; ok && f != p.ProtoFile {
+			p.Fatalf("output file %s is same as the one of %s", fn, f)
+		}
+		outputs[fn] = p.ProtoFile
 		if err := g.Gen(p, opts.GenPathType(), out); err != nil {
 			p.Fatalf("generate code err: %s", err)
 		}
-- 
2.43.0


From 2d30098db471951ca0fe04fd6c3a6c7ce0c4cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 18/28] fix: prutalgen fails if a proto file has unrecognised
 characters

---
 prutalgen/pkg/prutalgen/prutalgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..c7c91a0 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -236,12 +236,14 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p := x.currentProto()
 
+	e := &errorListener{l: x.l}
 	lexer := parser.NewProtobufLexer(in)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(e)
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
 	defer pop(&x.streams)
 
-	e := &errorListener{l: x.l}
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
-- 
2.43.0


From 41e1510bd41450e7b5f7c8f237665acf501eabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 19/28] fix: prutalgen fails if it cannot tell whether an
 include has a file

---
 prutalgen/pkg/prutalgen/prutalgen.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index c7c91a0..4ce1cae 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -18,10 +18,12 @@ package prutalgen
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"path"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -77,14 +79,22 @@ func fullFilename(incl string, file string) string {
 
 func (x *protoLoader) searchProtoFile(file string) string {
 	for _, incl := range x.includes {
+		if incl != "" && filepath.VolumeName(file) != "" {
+			continue // windows absolute path, it's not under the include
+		}
 		fn := fullFilename(incl, file)
 		fn, err := filepath.Abs(fn)
 		if err != nil {
-			continue
+			x.Fatalf("search proto file %q err: %s", file, err)
 		}
-		if _, err := os.Stat(fn); err == nil {
+		_, err = os.Stat(fn)
+		if err == nil {
 			return fn
 		}
+		if !errors.Is(err, os.ErrNotExist) && !errors.Is(err, syscall.ENOTDIR) {
+			// it may exist, don't use the one of other includes
+			x.Fatalf("search proto file %q err: %s", file, err)
+		}
 	}
 	x.Fatalf("proto file %q not found in includes %v", file, x.includes)
 	return "" // never goes here
-- 
2.43.0


From e4c7e07aca70fa56d6792e7a82f1d3833758ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 20/28] fix: prutalgen used only the first part of adjacent
 string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..e043c2a 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -166,5 +166,14 @@ func indexNeedEscapeInString(s string) int {
 // internal/encoding/defval package for unmarshaling bytes.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	out, err := d.parseString()
+	for err == nil && len(d.in) > 0 { // adjacent strings make one
+		var next string
+		next, err = d.parseString()
+		out += next
+	}
+	if err != nil {
+		return "", err
+	}
+	return out, nil
 }
-- 
2.43.0


From cb92c303295728ea2814b0820dc179487e9d6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 21/28] fix: prutalgen rejected enum values -2147483648 and
 19000 to 19999

---
 prutalgen/pkg/prutalgen/enum.go     | 12 +++++-------
 prutalgen/pkg/prutalgen/reserved.go |  5 +++++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..cf02b68 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,7 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	return e.reserved.declared(v) // no number is reserved by protobuf itself
 }
 
 func (e *Enum) genNoPrefix() bool {
@@ -185,15 +185,13 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
-		t := c.IntLit()
-		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
+	t := c.IntLit()
+	v := getText(c.MINUS()) + t.GetText()
+	if num, ok := text.UnmarshalI32(v); !ok {
+		x.Fatalf("%s - parse enum %q err", getTokenPos(t), v)
 	} else {
 		f.Value = num
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
-	}
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..f0f9014 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,11 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared reports whether v is in the ranges of reserved statements
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
-- 
2.43.0


From fcc0c2a68f2cf960d569ddc900c9862f370eda17 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 22/28] fix: prutalgen ignored features it does not support
 (message_encoding = DELIMITED)

---
 prutalgen/pkg/prutalgen/consts.go | 2 ++
 prutalgen/pkg/prutalgen/field.go  | 7 ++++++-
 prutalgen/pkg/prutalgen/option.go | 6 ++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 1f416fe..a42c1da 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -45,6 +45,8 @@ const (
 
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
+	f_message_encoding        = "features.message_encoding"
+	f_all                     = "features"
 )
 
 const ( // proto2 options
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index b6517ff..784a1ba 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -315,7 +315,12 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
-			f.Options = append(f.Options, &Option{Name: o.OptionName().GetText(), Value: v})
+			name := o.OptionName().GetText()
+			legacyRequired := name == f_field_presence && v == "LEGACY_REQUIRED" // for fields only
+			if !legacyRequired && !verifyOption(name, v) {
+				x.Fatalf("%s - option %q unsupported value %q", getTokenPos(o), name, v)
+			}
+			f.Options = append(f.Options, &Option{Name: name, Value: v})
 		}
 	}
 	return f
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index a486496..05a83dd 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -112,6 +112,12 @@ func verifyOption(name, v string) bool {
 	case f_field_presence:
 		return v == "EXPLICIT" || v == "IMPLICIT"
 
+	case f_message_encoding:
+		return v == "LENGTH_PREFIXED" // groups are not supported
+
+	case f_all: // features = { ... } is not supported
+		return false
+
 	case option_packed, option_allow_alias:
 		return verifyTrueOrFalse(v)
 
-- 
2.43.0


From 5c7055353abb089750b2175f40f63eb2a51d945d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 23/28] fix: prutalgen generated fields whose numbers are out
 of range

---
 prutalgen/pkg/prutalgen/message.go  | 4 +++-
 prutalgen/pkg/prutalgen/reserved.go | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..1a54896 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -213,7 +213,9 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if x.FieldNumber < 1 || x.FieldNumber > maxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f0f9014..17ed77e 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -26,6 +26,8 @@ const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	maxFieldNumber = 1<<29 - 1
 )
 
 type reservedRange struct {
-- 
2.43.0


From 50ec86dfd337d5c2c4f68976b9e25aa4f5701bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 24/28] fix: desc: reject unsupported types of elements, map
 keys and values, and singular fields

---
 internal/desc/desc.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 5673223..83d732f 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -289,20 +289,26 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !t.IsSlice && t.Kind != reflect.Map {
 			return fmt.Errorf("repeated field is not slice or map")
 		}
-		if t.IsSlice {
-			// The element type (after at most one pointer indirection) must be a
-			// scalar/struct, not another slice or map. Otherwise RealKind would
-			// flatten e.g. [][]int32 to int32 and pass validation, and the decoder
-			// would write a scalar slice header into a slice-of-slice element,
-			// causing type confusion.
-			el := t.V
-			if el.IsPointer {
-				el = el.V
-			}
-			if el.IsSlice || el.Kind == reflect.Map {
-				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
-			}
+		if f.IsOneof() {
+			return fmt.Errorf("unsupported repeated field in oneof")
 		}
+	} else if t.IsSlice || (t.IsPointer && t.V.IsSlice) {
+		return fmt.Errorf("slice field is not repeated field")
+	}
+
+	// Elements of slices, keys and values of maps must be scalars or structs, and
+	// only structs can be held by pointers. Otherwise RealKind would flatten e.g.
+	// [][]int32 or []*int32 to int32 and pass validation, and the decoder would
+	// write a scalar into a slice header or a pointer, causing type confusion.
+	if t.IsSlice || t.Kind == reflect.Map {
+		if !isValueType(t.V) {
+			return fmt.Errorf("unsupported nested repeated field type %s", t.T)
+		}
+		if t.Kind == reflect.Map && t.K.IsPointer {
+			return fmt.Errorf("unsupported map key type %s", t.K.T)
+		}
+	} else if t.IsPointer && t.V.Kind == reflect.Map {
+		return fmt.Errorf("unsupported field type %s", t.T)
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -322,6 +328,14 @@ func (f *FieldDesc) checkTypeMatch() error {
 	return nil
 }
 
+// isValueType returns true if t can be used as element type of slices or value type of maps
+func isValueType(t *Type) bool {
+	if t.IsPointer {
+		return t.V.Kind == reflect.Struct
+	}
+	return !t.IsSlice && t.Kind != reflect.Map
+}
+
 var cachedStructs = map[reflect.Type]*StructDesc{}
 
 func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
-- 
2.43.0


From 5bc9c25e690a5e310e435a820cc7a07ee2eced85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 25/28] fix: desc: report malformed oneof definitions as errors

---
 internal/desc/desc.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 83d732f..fc9a6e6 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -221,7 +221,7 @@ func (f *FieldDesc) IsOneof() bool {
 func (f *FieldDesc) parse(rt reflect.Type) (err error) {
 	tag := f.Tag.Get("protobuf")
 	if tag == "" {
-		panic("not protobuf field")
+		return errors.New("no protobuf tag")
 	}
 	if err = f.parseStructTag(tag); err != nil {
 		return
@@ -369,12 +369,20 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 	}
 
 	if len(oneofs) > 0 {
+		members := make([]int, len(oneofs))
 		for _, v := range searchOneofWrappers(rt) {
 			rt := reflect.TypeOf(v)
-			for _, o := range oneofs {
+			if rt == nil || rt.Kind() != reflect.Pointer || rt.Elem().Kind() != reflect.Struct {
+				return nil, fmt.Errorf("oneof wrapper of type %v is not pointer to struct", rt)
+			}
+			for i, o := range oneofs {
+				if o.Type.Kind() != reflect.Interface {
+					return nil, fmt.Errorf("parse field %q err: oneof field is not interface", o.Name)
+				}
 				if !rt.Implements(o.Type) {
 					continue
 				}
+				members[i]++
 				// Pointer -> Struct
 				rt = rt.Elem()
 				if rt.NumField() != 1 { // The struct must contains exactly one field
@@ -389,6 +397,11 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 				fields = append(fields, f)
 			}
 		}
+		for i, o := range oneofs {
+			if members[i] == 0 {
+				return nil, fmt.Errorf("parse field %q err: no wrappers of oneof field", o.Name)
+			}
+		}
 	}
 
 	// sort by ID
-- 
2.43.0


From a726b829b8551d3f906a165db0c7f89b23d6d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 26/28] fix: desc: maps with elements of aligned empty structs
 got wrong keys

---
 internal/desc/type.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/desc/type.go b/internal/desc/type.go
index 368e514..237a3c1 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -214,7 +214,7 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 		case reflect.String:
 			updateFunc = mapUpdateFunc_u64_string
 		case reflect.Struct:
-			if et.Size() == 0 {
+			if isEmptyStruct(et) {
 				updateFunc = mapUpdateFunc_u64_empty
 			}
 		}
@@ -225,7 +225,7 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 		case reflect.String:
 			updateFunc = mapUpdateFunc_u32_string
 		case reflect.Struct:
-			if et.Size() == 0 {
+			if isEmptyStruct(et) {
 				updateFunc = mapUpdateFunc_u32_empty
 			}
 		}
@@ -236,7 +236,7 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 		case reflect.String:
 			updateFunc = mapUpdateFunc_string_string
 		case reflect.Struct:
-			if et.Size() == 0 {
+			if isEmptyStruct(et) {
 				updateFunc = mapUpdateFunc_string_empty
 			}
 		}
@@ -258,6 +258,13 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 	}
 }
 
+// isEmptyStruct returns true if maps with elements of type rt have the same memory
+// layout as maps with elements of type struct{}. Fields like [0]func() have no size,
+// but their alignment changes the layout.
+func isEmptyStruct(rt reflect.Type) bool {
+	return rt.Size() == 0 && rt.Align() == 1
+}
+
 func defaultMapUpdateFunc(p *TmpMapVars, mp unsafe.Pointer) {
 	m := hack.ReflectValueWithPtr(p.m, mp)
 	m.SetMapIndex(p.k, p.v)
-- 
2.43.0


From 8447a7042c24d5f315350a01fb59ea8d0240ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 27/28] fix: prutalgen generated invalid code for duplicated
 definitions

---
 prutalgen/pkg/prutalgen/enum.go    |  5 +++++
 prutalgen/pkg/prutalgen/message.go |  2 +-
 prutalgen/pkg/prutalgen/proto.go   | 20 +++++++++++++++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index cf02b68..700258b 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -119,7 +119,12 @@ func (e *Enum) resolve() {
 func (e *Enum) verify() error {
 	errs := []error{}
 	m := map[int32]bool{}
+	names := map[string]bool{}
 	for _, f := range e.Fields {
+		if names[f.Name] {
+			errs = append(errs, fmt.Errorf("%q is duplicated", f.Name))
+		}
+		names[f.Name] = true
 		if e.IsReservedField(f.Value) {
 			errs = append(errs, fmt.Errorf("%q = %d is reserved", f.Name, f.Value))
 		} else if m[f.Value] && !e.allowAlias() {
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 1a54896..72dbceb 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -200,7 +200,7 @@ func (m *Message) resolveFieldConflicts() {
 }
 
 func (m *Message) verify() error {
-	var errs []error
+	errs := verifyTypeNames(m.Enums, m.Messages)
 	for _, x := range m.Enums {
 		if err := x.verify(); err != nil {
 			errs = append(errs, fmt.Errorf("enum %s verify err: %w", x.FullName(), err))
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 25d38f5..61f6b68 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -268,7 +268,7 @@ func (p *Proto) resolve() {
 }
 
 func (p *Proto) verify() error {
-	var errs []error
+	errs := verifyTypeNames(p.Enums, p.Messages)
 	for _, e := range p.Enums {
 		if err := e.verify(); err != nil {
 			errs = append(errs, fmt.Errorf("enum %s verify err: %w", e.FullName(), err))
@@ -287,6 +287,24 @@ func (p *Proto) verify() error {
 	return errors.Join(errs...)
 }
 
+// verifyTypeNames checks the names of types defined in the same scope
+func verifyTypeNames(enums []*Enum, messages []*Message) (errs []error) {
+	exists := map[string]bool{}
+	check := func(name, fullname string) {
+		if exists[name] {
+			errs = append(errs, fmt.Errorf("%s is duplicated", fullname))
+		}
+		exists[name] = true
+	}
+	for _, e := range enums {
+		check(e.Name, e.FullName())
+	}
+	for _, m := range messages {
+		check(m.Name, m.FullName())
+	}
+	return errs
+}
+
 // listeners
 
 func (x *protoLoader) ExitEdition(c *parser.EditionContext) {
-- 
2.43.0


From af71ee437e62ecb6f4f269e101ea9ecc1bafe068 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 28/28] fix: parse hexadecimal and octal numbers in reserved
 statements

---
 prutalgen/pkg/prutalgen/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 9a9b61c..38f7270 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -21,7 +21,6 @@ import (
 	"go/token"
 	"os"
 	"path/filepath"
-	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -71,11 +70,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText())
+	if !ok {
+		return 0, fmt.Errorf("%s - parse number %q err", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0

