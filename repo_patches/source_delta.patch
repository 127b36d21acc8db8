From 700ef14f49031be6900de5331efb6f919de35592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:55 +0000
Subject: [PATCH 01/21] fix: count only the bytes the underlying writer
 accepted

Written() advanced by the full length even when the writer failed or
accepted only a part, so it disagreed with the output after any error.
---
 encoder.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..e98b8e0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -86,12 +86,8 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
-	return
+	_, err = e.Write(bytes)
+	return err
 }
 
 // Written returns the count of bytes written.
@@ -115,11 +111,13 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
 	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
+		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count+len(b)))
 	}
-	return e.output.Write(b)
+	n, err = e.output.Write(b)
+	// Count only what the writer has accepted.
+	e.count += n
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From b43104f1739840112b9444b187d6e0ba26db6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:44 +0000
Subject: [PATCH 02/21] fix: report lengths that compact-u16 cannot represent

WriteLength and WriteCompactU16 ignored the range error and wrote no
length at all, so longer data was written without its prefix.
---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index e98b8e0..0d1580d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -135,7 +135,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -351,7 +353,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From d7400c9c9f7ae4bd16b11c8aaf91659a786efff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 03/21] fix: make room for ten-byte varints

WriteUVarInt and WriteVarInt panicked for values of more than 56 bits.
---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 0d1580d..5b9e642 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From dea3e291b6ba0d36b7330d754d5ccd79acb9f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:17 +0000
Subject: [PATCH 04/21] fix: refuse varints that do not fit the requested width

ReadVarint16/32 and ReadUvarint16/32 (and the Varuint32 codec) silently
truncated larger values, so damaged bytes decoded to a wrong number and a
variant could be dispatched on a wrong type id.
---
 decoder.go | 12 ++++++++++++
 types.go   |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..4b4154f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -185,6 +185,9 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt32 || n > math.MaxInt32 {
+		return out, fmt.Errorf("varint32: value %d out of range", n)
+	}
 	out = int32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
@@ -197,6 +200,9 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint32 {
+		return out, fmt.Errorf("uvarint32: value %d out of range", n)
+	}
 	out = uint32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
@@ -209,6 +215,9 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt16 || n > math.MaxInt16 {
+		return out, fmt.Errorf("varint16: value %d out of range", n)
+	}
 	out = int16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
@@ -221,6 +230,9 @@ func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint16 {
+		return out, fmt.Errorf("uvarint16: value %d out of range", n)
+	}
 	out = uint16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
diff --git a/types.go b/types.go
index db56ba3..b739dca 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From f0432819e6972c06f1c36ca0afae4351dcb36f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:53 +0000
Subject: [PATCH 05/21] fix: refuse positions beyond the range of int in
 SetPosition

A position of 2^63 or more became negative, was accepted, and made every
later read panic.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4b4154f..6bd596b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -672,7 +672,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From 98ec8514af9272a10e1f20bf1b11d3c4277d618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:54 +0000
Subject: [PATCH 06/21] fix: return InvalidDecoderError for a nil pointer
 target

Decode documents that its argument must be a non-nil pointer and has an
error for it, but panicked instead.
---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..e900bca 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From fb8fc9d5f431088b456fabb894bb9c6082a1be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:56 +0000
Subject: [PATCH 07/21] fix: decode optional fields that are not pointers and
 have a codec

indirect returned no value together with the unmarshaler, and the
optional handling then called Type and Set on the zero reflect.Value.
---
 decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6bd596b..6a7e1f9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -697,7 +697,8 @@ func (dec *Decoder) HasRemaining() bool {
 
 // indirect walks down v allocating pointers as needed,
 // until it gets to a non-pointer.
-// if it encounters an Unmarshaler, indirect stops and returns that.
+// if it encounters an Unmarshaler, indirect stops and returns that,
+// together with the value it unmarshals into.
 // if decodingNull is true, indirect stops at the last pointer so it can be set to nil.
 //
 // *Note* This is a copy of `encoding/json/decoder.go#indirect` of Golang 1.14.
@@ -757,7 +758,7 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 		}
 		if v.Type().NumMethod() > 0 && v.CanInterface() {
 			if u, ok := v.Interface().(BinaryUnmarshaler); ok {
-				return u, reflect.Value{}
+				return u, v.Elem()
 			}
 		}
 
-- 
2.43.0


From 211a3e046380ae39674e7e390c741150cbee919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:58 +0000
Subject: [PATCH 08/21] fix: honour field tags on Borsh fields that have a
 codec

decodeStructBorsh called the codec of such a field directly, without
reading the optional or coption flag, with the byte order of whatever
field came before, and without recording a sizeof count. decodeBorsh
finds the codec itself and handles all of these.
---
 decoder_borsh.go | 31 -------------------------------
 1 file changed, 31 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index e900bca..1fbfb66 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -408,32 +408,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
@@ -451,8 +425,3 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 	}
 	return
 }
-
-var (
-	marshalableType   = reflect.TypeOf((*BinaryMarshaler)(nil)).Elem()
-	unmarshalableType = reflect.TypeOf((*BinaryUnmarshaler)(nil)).Elem()
-)
-- 
2.43.0


From 11105f8a528b444ac5c58096bccda39f5f24bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:14 +0000
Subject: [PATCH 09/21] fix: encode every kind of Borsh enum variant

Variants holding a slice, array or map were dropped without an error,
codecs of variants were bypassed (the decoder uses them), and a selected
variant that is a nil pointer was written as its tag alone, which the
decoder cannot read; that is an error now.
---
 encoder_borsh.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..a3a1230 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,15 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
 	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
+	if field.Kind() == reflect.Ptr && field.IsNil() {
+		if field.Type().Elem().Size() == 0 {
+			// Enum is empty
+			return nil
+		}
+		return fmt.Errorf("complex enum: variant %q is nil", t.Field(int(enum)+1).Name)
 	}
-	return nil
+	return enc.encodeBorsh(field, nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From da7f1551bae858087d258b1bd0a22beb7cdf8b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:16 +0000
Subject: [PATCH 10/21] fix: sort Borsh map keys of named 64-bit integer types

The type assertion to int64 or uint64 panicked for any named type.
---
 encoder_borsh.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index a3a1230..1e7fd24 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -372,14 +372,10 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			b = b.Elem()
 		}
 		switch a.Kind() {
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			return a.Int() < b.Int()
-		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return a.Uint() < b.Uint()
-		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From ebaa7125758a66a22f6096570bc48c7d40b10b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:42 +0000
Subject: [PATCH 11/21] fix: keep a sizeof count when encoding a Borsh pointer
 field

The count was dropped at the pointer, so the slice got a length prefix
that the decoder (and the other encodings) do not expect.
---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 1e7fd24..42549d8 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From eab593e7531a880ad8e96dd7565b280925ac477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:44 +0000
Subject: [PATCH 12/21] fix: clear maps and Borsh slices that are transmitted
 empty

Decoding an empty map (any encoding) or an empty Borsh slice into a
variable that already held entries left the old entries in place.
---
 decoder_bin.go         | 1 +
 decoder_borsh.go       | 2 ++
 decoder_compact-u16.go | 1 +
 3 files changed, 4 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..827c0f6 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -224,6 +224,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 1fbfb66..2ce5baf 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -226,6 +226,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		if l == 0 {
 			// Empty slices are left nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l > dec.Remaining() {
@@ -263,6 +264,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..3988f66 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -223,6 +223,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From ab8220e64493675f8ead71a6fa90988ba87d4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 13/21] fix: refuse negative and oversized sizeof counts when
 decoding

A negative count read from the input made the decoder panic, and an
unsigned one of 2^63 or more was taken for zero.
---
 decoder.go             | 15 +++++++++++++++
 decoder_bin.go         |  5 ++++-
 decoder_borsh.go       |  5 ++++-
 decoder_compact-u16.go |  5 ++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6a7e1f9..0058985 100644
--- a/decoder.go
+++ b/decoder.go
@@ -154,6 +154,21 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 	}
 }
 
+// decodedSizeof is sizeof for a count that was read from the input.
+func decodedSizeof(t reflect.Type, v reflect.Value) (int, error) {
+	size := sizeof(t, v)
+	if size < 0 {
+		return 0, fmt.Errorf("sizeof: count %d is negative", size)
+	}
+	switch t.Kind() {
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if n := v.Uint(); n != uint64(size) {
+			return 0, fmt.Errorf("sizeof: count %d is too large", n)
+		}
+	}
+	return size, nil
+}
+
 var ErrVarIntBufferSize = errors.New("varint: invalid buffer size")
 
 func (dec *Decoder) ReadUvarint64() (uint64, error) {
diff --git a/decoder_bin.go b/decoder_bin.go
index 827c0f6..21d13b6 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -339,7 +339,10 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if fieldTag.SizeOf != "" {
-			size := sizeof(structField.Type, v)
+			size, err := decodedSizeof(structField.Type, v)
+			if err != nil {
+				return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			}
 			if traceEnabled {
 				zlog.Debug("setting size of field",
 					zap.String("field_name", fieldTag.SizeOf),
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 2ce5baf..6b8e81d 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -415,7 +415,10 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 		}
 
 		if fieldTag.SizeOf != "" {
-			size := sizeof(structField.Type, v)
+			size, err := decodedSizeof(structField.Type, v)
+			if err != nil {
+				return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			}
 			if traceEnabled {
 				zlog.Debug("setting size of field",
 					zap.String("field_name", fieldTag.SizeOf),
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 3988f66..f82c4de 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -338,7 +338,10 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if fieldTag.SizeOf != "" {
-			size := sizeof(structField.Type, v)
+			size, err := decodedSizeof(structField.Type, v)
+			if err != nil {
+				return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			}
 			if traceEnabled {
 				zlog.Debug("setting size of field",
 					zap.String("field_name", fieldTag.SizeOf),
-- 
2.43.0


From 9e5872ce486c591d14be2ccf7707e44040ed64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:47 +0000
Subject: [PATCH 14/21] fix: copy what WriteByWrite records

It kept the caller's slice, which io.Writer forbids: a caller reusing
its buffer changed the recorded writes.
---
 tools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..3f9e469 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,8 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	// The caller may reuse b as soon as Write returns.
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From b1981d8c42491bce4e4b335678b3b57b67e00887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 15/21] fix: let the Int64, Uint64 and JSONFloat64 codecs run
 outside a field

Called directly on a new or reset session they dereferenced a nil option;
like the 128-bit types they now use the default order there.
---
 decoder.go |  8 ++++++++
 encoder.go |  8 ++++++++
 types.go   | 12 ++++++------
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0058985..7e4b402 100644
--- a/decoder.go
+++ b/decoder.go
@@ -124,6 +124,14 @@ func NewCompactU16Decoder(data []byte) *Decoder {
 	return NewDecoderWithEncoding(data, EncodingCompactU16)
 }
 
+// currentOrder is the byte order of the field being decoded, little-endian outside of any.
+func (dec *Decoder) currentOrder() binary.ByteOrder {
+	if dec.currentFieldOpt != nil {
+		return dec.currentFieldOpt.Order
+	}
+	return defaultByteOrder
+}
+
 func (dec *Decoder) Decode(v interface{}) (err error) {
 	switch dec.encoding {
 	case EncodingBin:
diff --git a/encoder.go b/encoder.go
index 5b9e642..ab229e4 100644
--- a/encoder.go
+++ b/encoder.go
@@ -72,6 +72,14 @@ func NewCompactU16Encoder(writer io.Writer) *Encoder {
 	return NewEncoderWithEncoding(writer, EncodingCompactU16)
 }
 
+// currentOrder is the byte order of the field being encoded, little-endian outside of any.
+func (e *Encoder) currentOrder() binary.ByteOrder {
+	if e.currentFieldOpt != nil {
+		return e.currentFieldOpt.Order
+	}
+	return defaultByteOrder
+}
+
 func (e *Encoder) Encode(v interface{}) (err error) {
 	switch e.encoding {
 	case EncodingBin:
diff --git a/types.go b/types.go
index b739dca..8ecf9f9 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.currentOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.currentOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.currentOrder())
 }
-- 
2.43.0


From b475725535704a1801960dcbf711955799d4fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:07 +0000
Subject: [PATCH 16/21] fix: do not carry field options over from one Encode or
 Decode to the next

After a record whose last field is big-endian, a library type written or
read through its own codec (by a user codec, or directly) took that
field's byte order instead of its own field's or the default.
---
 decoder.go | 3 +++
 encoder.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/decoder.go b/decoder.go
index 7e4b402..f23de4e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -133,6 +133,9 @@ func (dec *Decoder) currentOrder() binary.ByteOrder {
 }
 
 func (dec *Decoder) Decode(v interface{}) (err error) {
+	// The options of v's fields do not outlive this call.
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
+
 	switch dec.encoding {
 	case EncodingBin:
 		return dec.decodeWithOptionBin(v, nil)
diff --git a/encoder.go b/encoder.go
index ab229e4..1cc9bb4 100644
--- a/encoder.go
+++ b/encoder.go
@@ -81,6 +81,9 @@ func (e *Encoder) currentOrder() binary.ByteOrder {
 }
 
 func (e *Encoder) Encode(v interface{}) (err error) {
+	// The options of v's fields do not outlive this call.
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
+
 	switch e.encoding {
 	case EncodingBin:
 		return e.encodeBin(reflect.ValueOf(v), nil)
-- 
2.43.0


From 2f855a3911d40ad464c99f69be28cd32a03639a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:09 +0000
Subject: [PATCH 17/21] fix: keep the payload's error when reading a variant
 fails

---
 variant.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/variant.go b/variant.go
index 2d359db..fa8e67b 100644
--- a/variant.go
+++ b/variant.go
@@ -318,7 +318,7 @@ func (a *BaseVariant) UnmarshalBinaryVariant(decoder *Decoder, def *VariantDefin
 	if typeGo.Kind() == reflect.Ptr {
 		a.Impl = reflect.New(typeGo.Elem()).Interface()
 		if err = decoder.Decode(a.Impl); err != nil {
-			return fmt.Errorf("unable to decode variant type %d: %s", typeID, err)
+			return fmt.Errorf("unable to decode variant type %d: %w", typeID, err)
 		}
 	} else {
 		// This is not the most optimal way of doing things for "value"
@@ -344,7 +344,7 @@ func (a *BaseVariant) UnmarshalBinaryVariant(decoder *Decoder, def *VariantDefin
 		// an unsafe pointer and play with it.
 		value := reflect.New(typeGo)
 		if err = decoder.Decode(value.Interface()); err != nil {
-			return fmt.Errorf("unable to decode variant type %d: %s", typeID, err)
+			return fmt.Errorf("unable to decode variant type %d: %w", typeID, err)
 		}
 
 		a.Impl = value.Elem().Interface()
-- 
2.43.0


From 35b4a8de08394690d30f6030a4cb97f9d00ae5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:24 +0000
Subject: [PATCH 18/21] fix: do not spend memory quadratic in the nesting depth
 on decode errors

Every level of a nested value formatted the whole error text again, so a
short hostile input for a recursive type made Decode allocate gigabytes.
---
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 error.go               | 32 +++++++++++++++++++++++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 21d13b6..ca8200e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -335,7 +335,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err = dec.decodeBin(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 6b8e81d..4071938 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -411,7 +411,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 		}
 
 		if err = dec.decodeBorsh(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index f82c4de..31610a2 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -334,7 +334,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if err = dec.decodeCompactU16(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{structField.Name, err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/error.go b/error.go
index 40e448e..8007150 100644
--- a/error.go
+++ b/error.go
@@ -14,7 +14,11 @@
 
 package bin
 
-import "reflect"
+import (
+	"reflect"
+	"strconv"
+	"strings"
+)
 
 // An InvalidDecoderError describes an invalid argument passed to Decoder.
 // (The argument to Decoder must be a non-nil pointer.)
@@ -32,3 +36,29 @@ func (e *InvalidDecoderError) Error() string {
 	}
 	return "decoder: Decode(nil " + e.Type.String() + ")"
 }
+
+// fieldError adds the name of the field being decoded to an error. Its text
+// is only put together when it is asked for: an error that comes from deep
+// inside a nested value passes through one fieldError per level, and
+// formatting it at every level would take memory quadratic in the depth.
+type fieldError struct {
+	field string
+	err   error
+}
+
+func (e *fieldError) Error() string {
+	var sb strings.Builder
+	for {
+		sb.WriteString("error while decoding ")
+		sb.WriteString(strconv.Quote(e.field))
+		sb.WriteString(" field: ")
+		next, ok := e.err.(*fieldError)
+		if !ok {
+			sb.WriteString(e.err.Error())
+			return sb.String()
+		}
+		e = next
+	}
+}
+
+func (e *fieldError) Unwrap() error { return e.err }
-- 
2.43.0


From d08fe6dc45cc6362360ea6dd0209cff85c9729c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:26 +0000
Subject: [PATCH 19/21] fix: refuse values nested deeper than 10000 levels

A short hostile input for a recursive type overflowed the stack, which
ends the process and cannot be recovered from.
---
 decoder.go             | 10 ++++++++++
 decoder_bin.go         |  6 ++++++
 decoder_borsh.go       |  6 ++++++
 decoder_compact-u16.go |  6 ++++++
 4 files changed, 28 insertions(+)

diff --git a/decoder.go b/decoder.go
index f23de4e..b1ab5ed 100644
--- a/decoder.go
+++ b/decoder.go
@@ -75,9 +75,19 @@ type Decoder struct {
 
 	currentFieldOpt *option
 
+	// depth is the number of values being decoded, one inside the other.
+	depth int
+
 	encoding Encoding
 }
 
+// maxDecodeDepth is how deep values may be nested (as in encoding/json):
+// without a limit, a short hostile input for a recursive type would overflow
+// the stack, which cannot be recovered from.
+const maxDecodeDepth = 10000
+
+var errDecodeDepth = errors.New("decode: exceeded max depth")
+
 // Reset resets the decoder to decode a new message.
 func (dec *Decoder) Reset(data []byte) {
 	dec.data = data
diff --git a/decoder_bin.go b/decoder_bin.go
index ca8200e..5b620f3 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -42,6 +42,12 @@ func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err erro
 }
 
 func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		dec.depth--
+		return errDecodeDepth
+	}
+	defer func() { dec.depth-- }()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 4071938..f1d3528 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -42,6 +42,12 @@ func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err er
 }
 
 func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		dec.depth--
+		return errDecodeDepth
+	}
+	defer func() { dec.depth-- }()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 31610a2..dc99886 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -41,6 +41,12 @@ func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (e
 }
 
 func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error) {
+	if dec.depth++; dec.depth > maxDecodeDepth {
+		dec.depth--
+		return errDecodeDepth
+	}
+	defer func() { dec.depth-- }()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-- 
2.43.0


From c8683f5c7a93399fdba55b4e0a7e34920cf20778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:45 +0000
Subject: [PATCH 20/21] fix: parse 128-bit JSON text without panicking and in
 any byte order

Hex text of the only accepted length (16 characters, 8 bytes) made the
parser panic, as did a decimal number of more than 128 bits; a negative
number lost its sign, and a big-endian value got its bytes reversed.
---
 u128.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..fcb02ea 100644
--- a/u128.go
+++ b/u128.go
@@ -125,25 +125,18 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
-
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q does not fit 128 bits", s)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	i.setBytes(parsed.FillBytes(make([]byte, 16)))
 
 	return nil
 }
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
@@ -151,18 +144,17 @@ func (i *Uint128) unmarshalJSON_hex(s string) error {
 		return err
 	}
 
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	i.setBytes(data)
 
 	return nil
 }
 
+// setBytes sets the value from its 16 bytes in the order of Bytes.
+func (i *Uint128) setBytes(data []byte) {
+	i.Hi = binary.BigEndian.Uint64(data[:8])
+	i.Lo = binary.BigEndian.Uint64(data[8:])
+}
+
 func (i *Uint128) UnmarshalWithDecoder(dec *Decoder) error {
 	var order binary.ByteOrder
 	if dec != nil && dec.currentFieldOpt != nil {
-- 
2.43.0


From eeb4f8528243f5a3ebe6480f7e67544b80740e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:58 +0000
Subject: [PATCH 21/21] fix: text and JSON of negative Int128 values denote the
 value

String and MarshalJSON printed them as unsigned, unlike DecimalString, and
UnmarshalJSON dropped the sign.
---
 u128.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/u128.go b/u128.go
index fcb02ea..1cf531a 100644
--- a/u128.go
+++ b/u128.go
@@ -18,6 +18,7 @@
 package bin
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"encoding/json"
@@ -200,7 +201,7 @@ func (i Int128) BigInt() *big.Int {
 }
 
 func (i Int128) String() string {
-	return Uint128(i).String()
+	return i.DecimalString()
 }
 
 func (i Int128) DecimalString() string {
@@ -208,12 +209,25 @@ func (i Int128) DecimalString() string {
 }
 
 func (i Int128) MarshalJSON() (data []byte, err error) {
-	return []byte(`"` + Uint128(i).String() + `"`), nil
+	return []byte(`"` + i.String() + `"`), nil
 }
 
 func (i *Int128) UnmarshalJSON(data []byte) error {
 	var el Uint128
-	if err := json.Unmarshal(data, &el); err != nil {
+	if bytes.HasPrefix(data, []byte(`"-`)) {
+		// the absolute value, at most 1<<127, negated
+		if err := json.Unmarshal(append([]byte{'"'}, data[2:]...), &el); err != nil {
+			return err
+		}
+		if el.Hi > 1<<63 || (el.Hi == 1<<63 && el.Lo > 0) {
+			return fmt.Errorf("%s does not fit 128 bits", data)
+		}
+		el.Lo = -el.Lo
+		el.Hi = ^el.Hi
+		if el.Lo == 0 {
+			el.Hi++
+		}
+	} else if err := json.Unmarshal(data, &el); err != nil {
 		return err
 	}
 
-- 
2.43.0

