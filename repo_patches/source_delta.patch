From 40114a8bb7a3a9de9ea00c6f92c126418c20a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:29 +0000
Subject: [PATCH 01/25] fix: encode a nil json.RawMessage as null instead of
 nothing

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From 129d2ffcdb75748463282dc3f79d03da9aacf595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 02/25] fix: omitempty on marshaler fields of string, chan or
 func kind must not panic

---
 is_empty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..b4d6d5e 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -13,6 +13,11 @@ var (
 )
 
 func init() {
+	// kinds without a notion of emptiness are never empty
+	for kind := range isEmptyFunctions {
+		isEmptyFunctions[kind] = func(unsafe.Pointer) bool { return false }
+	}
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Bool] = (*boolEncoder)(nil).IsEmpty
 	if strconv.IntSize == 32 {
 		isEmptyFunctions[reflect.Int] = (*int32Encoder)(nil).IsEmpty
-- 
2.43.0


From ce52c1f27626a6bff31307fea190a2d7166384b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:57 +0000
Subject: [PATCH 03/25] fix: encode a nil pointer to encoding.TextMarshaler as
 null

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From bcfa847ee4e4eb9b49310cb86d61ac7fb737df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:04 +0000
Subject: [PATCH 04/25] fix: encode a pointer-shaped struct without exported
 fields as {} and not null

---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..c30ce8a 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -285,7 +285,11 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				// no fields to marshal
 				v := (*emptyStructEncoder)(nil)
 				internalCache[rType] = v
-				cache[rType] = v
+				if ifaceIndir(rType) {
+					cache[rType] = v
+				} else {
+					cache[rType] = &directEncoder{v}
+				}
 			} else {
 				for i := range w.fields {
 					fi := &w.fields[i]
-- 
2.43.0


From d97693ca5ca4d2b51d2373778e4c5d50e1be63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 05/25] fix: map decoder must reject an object key which is not
 a string

---
 val_decoder_native_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..e42924c 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,13 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		c, err = it.nextToken()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
-- 
2.43.0


From a99bb408c77f6f68705448e18845149c3e51c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 06/25] fix: case folding of the field name for structs with
 one field

---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From 0ace92445ef40edaeb3a64b22725d33fe989dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:40 +0000
Subject: [PATCH 07/25] fix: unescape the string before decoding base64 into a
 byte slice

---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..56e561f 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From 0f8a4eb87262a7bbb6c1b89ce9c81c1b1c1cbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 08/25] fix: report the overflow of 8 bit integers of more than
 three digits

---
 iterator_int8.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..7fcc9c1 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,18 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	// a fourth digit always overflows
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit {
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From 5058bad1fdad0f4cd786924c39a397f06b130eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:53 +0000
Subject: [PATCH 09/25] fix: omitempty keeps fields of an empty struct type

---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 196cbd025a8c96723b88f53032e7f49a080448a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:59 +0000
Subject: [PATCH 10/25] fix: quoted string fields follow the html escaping of
 the streamer

---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From cd4d47dcef8dbfe0a8daf56e698f2730658d8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:06 +0000
Subject: [PATCH 11/25] fix: custom encoders of pointer-shaped types always
 receive the address of the value

---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index c30ce8a..4383cf9 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -67,7 +67,11 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 	if opt != nil {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
-			cache[rtype] = valEnc
+			if ifaceIndir(rtype) {
+				cache[rtype] = valEnc
+			} else {
+				cache[rtype] = &directEncoder{valEnc}
+			}
 			internalCache[rtype] = valEnc
 		}
 		encCfg.escapeHTML = opt.EscapeHTML
-- 
2.43.0


From f8e3be5bf9d92b760fc82d38fd16e13873ba1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:12 +0000
Subject: [PATCH 12/25] fix: encode interface types which include a marshaler
 by their dynamic value

---
 encoder_config.go         |  4 ++--
 val_encoder_native_map.go | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 4383cf9..68f2e99 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -152,7 +152,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		kind := typ.Kind()
 
 		// check json.Marshaler interface
-		if typ.Implements(jsonMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -187,7 +187,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		// check encoding.TextMarshaler interface
-		if typ.Implements(textMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index b74a0bd..c4ecc50 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -22,7 +22,9 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 	case keyKind == reflect.String:
 		keyEncoder = keyEncoders[keyKind]
 	case keyType.Implements(textMarshalerType):
-		if ifaceIndir(keyRType) {
+		if keyKind == reflect.Interface {
+			keyEncoder = (*ifaceTextMarshalerKeyEncoder)(nil)
+		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
@@ -102,6 +104,26 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	s.poped = false
 }
 
+// the key type is an interface which includes encoding.TextMarshaler
+type ifaceTextMarshalerKeyEncoder struct{}
+
+func (*ifaceTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	if s.Error != nil {
+		return
+	}
+	o := packIFace(ptr)
+	if o == nil {
+		s.Field("")
+		return
+	}
+	b, err := o.(encoding.TextMarshaler).MarshalText()
+	if err != nil {
+		s.Error = err
+		return
+	}
+	s.Field(localByteToString(b))
+}
+
 // key encoders
 type stringKeyEncoder struct{}
 
-- 
2.43.0


From 704d2d1c908c82e577346d83536616f1c1bf9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 13/25] fix: the string tag option applies to float fields

---
 val_decoder_native_float.go | 52 +++++++++++++++++++++++++++++++++++--
 val_encoder_native_float.go | 28 ++++++++++++++++++--
 2 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/val_decoder_native_float.go b/val_decoder_native_float.go
index 3cb4035..7292530 100644
--- a/val_decoder_native_float.go
+++ b/val_decoder_native_float.go
@@ -8,7 +8,7 @@ import (
 type float32Decoder struct {
 }
 
-func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -17,10 +17,34 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if valueTypeMap[c] != NumberValue {
+			return InvalidFloatError{c: c}
+		}
+	}
 	f, err := it.ReadFloat32()
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float32)(ptr) = f
 	return nil
 }
@@ -29,7 +53,7 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 type float64Decoder struct {
 }
 
-func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -38,10 +62,34 @@ func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if valueTypeMap[c] != NumberValue {
+			return InvalidFloatError{c: c}
+		}
+	}
 	f, err := it.ReadFloat64()
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float64)(ptr) = f
 	return nil
 }
diff --git a/val_encoder_native_float.go b/val_encoder_native_float.go
index 11d8cb6..9ac44b1 100644
--- a/val_encoder_native_float.go
+++ b/val_encoder_native_float.go
@@ -16,7 +16,19 @@ func (*float32Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float32(*(*float32)(ptr))
+	quoted := (opts != nil) && opts.Quoted
+	if !quoted {
+		s.Float32(*(*float32)(ptr))
+		return
+	}
+	subStream := s.cfg.NewStreamer()
+	defer subStream.Release()
+	subStream.Float32(*(*float32)(ptr))
+	if subStream.Error != nil {
+		s.Error = subStream.Error
+		return
+	}
+	s.String(localByteToString(subStream.buffer))
 }
 
 // float64 encoder
@@ -31,5 +43,17 @@ func (*float64Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float64(*(*float64)(ptr))
+	quoted := (opts != nil) && opts.Quoted
+	if !quoted {
+		s.Float64(*(*float64)(ptr))
+		return
+	}
+	subStream := s.cfg.NewStreamer()
+	defer subStream.Release()
+	subStream.Float64(*(*float64)(ptr))
+	if subStream.Error != nil {
+		s.Error = subStream.Error
+		return
+	}
+	s.String(localByteToString(subStream.buffer))
 }
-- 
2.43.0


From 1f8dce4c6688f302c4d5e9b52c17f196a72ee1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 14/25] fix: reject an invalid json.Number and honour its
 string tag option when encoding

---
 val_encoder_json_number.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/val_encoder_json_number.go b/val_encoder_json_number.go
index 3e8d2e4..4a31b51 100644
--- a/val_encoder_json_number.go
+++ b/val_encoder_json_number.go
@@ -1,12 +1,23 @@
 package jzon
 
 import (
+	"fmt"
 	"unsafe"
 )
 
 type jsonNumberEncoder struct {
 }
 
+func validNumber(str string) bool {
+	if valueTypeMap[str[0]] != NumberValue {
+		return false
+	}
+	it := NewIterator()
+	defer it.Release()
+	it.ResetBytes(localStringToBytes(str))
+	return it.SkipNumber() == nil && len(it.Buffer()) == 0
+}
+
 func (*jsonNumberEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	return *(*string)(ptr) == ""
 }
@@ -20,6 +31,16 @@ func (*jsonNumberEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts)
 	if str == "" {
 		str = "0"
 	}
-	// TODO: the standard library will check the validity in future
+	if s.Error != nil {
+		return
+	}
+	if !validNumber(str) {
+		s.Error = fmt.Errorf("invalid number literal %q", str)
+		return
+	}
+	if opts != nil && opts.Quoted {
+		s.String(str)
+		return
+	}
 	s.RawString(str)
 }
-- 
2.43.0


From 9149d17eefc7a346b8def23b7682596c3f701ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:35 +0000
Subject: [PATCH 15/25] fix: keep the backing array of a slice visible to the
 garbage collector while decoding

---
 convert.go                  | 2 +-
 eface.go                    | 4 ++--
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 6 +++---
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/convert.go b/convert.go
index f2341e7..706e9f1 100644
--- a/convert.go
+++ b/convert.go
@@ -7,7 +7,7 @@ import (
 func localStringToBytes(s string) []byte {
 	sh := (*stringHeader)(unsafe.Pointer(&s))
 	return *(*[]byte)(unsafe.Pointer(&sliceHeader{
-		Data: sh.Data,
+		Data: unsafe.Pointer(sh.Data),
 		Len:  sh.Len,
 		Cap:  sh.Len,
 	}))
diff --git a/eface.go b/eface.go
index 14ec593..f093d99 100644
--- a/eface.go
+++ b/eface.go
@@ -26,17 +26,17 @@ func rtypeOfType(typ reflect.Type) rtype {
 }
 
 type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
 
 /*
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
 }
+*/
 
+// the data must be a pointer, so that the garbage collector sees it
 type sliceHeader struct {
 	Data unsafe.Pointer
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index 56e561f..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..cdd1e17 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,7 +50,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
+	curPtr := uintptr(sh.Data)
 	for i := 0; i < sh.Len; i++ {
 		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
 		if s.Error != nil {
-- 
2.43.0


From 6ae8c578e7a7dac7378f14dfde4cc3d8df5df220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:41 +0000
Subject: [PATCH 16/25] fix: detect interface loops which do not include the
 first pointer

---
 iterator.go                     |  2 ++
 val_decoder_native_interface.go | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..3f1c69b 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,8 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceSteps      int
+	efaceLimit      int
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..da5ad5c 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,22 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps, it.efaceLimit = 0, 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the pointer we recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the loop may not include the recorded pointer, move the record
+	// forward from time to time
+	it.efaceSteps++
+	if it.efaceSteps == it.efaceLimit {
+		it.lastEfacePtr = uptr
+		it.efaceSteps, it.efaceLimit = 0, it.efaceLimit*2
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From 890c2090600202ea8333832081602e5bcc868113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:14 +0000
Subject: [PATCH 17/25] fix: omitempty on fields whose marshaler has a pointer
 receiver

---
 encoder_config.go     |  6 ++++++
 val_encoder_direct.go | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/encoder_config.go b/encoder_config.go
index 68f2e99..177c77b 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -36,6 +36,12 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 	if pe, ok := ptrEncoder.(*pointerEncoder); ok {
 		return pe.encoder
 	}
+	switch ptrEncoder.(type) {
+	case pointerJSONMarshalerEncoder, pointerTextMarshalerEncoder:
+		// the pointer is the address of the element and never nil,
+		// it's the element which decides if it's empty
+		return &addrEncoder{directEncoder{ptrEncoder}, isEmptyFunctions[typ.Kind()]}
+	}
 	// the element has a special pointer encoder
 	return &directEncoder{ptrEncoder}
 }
diff --git a/val_encoder_direct.go b/val_encoder_direct.go
index 64fb277..65eebb1 100644
--- a/val_encoder_direct.go
+++ b/val_encoder_direct.go
@@ -15,3 +15,13 @@ func (enc *directEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 func (enc *directEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	enc.encoder.Encode(unsafe.Pointer(&ptr), s, opts)
 }
+
+// addrEncoder encodes an element through its pointer encoder
+type addrEncoder struct {
+	directEncoder
+	isEmpty isEmptyFunc
+}
+
+func (enc *addrEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return enc.isEmpty(ptr)
+}
-- 
2.43.0


From 05670fa2f79352dfbab50a007d385564a59ecedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 18/25] fix: an integer followed by a fraction or an exponent
 is an error

---
 iterator_int.go   | 19 +++++++++++++++++++
 iterator_int16.go |  4 ++--
 iterator_int32.go |  4 ++--
 iterator_int64.go |  4 ++--
 iterator_int8.go  |  9 +++++----
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/iterator_int.go b/iterator_int.go
index f7c6d15..23e3006 100644
--- a/iterator_int.go
+++ b/iterator_int.go
@@ -1,6 +1,7 @@
 package jzon
 
 import (
+	"io"
 	"strconv"
 )
 
@@ -21,6 +22,24 @@ func init() {
 	}
 }
 
+// intEnd verifies that the integer which has just been read does not
+// go on with a fraction or an exponent
+func (it *Iterator) intEnd() error {
+	if it.head == it.tail {
+		if err := it.readMore(); err != nil {
+			if err == io.EOF {
+				return nil
+			}
+			return err
+		}
+	}
+	switch c := it.buffer[it.head]; c {
+	case '.', 'e', 'E':
+		return InvalidDigitError{c: c}
+	}
+	return nil
+}
+
 // ReadInt reads an int value
 func (it *Iterator) ReadInt() (int, error) {
 	if strconv.IntSize == 32 {
diff --git a/iterator_int16.go b/iterator_int16.go
index 391fbf0..f8bd08a 100644
--- a/iterator_int16.go
+++ b/iterator_int16.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint16() (uint16, error) {
 func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.intEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.intEnd()
 			}
 			if numDigit >= maxUint16Div10NumDigits {
 				if ret > maxUint16Div10 ||
diff --git a/iterator_int32.go b/iterator_int32.go
index dbd0135..190a90f 100644
--- a/iterator_int32.go
+++ b/iterator_int32.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint32() (uint32, error) {
 func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.intEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return
+				return ret, it.intEnd()
 			}
 			if numDigit >= maxUint32Div10NumDigits {
 				if ret > maxUint32Div10 ||
diff --git a/iterator_int64.go b/iterator_int64.go
index 62f9faf..90493cc 100644
--- a/iterator_int64.go
+++ b/iterator_int64.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint64() (uint64, error) {
 func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.intEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -39,7 +39,7 @@ func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.intEnd()
 			}
 			if numDigit >= maxUint64Div10NumDigits {
 				if ret > maxUint64Div10 ||
diff --git a/iterator_int8.go b/iterator_int8.go
index 7fcc9c1..c350d3a 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -24,7 +24,7 @@ func (it *Iterator) ReadUint8() (uint8, error) {
 func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.intEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -40,7 +40,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // second digit
 	if u == invalidDigit {
-		return
+		return ret, it.intEnd()
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
 	it.head++
@@ -54,7 +54,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // third digit
 	if u == invalidDigit {
-		return
+		return ret, it.intEnd()
 	}
 	it.head++
 	if ret > maxUint8Div10 ||
@@ -74,8 +74,9 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	if intDigits[it.buffer[it.head]] != invalidDigit {
 		err = IntOverflowError{}
+		return
 	}
-	return
+	return ret, it.intEnd()
 }
 
 func (it *Iterator) readInt8(c byte) (int8, error) {
-- 
2.43.0


From a7d68f173f3def7d10781e2ad48c42ea3d672130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:48 +0000
Subject: [PATCH 19/25] fix: allow a semicolon in the name of a struct tag

---
 struct_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct_tag.go b/struct_tag.go
index 92dea79..b4e30d7 100644
--- a/struct_tag.go
+++ b/struct_tag.go
@@ -51,7 +51,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
-- 
2.43.0


From bf67b2a2c2cc63238a105763c323b1c73eefaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:30 +0000
Subject: [PATCH 20/25] fix: call MarshalText of map keys which are stored like
 a pointer

---
 val_encoder_native_map.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index c4ecc50..7d6599f 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -26,8 +26,10 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 			keyEncoder = (*ifaceTextMarshalerKeyEncoder)(nil)
 		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
-		} else {
+		} else if keyKind == reflect.Ptr {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
+		} else {
+			keyEncoder = directValueTextMarshalerKeyEncoder(keyRType)
 		}
 	default:
 		if keyEncoder = keyEncoders[keyKind]; keyEncoder == nil {
@@ -104,6 +106,13 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	s.poped = false
 }
 
+// the key is not a pointer but is stored like one (chan, struct{ *T }...)
+type directValueTextMarshalerKeyEncoder rtype
+
+func (enc directValueTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	textMarshalerKeyEncoder(enc).Encode(*(*unsafe.Pointer)(ptr), s)
+}
+
 // the key type is an interface which includes encoding.TextMarshaler
 type ifaceTextMarshalerKeyEncoder struct{}
 
-- 
2.43.0


From f7c068eca7118263674245dd612e5653960f4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:53 +0000
Subject: [PATCH 21/25] fix: a marshaler that changes the slice being encoded
 made the encoder read freed memory

---
 val_encoder_native_slice.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index cdd1e17..31b1d69 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -30,8 +30,6 @@ func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	return sh.Data == nil || sh.Len == 0
 }
 
-// Disable new -d=checkptr behaviour for Go 1.14
-//go:nocheckptr
 func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 	if s.Error != nil {
 		return
@@ -40,7 +38,9 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		s.Null()
 		return
 	}
-	sh := (*sliceHeader)(ptr)
+	// a copy of the header keeps the elements alive and the length right
+	// even if a marshaler of an element changes the slice
+	sh := *(*sliceHeader)(ptr)
 	if sh.Data == nil {
 		s.Null()
 		return
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := uintptr(sh.Data)
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < sh.Len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From addfb145350e49a44873027a426fc7a73846cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:33 +0000
Subject: [PATCH 22/25] fix: null did not reach the pointer that a pointer in
 an interface refers to

---
 val_decoder_native_interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index da5ad5c..9315665 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -108,8 +108,10 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		 *   pi := &i
 		 *   var o interface{} = &pi
 		 *   Unmarshal(`null`, &o)
+		 *
+		 * pi is set to nil, o is kept
 		 */
-		*pObj = reflect.New(ptrElemType).Interface()
+		*(*unsafe.Pointer)(ef.data) = nil
 		return nil
 	}
 	// when we arrive here, we have:
-- 
2.43.0


From fdbc7e01fa8a7fcb0551e4919d8e2842dd8970e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 23/25] fix: omitempty kept empty arrays with conversion
 methods

---
 encoder_config.go | 10 +++++-----
 is_empty.go       | 10 ++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 177c77b..658b9c7 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -40,7 +40,7 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 	case pointerJSONMarshalerEncoder, pointerTextMarshalerEncoder:
 		// the pointer is the address of the element and never nil,
 		// it's the element which decides if it's empty
-		return &addrEncoder{directEncoder{ptrEncoder}, isEmptyFunctions[typ.Kind()]}
+		return &addrEncoder{directEncoder{ptrEncoder}, isEmptyFunctionOf(typ)}
 	}
 	// the element has a special pointer encoder
 	return &directEncoder{ptrEncoder}
@@ -161,7 +161,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFunctionOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -184,7 +184,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directJSONMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFunctionOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
@@ -196,7 +196,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFunctionOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -219,7 +219,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directTextMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFunctionOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
diff --git a/is_empty.go b/is_empty.go
index b4d6d5e..937e4ae 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -48,3 +48,13 @@ func init() {
 	// Interface
 	// Ptr
 }
+
+// isEmptyFunctionOf returns the function which tells if a value of the
+// given type is empty
+func isEmptyFunctionOf(typ reflect.Type) isEmptyFunc {
+	kind := typ.Kind()
+	if kind == reflect.Array && typ.Len() == 0 {
+		return (*emptyArrayEncoder)(nil).IsEmpty
+	}
+	return isEmptyFunctions[kind]
+}
-- 
2.43.0


From a0f17d42c35e3792c83dcacdb14528d12b7c130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:49 +0000
Subject: [PATCH 24/25] fix: methods behind a named pointer type were not
 called when encoding

---
 encoder_config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 658b9c7..01e155c 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -156,6 +156,11 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		kind := typ.Kind()
+		if kind == reflect.Ptr {
+			// a named pointer type has no method, but those of the value
+			// it points to can still be called
+			typ = reflect.PtrTo(typ.Elem())
+		}
 
 		// check json.Marshaler interface
 		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
@@ -177,7 +182,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 					internalCache[rType] = w.encoder
 					rebuildMap[rType] = w
 				} else {
-					v := pointerJSONMarshalerEncoder(rType)
+					v := pointerJSONMarshalerEncoder(rtypeOfType(typ))
 					internalCache[rType] = v
 					cache[rType] = &directEncoder{v}
 				}
@@ -212,7 +217,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 					internalCache[rType] = w.encoder
 					rebuildMap[rType] = w
 				} else {
-					v := pointerTextMarshalerEncoder(rType)
+					v := pointerTextMarshalerEncoder(rtypeOfType(typ))
 					internalCache[rType] = v
 					cache[rType] = &directEncoder{v}
 				}
-- 
2.43.0


From baf17490c495599e5cf9675b5edf26a658689edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 25/25] fix: Encoder reported success when the writer took only
 a part of the bytes

---
 encoder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 2d5e5b5..5187490 100644
--- a/encoder.go
+++ b/encoder.go
@@ -1,5 +1,9 @@
 package jzon
 
+import (
+	"io"
+)
+
 // Encoder is almost standard library compatible
 // The following standard methods are not implemented
 // - SetIndent
@@ -18,10 +22,17 @@ func encodeInternal(s *Streamer, v interface{}) error {
 	if err := s.Value(v).Flush(); err != nil {
 		return err
 	}
-	_, err := s.writer.Write([]byte{'\n'})
+	if len(s.buffer) > 0 {
+		// the writer took a part only, without an error
+		return io.ErrShortWrite
+	}
+	n, err := s.writer.Write([]byte{'\n'})
 	if err != nil {
 		return err
 	}
+	if n < 1 {
+		return io.ErrShortWrite
+	}
 	s.Reset(s.writer)
 	return nil
 }
-- 
2.43.0

