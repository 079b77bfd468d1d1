From 0af1caa5dc0831a78672e256403ab90a8e81168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 01/55] fix: refuse value lengths that exceed the received
 bytes or the type

A string of length zero panicked, a time of one to three bytes panicked, a
bit string of more than 16 bytes was dropped, and string, octet string, bit
string, date and time buffers were allocated at whatever size the packet
declared. Dates and times cut short were filled with zeros.
---
 encoding/date.go    | 16 +++-------------
 encoding/decoder.go | 39 +++++++++++++++++++++++++++++++++++----
 encoding/string.go  | 12 ++++++++----
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..c2f7589 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -43,17 +43,10 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
-		return
-	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
+	data := d.fixed("date", length, int(dateLen))
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	if dt.Year != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
@@ -75,11 +68,8 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
-		return
-	}
-	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	data := d.fixed("time", length, int(timeLen))
+	if d.err != nil {
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..423037e 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,9 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -39,10 +42,31 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	d.take(int(n))
 	return d.err
 }
 
+// take consumes the next n bytes. A length that the remaining bytes cannot
+// satisfy is an error.
+func (d *Decoder) take(n int) []byte {
+	if d.err != nil {
+		return nil
+	}
+	if n < 0 || n > d.len() {
+		d.err = io.ErrUnexpectedEOF
+		return nil
+	}
+	return d.buff.Next(n)
+}
+
+// fixed consumes a value that always has the same length.
+func (d *Decoder) fixed(name string, length, want int) []byte {
+	if d.err == nil && length != want {
+		d.err = fmt.Errorf("invalid %s length %d, expected %d", name, length, want)
+	}
+	return d.take(want)
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -183,11 +207,18 @@ func (d *Decoder) signed(length int) int32 {
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	// one byte for the number of unused bits, followed by the bits
+	if d.err == nil && (length < 1 || length > btypes.MaxBitStringBytes+1) {
+		d.err = fmt.Errorf("invalid bit string length %d", length)
+	}
+	data := d.take(length)
+	if d.err != nil {
+		return nil
+	}
+	if length == 1 && data[0] != 0 {
+		d.err = fmt.Errorf("bit string without bits has %d unused bits", data[0])
 		return nil
 	}
-	data := make([]uint8, length)
-	d.decode(data)
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..7b045d3 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -32,14 +32,19 @@ func decodeUCS2(s string) (string, error) {
 func (d *Decoder) string(s *string, len int) error {
 	var t stringType
 	d.decode(&t)
+	if d.err != nil {
+		return d.err
+	}
 	switch t {
 	case stringUTF8:
 	case characterUCS2:
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
-	b := make([]byte, len)
-	d.decode(b)
+	b := d.take(len)
+	if d.err != nil {
+		return d.err
+	}
 
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
@@ -58,6 +63,5 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
-	*b = make([]byte, len)
-	d.decode(b)
+	*b = append([]byte{}, d.take(len)...)
 }
-- 
2.43.0


From 27c3302c7a5908f1dd2b44e5a9681503bae6e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 02/55] fix: decode an unspecified year as unspecified

The test looked at the result struct instead of the received byte, so a
wildcard year came out as 2245.
---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index c2f7589..c981a13 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -48,10 +48,10 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
 	} else {
-		dt.Year = int(data[0])
+		dt.Year = btypes.UnspecifiedTime
 	}
 
 	dt.Month = int(data[1])
-- 
2.43.0


From 3e1bc260ab80831900e7005415f8159f63f7eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 03/55] fix: encode and decode signed integers as two's
 complement

The length was chosen as for an unsigned value, so 128 was sent as one octet
(-128), and a negative three octet value was not sign extended.
---
 encoding/appdata.go |  5 ++---
 encoding/decoder.go |  2 +-
 encoding/encoder.go | 26 ++++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..a8ce295 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -106,10 +106,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 423037e..da6c898 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -179,7 +179,7 @@ func (d *Decoder) signed24() int32 {
 	d.decode(&c)
 
 	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
+	x = int32(a) << 16 // the first octet carries the sign
 	x |= int32((int32(b) << 8) & 0x0000ff00)
 	x |= int32(int32(c) & 0x000000ff)
 	return x
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..73bf35a 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,32 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+// signedLength is the number of octets of the shortest two's complement form
+func signedLength(value int32) int {
+	switch {
+	case value >= -0x80 && value < 0x80:
+		return size8
+	case value >= -0x8000 && value < 0x8000:
+		return size16
+	case value >= -0x800000 && value < 0x800000:
+		return size24
+	}
+	return size32
+}
+
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
-- 
2.43.0


From b3f8bb1c27525a5b9c13f58737c67e9e43f15489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 04/55] fix: announce eight octets for a double

---
 encoding/appdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index a8ce295..c02e9e2 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -93,7 +93,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
-- 
2.43.0


From 7f51bfe33a3399acd55f097fce97d2efb8bf823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 05/55] fix: refuse a binary value that is not a number instead
 of crashing

---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index c02e9e2..8f7849b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From 78ac1aac451cb19e73130851b98465d50192d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 06/55] fix: refuse numbers, identifiers and nulls whose length
 does not fit

An unsupported integer length was decoded as zero without consuming the
value, reals and identifiers ignored the announced length, and a null was
returned even when there was nothing left to decode.
---
 encoding/appdata.go | 14 +++++++++++++-
 encoding/decoder.go | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 8f7849b..a1719eb 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -131,7 +131,10 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		if len != 0 {
+			d.invalidLength("null", len)
+		}
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
@@ -142,10 +145,16 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 		return d.signed(len), d.Error()
 	case tagReal:
 		var x float32
+		if len != int(realLen) {
+			d.invalidLength("real", len)
+		}
 		d.real(&x)
 		return x, d.Error()
 	case tagDouble:
 		var x float64
+		if len != int(doubleLen) {
+			d.invalidLength("double", len)
+		}
 		d.double(&x)
 		return x, d.Error()
 	case tagOctetString:
@@ -171,6 +180,9 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 		d.time(&t, len)
 		return t, d.Error()
 	case tagObjectID:
+		if len != int(objectIDLen) {
+			d.invalidLength("object identifier", len)
+		}
 		objType, objInstance := d.objectId()
 		return btypes.ObjectID{
 			Type:     btypes.ObjectType(objType),
diff --git a/encoding/decoder.go b/encoding/decoder.go
index da6c898..5e247b8 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -59,10 +59,17 @@ func (d *Decoder) take(n int) []byte {
 	return d.buff.Next(n)
 }
 
+// invalidLength records that a value has a length its type cannot have.
+func (d *Decoder) invalidLength(name string, length int) {
+	if d.err == nil {
+		d.err = fmt.Errorf("invalid %s length %d", name, length)
+	}
+}
+
 // fixed consumes a value that always has the same length.
 func (d *Decoder) fixed(name string, length, want int) []byte {
-	if d.err == nil && length != want {
-		d.err = fmt.Errorf("invalid %s length %d, expected %d", name, length, want)
+	if length != want {
+		d.invalidLength(name, length)
 	}
 	return d.take(want)
 }
@@ -168,6 +175,7 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength("integer", length)
 		return 0
 	}
 }
@@ -202,14 +210,15 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength("integer", length)
 		return 0
 	}
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
 	// one byte for the number of unused bits, followed by the bits
-	if d.err == nil && (length < 1 || length > btypes.MaxBitStringBytes+1) {
-		d.err = fmt.Errorf("invalid bit string length %d", length)
+	if length < 1 || length > btypes.MaxBitStringBytes+1 {
+		d.invalidLength("bit string", length)
 	}
 	data := d.take(length)
 	if d.err != nil {
-- 
2.43.0


From 3a11fe8c4b370fc06bb7bc37c5274b9b8f725eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 07/55] fix: refuse objects and properties that a request
 cannot name

---
 encoding/encoder.go         | 19 ++++++++++++++++++-
 encoding/readmultipleack.go |  2 +-
 encoding/readprop.go        | 10 +++++-----
 encoding/validate.go        | 22 ++++++++++++++++++++++
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 73bf35a..f72de94 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -117,6 +117,12 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	if err := isValidObjectID(objectType, instance); err != nil {
+		if e.err == nil {
+			e.err = err
+		}
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
@@ -126,6 +132,17 @@ func (e *Encoder) contextEnumerated(tagNumber uint8, value uint32) {
 	e.contextUnsigned(tagNumber, value)
 }
 
+// propertyID encodes a property identifier, which must not exceed 22 bits
+func (e *Encoder) propertyID(tagNumber uint8, prop btypes.PropertyType) {
+	if err := isValidPropertyType(uint32(prop)); err != nil {
+		if e.err == nil {
+			e.err = err
+		}
+		return
+	}
+	e.contextEnumerated(tagNumber, uint32(prop))
+}
+
 func (e *Encoder) contextUnsigned(tagNumber uint8, value uint32) {
 	e.tag(tagInfo{ID: tagNumber, Context: true, Value: uint32(valueLength(value))})
 	e.unsigned(value)
@@ -203,7 +220,7 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 	for _, prop := range properties {
 		// Tag 0 - Property ID
 		tag = 0
-		e.contextEnumerated(tag, uint32(prop.Type))
+		e.propertyID(tag, prop.Type)
 
 		// Tag 1 (OPTIONAL) - Array Length
 		if prop.ArrayIndex != ArrayAll {
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..5eb900b 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -42,7 +42,7 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 	for _, prop := range properties {
 		// Tag 2 - Property ID
 		tag = 2
-		e.contextEnumerated(tag, uint32(prop.Type))
+		e.propertyID(tag, prop.Type)
 
 		// Tag 3 (OPTIONAL) - Array Length
 		tag++
diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..c886a40 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,10 +8,8 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
-	if err := isValidObjectType(data.Object.ID.Type); err != nil {
-		return 0, err
-	}
-	if err := isValidPropertyType(uint32(data.Object.Properties[0].Type)); err != nil {
+	if err := validPropertyHeader(data); err != nil {
+		e.err = err
 		return 0, err
 	}
 
@@ -44,7 +42,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		return err
+	}
 	return e.Error()
 }
 
diff --git a/encoding/validate.go b/encoding/validate.go
index dad8923..7507ff0 100644
--- a/encoding/validate.go
+++ b/encoding/validate.go
@@ -13,6 +13,28 @@ func isValidObjectType(idType btypes.ObjectType) error {
 	return nil
 }
 
+func isValidObjectID(idType btypes.ObjectType, instance btypes.ObjectInstance) error {
+	if err := isValidObjectType(idType); err != nil {
+		return err
+	}
+	if instance > MaxInstance {
+		return fmt.Errorf("Object instance is %d which must not exceed %d", instance, MaxInstance)
+	}
+	return nil
+}
+
+// validPropertyHeader checks that the object and its first property can be
+// named in a request.
+func validPropertyHeader(data *btypes.PropertyData) error {
+	if len(data.Object.Properties) == 0 {
+		return fmt.Errorf("no property given for object %v", data.Object.ID)
+	}
+	if err := isValidObjectID(data.Object.ID.Type, data.Object.ID.Instance); err != nil {
+		return err
+	}
+	return isValidPropertyType(uint32(data.Object.Properties[0].Type))
+}
+
 func isValidPropertyType(propType uint32) error {
 	if propType > MaxPropertyID {
 		return fmt.Errorf("Object btypes is %d which must be less then %d", propType, MaxPropertyID)
-- 
2.43.0


From 0b3a38856acca77f4b00920949f5f81d38f4b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 08/55] fix: encode read acknowledgements with matching tags
 and tagged values

---
 encoding/readmultipleack.go | 4 +---
 encoding/readprop.go        | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 5eb900b..7d23822 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
diff --git a/encoding/readprop.go b/encoding/readprop.go
index c886a40..0fd3387 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,7 +69,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
-- 
2.43.0


From 981a8f6ea45c57d9f24ceb7e32a4369226f144c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 09/55] fix: write-multiple sends the priority and binary
 values in their standard tags

---
 encoding/encoder.go   |  8 +++++---
 encoding/writeprop.go | 11 +++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index f72de94..d3e2098 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -207,14 +207,14 @@ func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 		// Tag 1 - Opening Tag
 		tag = 1
 		e.openingTag(tag)
-		e.properties(obj.Properties, write)
+		e.properties(obj.ID.Type, obj.Properties, write)
 		// Tag 1 - Closing Tag
 		e.closingTag(tag)
 	}
 	return nil
 }
 
-func (e *Encoder) properties(properties []btypes.Property, write bool) error {
+func (e *Encoder) properties(objectType btypes.ObjectType, properties []btypes.Property, write bool) error {
 	// for each property
 	var tag uint8
 	for _, prop := range properties {
@@ -232,9 +232,11 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			// Tag 2 - Opening Tag
 			tag = 2
 			e.openingTag(tag)
-			e.AppData(prop.Data, false)
+			e.AppData(prop.Data, isBOBVPresentValue(objectType, prop.Type))
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
+			tag = 3
 			if prop.Priority != btypes.Normal {
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
diff --git a/encoding/writeprop.go b/encoding/writeprop.go
index b9a83b2..b6fe761 100644
--- a/encoding/writeprop.go
+++ b/encoding/writeprop.go
@@ -41,13 +41,12 @@ func (e *Encoder) WriteProperty(invokeID uint8, data btypes.PropertyData) error
 
 //pointTypeBOBV if point type is bv or bo then we need to set the data type to enum
 func pointTypeBOBV(data btypes.PropertyData) (isBool bool) {
-	pointType := data.Object.ID.Type
-	property := 0
 	if len(data.Object.Properties) > 0 {
-		property = int(data.Object.Properties[0].Type)
-	}
-	if (pointType == btypes.TypeBinaryValue || pointType == btypes.TypeBinaryOutput) && property == 85 {
-		return true
+		return isBOBVPresentValue(data.Object.ID.Type, data.Object.Properties[0].Type)
 	}
 	return
 }
+
+func isBOBVPresentValue(pointType btypes.ObjectType, property btypes.PropertyType) bool {
+	return (pointType == btypes.TypeBinaryValue || pointType == btypes.TypeBinaryOutput) && property == 85
+}
-- 
2.43.0


From 5492e4f3e1ce40d18e1b94c514884d4d4284be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 10/55] fix: decode read answers up to their closing tags,
 completely and only once

---
 encoding/context_tag.go     |  10 +-
 encoding/readmultipleack.go | 177 +++++++++++++++++++-----------------
 encoding/readprop.go        |  93 ++++++++-----------
 3 files changed, 140 insertions(+), 140 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..c6cfb00 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -3,13 +3,13 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
-/* returns the fixed tag type for certain context tagged properties */
+/* returns the fixed tag type for certain context tagged properties, maxTag when it is not known */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL,
+		btypes.PROP_REQUESTED_SHED_LEVEL,
+		btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 7d23822..b9d668c 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -93,9 +93,81 @@ func (d *Decoder) bacError(errorClass, errorCode *uint32) error {
 	return nil
 }
 
+// valueList decodes the values between an opening tag, which has been read, and
+// its closing tag. The contents of constructed values are added one by one.
+func (d *Decoder) valueList(closingTag uint8, prop btypes.PropertyType) ([]interface{}, error) {
+	array := make([]interface{}, 0)
+	open := []uint8{closingTag} // the tags that are still to be closed
+	var dt *btypes.DataTime     // the date and time that is being read
+	var dtDepth int
+	for {
+		tag, meta, length := d.tagNumberAndValue()
+		if d.err != nil {
+			return nil, d.err
+		}
+
+		if meta.isContextSpecific() && meta.isClosing() {
+			depth := len(open) - 1
+			if tag != open[depth] {
+				return nil, &ErrorIncorrectTag{Expected: open[depth], Given: tag}
+			}
+			if depth == 0 {
+				return array, nil
+			}
+			if dt != nil && depth == dtDepth {
+				array = append(array, dt)
+				dt = nil
+			}
+			open = open[:depth]
+			continue
+		}
+
+		if meta.isContextSpecific() && meta.isOpening() {
+			if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime && dt == nil {
+				dt = &btypes.DataTime{}
+				dtDepth = len(open)
+			}
+			open = append(open, tag)
+			continue
+		}
+
+		if dt != nil {
+			if meta.isContextSpecific() {
+				d.Skip(length)
+			} else if tag == tagDate {
+				d.date(&dt.Date, int(length))
+			} else if tag == tagTime {
+				d.time(&dt.Time, int(length))
+			} else if tag != tagBool { // which has no content
+				d.Skip(length)
+			}
+			continue
+		}
+
+		if meta.isContextSpecific() {
+			tag = tagTypeInContext(prop, tag)
+			if tag == maxTag {
+				//skip unknown type
+				d.Skip(length)
+				continue
+			}
+			if tag == tagBool {
+				// unlike the application tagged one it has a content
+				array = append(array, d.unsigned(int(length)) != 0)
+				continue
+			}
+		}
+		data, err := d.AppDataOfTag(tag, int(length))
+		if err != nil {
+			return nil, err
+		}
+		array = append(array, data)
+	}
+}
+
 func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
-	obj := btypes.Object{}
 	for d.Error() == nil && d.len() > 0 {
+		obj := btypes.Object{}
 		obj.Properties = []btypes.Property{}
 
 		// Tag 0 - Object ID
@@ -104,6 +176,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorIncorrectTag{Expected: 0, Given: tag}
 		} else if !meta.isContextSpecific() {
 			return &ErrorWrongTagType{ContextTag}
+		} else if length != objectIDLen {
+			return fmt.Errorf("invalid object identifier length %d", length)
 		}
 		obj.ID.Type, obj.ID.Instance = d.objectId()
 
@@ -111,18 +185,24 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 		tag, meta = d.tagNumber()
 		if tag != 1 {
 			return &ErrorIncorrectTag{Expected: 1, Given: tag}
-		} else if !meta.isOpening() {
+		} else if !meta.isOpening() || meta.isClosing() {
 			return &ErrorWrongTagType{OpeningTag}
 		}
 
-		// Tag 2 - Property Tag
-		tag, meta, length = d.tagNumberAndValue()
-		if tag != 2 {
-			return &ErrorIncorrectTag{Expected: 2, Given: tag}
-		}
+		for {
+			// Tag 1 - Closing Tag
+			tag, meta, length = d.tagNumberAndValue()
+			if d.err != nil {
+				return d.err
+			}
+			if tag == 1 && meta.isClosing() {
+				break
+			}
 
-		for d.len() > 0 && tag == 2 && !meta.isClosing() {
-			if !meta.isContextSpecific() {
+			// Tag 2 - Property Tag
+			if tag != 2 {
+				return &ErrorIncorrectTag{Expected: 2, Given: tag}
+			} else if !meta.isContextSpecific() {
 				return &ErrorWrongTagType{ContextTag}
 			}
 
@@ -131,9 +211,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 3 - (Optional) Array Length
 			tag, meta = d.tagNumber()
-			if tag == 2 {
-				continue
-			} else if tag == 3 {
+			if tag == 3 {
 				if !meta.isContextSpecific() {
 					return &ErrorWrongTagType{ContextTag}
 				}
@@ -146,69 +224,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			}
 
 			// Tag 4 - Opening Tag
-			if tag == 4 && meta.isOpening() {
-				var array []interface{}
-				tag, meta = d.tagNumber()
-				if d.err != nil {
-					return d.err
-				}
-				for {
-					if meta.isContextSpecific() {
-						if meta.isClosing() {
-							_ = d.UnreadByte()
-						} else if meta.isOpening() {
-							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
-								dt := &btypes.DataTime{}
-								for {
-									tag, meta, length = d.tagNumberAndValue()
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
-									} else if tag == tagDate {
-										d.date(&dt.Date, int(length))
-									} else if tag == tagTime {
-										d.time(&dt.Time, int(length))
-									} else if length > 0 {
-										d.Skip(length)
-									}
-								}
-								array = append(array, dt)
-							}
-						} else {
-							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
-							lenValue := d.value(meta)
-							tag = tagTypeInContext(prop.Type, tag)
-							if tag == maxTag {
-								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
-								}
-							} else {
-								data, err := d.AppDataOfTag(tag, int(lenValue))
-								if err != nil {
-									return err
-								}
-								array = append(array, data)
-							}
-						}
-					} else {
-						data, err := d.AppDataOfTag(tag, int(d.value(meta)))
-						if err != nil {
-							return err
-						}
-						array = append(array, data)
-					}
-					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+			if tag == 4 && meta.isOpening() && !meta.isClosing() {
+				array, err := d.valueList(tag, prop.Type)
+				if err != nil {
+					return err
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
@@ -216,19 +235,13 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 					prop.Data = array
 				}
 				obj.Properties = append(obj.Properties, prop)
-
-				tag, meta, length = d.tagNumberAndValue()
-			} else if tag == 5 && meta.isOpening() {
+			} else if tag == 5 && meta.isOpening() && !meta.isClosing() {
 				//Tag 5 error
 				var class, code uint32
 				err := d.bacError(&class, &code)
 				if err != nil {
 					return err
 				}
-				tag, meta = d.tagNumber()
-				if tag == 5 && meta.isClosing() {
-					//
-				}
 				return fmt.Errorf("class %d code %d", class, code)
 			} else {
 				return &ErrorIncorrectTag{Expected: 4, Given: tag}
diff --git a/encoding/readprop.go b/encoding/readprop.go
index 0fd3387..4600ba3 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -82,7 +82,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	}
 
 	// Tag 0: Object ID
-	tag, meta := d.tagNumber()
+	tag, meta, lenValue := d.tagNumberAndValue()
 
 	var expectedTag uint8
 	if tag != expectedTag {
@@ -95,76 +95,63 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if !meta.isContextSpecific() {
 		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
 	}
+	if lenValue != objectIDLen {
+		return fmt.Errorf("invalid object identifier length %d", lenValue)
+	}
 	objectType, instance = d.objectId()
 	data.Object.ID.Type = objectType
 	data.Object.ID.Instance = instance
 
 	// Tag 1: Property ID
-	tag, meta = d.tagNumber()
+	tag, meta, lenValue = d.tagNumberAndValue()
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{expectedTag, tag}
 	}
 	expectedTag++
-
-	lenValue := d.value(meta)
+	if !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
+	}
 
 	var prop btypes.Property
 	prop.Type = btypes.PropertyType(d.enumerated(int(lenValue)))
-
-	if d.len() != 0 {
-		tag, meta = d.tagNumber()
-	}
-
-	// Check to see if we still have bytes to read.
-	if d.buff.Len() != 0 || tag >= 2 {
-		// If we do then that means we are reading the optional argument,
-		// arra length
-
-		// Tag 2: Array Length (OPTIONAL)
-		var lenValue uint32
-		lenValue = d.value(meta)
-
-		var openTag uint8
-		// I tried to not use magic numbers but it doesn't look like it can be avoided
-		// If the attag we receive is a tag of 2 then set the value
-		if tag == 2 {
+	prop.ArrayIndex = ArrayAll
+
+	// Tag 2: Array Length (OPTIONAL)
+	more := d.len() > 0
+	if more {
+		tag, meta, lenValue = d.tagNumberAndValue()
+		if tag == expectedTag {
+			if !meta.isContextSpecific() {
+				return &ErrorWrongTagType{ContextTag}
+			}
 			prop.ArrayIndex = d.unsigned(int(lenValue))
-			if d.len() > 0 {
-				openTag, meta = d.tagNumber()
+			more = d.len() > 0
+			if more {
+				tag, meta, _ = d.tagNumberAndValue()
 			}
-		} else {
-			openTag = tag
-			prop.ArrayIndex = ArrayAll
 		}
+	}
+	expectedTag++
 
-		if openTag == 3 {
-			var err error
-			// We subtract one to ignore the closing tag.
-			datalist := make([]interface{}, 0)
-
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
-			for i := 0; d.buff.Len() > 1; i++ {
-				data, err := d.AppData()
-				if err != nil {
-					d.err = err
-					return err
-				}
-				datalist = append(datalist, data)
-			}
-			prop.Data = datalist
+	// Tag 3: the values, only present in an acknowledgement
+	if more {
+		if tag != expectedTag {
+			return &ErrorIncorrectTag{expectedTag, tag}
+		}
+		if !meta.isContextSpecific() || !meta.isOpening() || meta.isClosing() {
+			return &ErrorWrongTagType{OpeningTag}
+		}
+		datalist, err := d.valueList(expectedTag, prop.Type)
+		if err != nil {
+			d.err = err
+			return err
+		}
+		prop.Data = datalist
 
-			// If we only have one value in the list, lets just return that value
-			if len(datalist) == 1 {
-				prop.Data = datalist[0]
-			}
-			if err != nil {
-				d.err = err
-				return err
-			}
+		// If we only have one value in the list, lets just return that value
+		if len(datalist) == 1 {
+			prop.Data = datalist[0]
 		}
-	} else {
-		prop.ArrayIndex = ArrayAll
 	}
 
 	// We now assemble all the values that we have read above
-- 
2.43.0


From aed4c2bba333c8b27600f6f4b32c964a687821d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 11/55] fix: read class and code of an error in both of its
 forms

---
 encoding/apdu.go | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..81e2118 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -112,29 +112,35 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
 	d.decode(&a.Service)
 
-	_, meta := d.tagNumber()
-	if meta.isOpening() {
-		_, _, value := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
-		_, _, value = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
-		_, meta = d.tagNumber()
-		if !meta.isClosing() {
-			return &ErrorWrongTagType{ClosingTag}
+	// Some services wrap the error in an opening and a closing tag
+	tag, meta, value := d.tagNumberAndValue()
+	wrapped := meta.isContextSpecific() && meta.isOpening() && !meta.isClosing()
+	wrapper := tag
+	if wrapped {
+		tag, meta, value = d.tagNumberAndValue()
+	}
+	a.Error.Class = bacerr.ErrorClass(d.errorField(tag, meta, value))
+	tag, meta, value = d.tagNumberAndValue()
+	a.Error.Code = bacerr.ErrorCode(d.errorField(tag, meta, value))
+	if wrapped {
+		tag, meta = d.tagNumber()
+		if d.err == nil && (tag != wrapper || !meta.isClosing()) {
+			d.err = &ErrorWrongTagType{ClosingTag}
 		}
-	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
+	}
+	return d.Error()
+}
 
+// errorField decodes the enumerated class or code of an error
+func (d *Decoder) errorField(tag uint8, meta tagMeta, length uint32) uint32 {
+	if d.err != nil {
+		return 0
 	}
-	return nil
+	if tag != tagEnumerated || meta.isContextSpecific() {
+		d.err = &ErrorIncorrectTag{Expected: tagEnumerated, Given: tag}
+		return 0
+	}
+	return d.enumerated(int(length))
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From 30cb0ac095fd98aca26a40fc9c0b8237d7508684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 12/55] fix: keep sequence and window of a segmented
 acknowledgement

---
 encoding/apdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 81e2118..6069fd3 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -145,6 +149,10 @@ func (d *Decoder) errorField(tag uint8, meta tagMeta, length uint32) uint32 {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
-- 
2.43.0


From f37db48cbb8af5c42ba46b03e5b7a55092c1f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 13/55] fix: decode the vendor id of every proprietary message,
 keep priority in its bits

---
 encoding/npdu.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..d2cff9e 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
@@ -168,8 +168,8 @@ func (n *NPDUMetadata) Priority() btypes.NPDUPriority {
 // SetPriority for NPDU
 func (n *NPDUMetadata) SetPriority(p btypes.NPDUPriority) {
 	// Clear the first two bits
-	//*n &= (0xF - 3)
-	*n |= NPDUMetadata(p)
+	*n &^= 3
+	*n |= NPDUMetadata(p) & 3
 }
 
 func (n *NPDUMetadata) HasDestination() bool {
-- 
2.43.0


From 135826fd9e02dd3515c01889bd2cab85c8f13941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 14/55] fix: deliver every network of a router announcement
 exactly once

---
 encoding/npdu.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index d2cff9e..9a142b1 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -116,13 +116,14 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
+			for d.err == nil && d.len() > 0 {
 				d.decode(&n.Source.Net)
-				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
-					}
+				known := false
+				for _, adr := range nets { //make sure that a network is only added once
+					known = known || adr.Net == n.Source.Net
+				}
+				if !known && d.err == nil {
+					nets = append(nets, *n.Source)
 				}
 			}
 			addr = nets
-- 
2.43.0


From bbf2d53f1b465618666e8b1e33ff9292b8f1771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 15/55] fix: reject an I-Am with missing or mistyped fields

---
 encoding/iam.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..95b56be 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -20,24 +20,41 @@ func (e *Encoder) IAm(id btypes.IAm) error {
 }
 
 func (d *Decoder) IAm(id *btypes.IAm) error {
-	objID, err := d.AppData()
-	if err != nil {
-		return err
+	objID := d.appDataOf(tagObjectID)
+	maxapdu := d.appDataOf(tagUint)
+	segmentation := d.appDataOf(tagEnumerated)
+	vendor := d.appDataOf(tagUint)
+	if d.err != nil {
+		return d.err
 	}
 	if i, ok := objID.(btypes.ObjectID); ok {
 		id.ID = i
 	}
-	maxapdu, _ := d.AppData()
 	if m, ok := maxapdu.(uint32); ok {
 		id.MaxApdu = m
 	}
-	segmentation, _ := d.AppData()
 	if m, ok := segmentation.(uint32); ok {
 		id.Segmentation = btypes.Enumerated(m)
 	}
-	vendor, err := d.AppData()
 	if v, ok := vendor.(uint32); ok {
 		id.Vendor = v
 	}
 	return d.Error()
 }
+
+// appDataOf decodes an application value that must have the given tag
+func (d *Decoder) appDataOf(expected uint8) interface{} {
+	tag, meta, length := d.tagNumberAndValue()
+	if d.err != nil {
+		return nil
+	}
+	if meta.isContextSpecific() || tag != expected {
+		d.err = &ErrorIncorrectTag{Expected: expected, Given: tag}
+		return nil
+	}
+	data, err := d.AppDataOfTag(tag, int(length))
+	if err != nil && d.err == nil {
+		d.err = err
+	}
+	return data
+}
-- 
2.43.0


From 30998bfc643214d18d00660fc42410ceb2fcb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 16/55] fix: reject Who-Is limits that are not instance numbers

---
 encoding/whois.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/encoding/whois.go b/encoding/whois.go
index 1fa11cb..ab4b538 100644
--- a/encoding/whois.go
+++ b/encoding/whois.go
@@ -1,6 +1,8 @@
 package encoding
 
 import (
+	"fmt"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -33,22 +35,34 @@ func (d *Decoder) WhoIs(low, high *int32) error {
 		return nil
 	}
 	// Tag 0 - Low Value
-	var expectedTag uint8
-	tag, _, value := d.tagNumberAndValue()
-	if tag != expectedTag {
-		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
+	l := d.whoIsLimit(0)
+	// Tag 1 - High Value
+	h := d.whoIsLimit(1)
+	if d.err != nil {
+		return d.err
 	}
-	l := d.unsigned(int(value))
 	*low = int32(l)
+	*high = int32(h)
+	return nil
+}
 
-	// Tag 1 - High Value
-	expectedTag = 1
-	tag, _, value = d.tagNumberAndValue()
+// whoIsLimit decodes one end of the range, an instance number
+func (d *Decoder) whoIsLimit(expectedTag uint8) uint32 {
+	tag, meta, length := d.tagNumberAndValue()
+	if d.err != nil {
+		return 0
+	}
 	if tag != expectedTag {
-		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
+		d.err = &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
+		return 0
 	}
-	h := d.unsigned(int(value))
-	*high = int32(h)
-
-	return d.Error()
+	if !meta.isContextSpecific() {
+		d.err = &ErrorWrongTagType{ContextTag}
+		return 0
+	}
+	limit := d.unsigned(int(length))
+	if d.err == nil && limit > MaxInstance {
+		d.err = fmt.Errorf("device instance %d must not exceed %d", limit, MaxInstance)
+	}
+	return limit
 }
-- 
2.43.0


From 9d6dcddf36a0e4974c6918c735a7a7b35079d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 17/55] fix: bit string operations stay within the string's
 octets

---
 btypes/bitstring.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..6e099fd 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -13,6 +13,9 @@ func NewBitString(bufferSize int) *BitString {
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	return &BitString{
 		BitUsed: 0,
 		Value:   make([]byte, bufferSize),
@@ -39,7 +42,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +59,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +78,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
-- 
2.43.0


From 2df636b05eb88dcdcff3fcbd739afbda0c68368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 18/55] fix: take the length of a routed address from the
 address

---
 btypes/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..e28f9c2 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength if device has a hardware address (ms-tp: 1 octet) then set its length
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
-- 
2.43.0


From 010df6009e89228f9102863d48be84625543a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 19/55] fix: map the printed name of an unnamed object type
 back to the type

---
 btypes/object.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..83c86ae 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -1,6 +1,10 @@
 package btypes
 
-import "fmt"
+import (
+	"fmt"
+	"strconv"
+	"strings"
+)
 
 type ObjectType uint16
 
@@ -92,15 +96,28 @@ var objStrTypeMap = map[string]ObjectType{
 func GetType(s string) ObjectType {
 	t, ok := objStrTypeMap[s]
 	if !ok {
-		return 0
+		// a type without a name, as printed by String
+		var n ObjectType
+		if strings.HasPrefix(s, unknownPrefix) && strings.HasSuffix(s, unknownSuffix) {
+			v, err := strconv.ParseUint(s[len(unknownPrefix):len(s)-len(unknownSuffix)], 10, 16)
+			if err == nil {
+				n = ObjectType(v)
+			}
+		}
+		return n
 	}
 	return t
 }
 
+const (
+	unknownPrefix = "Unknown ("
+	unknownSuffix = ")"
+)
+
 func (t ObjectType) String() string {
 	s, ok := objTypeMap[t]
 	if !ok {
-		return fmt.Sprintf("Unknown (%d)", t)
+		return fmt.Sprintf("%s%d%s", unknownPrefix, t, unknownSuffix)
 	}
 	return fmt.Sprintf("%s", s)
 }
-- 
2.43.0


From d4a3720b4836626f42c2f514c8a80e78db169859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 20/55] fix: load an object map from JSON into a nil map

---
 btypes/object_map.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..fcc3359 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -30,20 +30,23 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil {
+		*om = make(ObjectMap, len(m))
+	}
 	for t, sub := range m {
 		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From 4150f6df9406dcd3d82d6e84a876adcb8352c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 21/55] fix: build priority arrays of analogue points

---
 btypes/priority/priority.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..35c0fcb 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,11 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch v := value.(type) {
+		case float32: // analogue points
+			returnValue = nils.NewFloat32(v)
+		case uint32: // binary and multi-state points
+			returnValue = nils.NewFloat32(float32(v))
 		}
 		switch i {
 		case 0:
-- 
2.43.0


From 91c9c4c6e489652a79543f8a727220b4d68a919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 22/55] fix: report an answer without properties instead of
 crashing

---
 helpers/data/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From 33c9bbd8784302350b9b577926ab16f07cc5ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 23/55] fix: keep the port given for a device

---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..b4bfed2 100644
--- a/network/store.go
+++ b/network/store.go
@@ -60,6 +60,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From d024d8cb8d135e738db054ce59010319e0e2962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 24/55] fix: build a device's identifier from its device id

---
 btypes/device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..054ab7c 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -91,6 +91,9 @@ func NewDevice(device *Device) (*Device, error) {
 		Type:     DeviceType,
 		Instance: device.ID.Instance,
 	}
+	if object.Instance == 0 {
+		object.Instance = ObjectInstance(device.DeviceID)
+	}
 	device.ID = object
 	device.Addr = addr
 	return device, nil
-- 
2.43.0


From 5e14c888737c2442521c862593c4659f73258c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 25/55] fix: refuse a device address that is not IPv4

---
 helpers/ipbytes/ip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/ipbytes/ip.go b/helpers/ipbytes/ip.go
index 30cc36a..f5c7aff 100644
--- a/helpers/ipbytes/ip.go
+++ b/helpers/ipbytes/ip.go
@@ -31,6 +31,9 @@ func pack32BinaryIP4(ip4Address string) []byte {
 - returns uint8[192 168 15 10 186 192]
 */
 func New(ip string, port uint16) ([]uint8, error) {
+	if net.ParseIP(ip).To4() == nil {
+		return nil, errors.New("helpers.mac.BuildMac() not an IPv4 address: " + ip)
+	}
 	buf := new(bytes.Buffer)
 	err := binary.Write(buf, binary.BigEndian, port)
 	if err != nil {
-- 
2.43.0


From 18dd084441a41ce10ec5265dab1336f6afb3e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 26/55] fix: end a transaction without crashing or misleading
 late repliers

---
 tsm/transactions.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..62f1b4a 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -21,6 +21,8 @@ type state struct {
 	state        int
 	requestTimer int
 	data         chan interface{}
+	// done is closed when the transaction ends
+	done chan struct{}
 }
 
 // TSM is the transaction state manager. It handles passing data to other
@@ -28,7 +30,6 @@ type state struct {
 type TSM struct {
 	mutex  sync.Mutex
 	states map[int]*state
-	pool   sync.Pool
 	free   struct {
 		id    chan int
 		space chan struct{}
@@ -38,14 +39,7 @@ type TSM struct {
 // New creates a new transaction manager
 func New(size int) *TSM {
 	t := &TSM{
-		states: make(map[int]*state), pool: sync.Pool{
-			// Operation doesn't include a new channel. We want that done when a get is
-			// done since we close all channels when putting into the pool.
-			New: func() interface{} {
-				s := new(state)
-				return s
-			},
-		},
+		states: make(map[int]*state),
 	}
 
 	// Generate free ids.
@@ -72,8 +66,12 @@ func (t *TSM) Send(id int, b interface{}) error {
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case s.data <- b:
+		return nil
+	case <-s.done:
+		return fmt.Errorf("id %d is no longer receiving", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
@@ -94,6 +92,8 @@ func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 	select {
 	case b := <-s.data:
 		return b, nil
+	case <-s.done:
+		return nil, fmt.Errorf("id %d is no longer sending", id)
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
 	}
@@ -116,11 +116,13 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 		return 0, fmt.Errorf("no free space: %v", err)
 	}
 
-	// skip error checking, since we control new generation and what is put in the pool.
-	s := t.pool.Get().(*state)
-	s.state = idle
-	s.requestTimer = 0 // TODO: apdu_timeout
-	s.data = make(chan interface{})
+	// Every transaction has its own state: a late reply to an earlier one must not reach it.
+	s := &state{
+		state:        idle,
+		requestTimer: 0, // TODO: apdu_timeout
+		data:         make(chan interface{}),
+		done:         make(chan struct{}),
+	}
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
@@ -138,8 +140,7 @@ func (t *TSM) Put(id int) error {
 		return fmt.Errorf("id %d does not exist in the transactions", id)
 	}
 
-	close(s.data)
-	t.pool.Put(s)
+	close(s.done)
 	t.free.id <- id
 	t.free.space <- struct{}{}
 	delete(t.states, id)
-- 
2.43.0


From 56a544e849deb26eb55950f740f4e44e552db755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 27/55] fix: publish announcements without waiting for
 subscribers

---
 utsm/subscriber.go | 39 ++++++++++++++++++++++++++++++++-------
 utsm/utsm.go       |  7 ++-----
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..c512940 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -13,11 +13,34 @@ type subscriber struct {
 	timeout             time.Duration
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
-	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
+	// queue holds the published data the subscriber has not taken yet
+	queue []interface{}
+	// wake tells the subscriber that the queue is not empty
+	wake  chan struct{}
 	mutex *sync.Mutex
 }
 
+// put adds published data to the queue, it never waits for the subscriber
+func (s *subscriber) put(data interface{}) {
+	s.mutex.Lock()
+	s.lastReceived = time.Now()
+	s.queue = append(s.queue, data)
+	s.mutex.Unlock()
+	select {
+	case s.wake <- struct{}{}:
+	default: // it has been told already
+	}
+}
+
+// take removes everything from the queue
+func (s *subscriber) take() []interface{} {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	data := s.queue
+	s.queue = nil
+	return data
+}
+
 // SubscriberOption are options passed to a particular subscribe function
 type SubscriberOption func(s *subscriber)
 
@@ -53,20 +76,22 @@ func (s *subscriber) getTimeout() time.Duration {
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
-	defer m.removeSubscriber(s)
 
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
 
 	for {
 		c, can := context.WithTimeout(ctx, s.getTimeout())
-		defer can()
 
 		select {
 		case <-c.Done():
-			return store, nil
-		case b := <-s.data:
-			store = append(store, b)
+			can()
+			// what was published until now has been received
+			m.removeSubscriber(s)
+			return append(store, s.take()...), nil
+		case <-s.wake:
+			can()
+			store = append(store, s.take()...)
 		}
 	}
 }
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..460ba35 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -64,10 +64,7 @@ func (m *Manager) Publish(id int, data interface{}) {
 
 	for _, s := range m.subs {
 		if id >= s.start && id <= s.end {
-			s.mutex.Lock()
-			s.lastReceived = time.Now()
-			s.data <- data
-			s.mutex.Unlock()
+			s.put(data)
 		}
 	}
 }
@@ -77,7 +74,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		start:        start,
 		end:          end,
 		lastReceived: time.Now(),
-		data:         make(chan interface{}, 1),
+		wake:         make(chan struct{}, 1),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From 553520ec98533c0c2700d2bcee139c36ef431977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 28/55] fix: listen for announcements before asking for them,
 without a data race

---
 utsm/subscriber.go | 15 ++++++++++++++-
 whatnetwork.go     | 22 +++++++---------------
 whois.go           | 15 ++++-----------
 whoisrouter.go     | 16 ++++------------
 4 files changed, 29 insertions(+), 39 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index c512940..81661c3 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -74,9 +74,22 @@ func (s *subscriber) getTimeout() time.Duration {
 
 // Subscribe receives data meant for ids that fall between the start and end range.
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
-	var store []interface{}
+	return m.collect(m.newSubscriber(start, end, options))
+}
+
+// Request is a Subscribe that calls send once the subscription is in place, so
+// that no answer to what was sent is missed.
+func (m *Manager) Request(send func() error, start int, end int, options ...SubscriberOption) ([]interface{}, error) {
 	s := m.newSubscriber(start, end, options)
+	if err := send(); err != nil {
+		m.removeSubscriber(s)
+		return nil, err
+	}
+	return m.collect(s)
+}
 
+func (m *Manager) collect(s *subscriber) ([]interface{}, error) {
+	var store []interface{}
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
 
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..b316aa7 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -17,7 +17,6 @@ in bacnet.handleMsg() the npdu.IsNetworkLayerMessage is always rejected so this
 */
 
 func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -32,30 +31,23 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	values, err := c.utsm.Request(func() error {
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+		return err
+	}, 1, 65534) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-	err = <-errChan
-	if err != nil {
-
-	}
 
 	for _, v := range values {
 		r, ok := v.(btypes.NPDU)
-		if r.Source != nil {
-			resp = append(resp, r.Source)
-		}
 		if !ok {
 			continue
 		}
+		if r.Source != nil {
+			resp = append(resp, r.Source)
+		}
 	}
 	return resp
 
diff --git a/whois.go b/whois.go
index 95888b1..7f5947d 100644
--- a/whois.go
+++ b/whois.go
@@ -57,17 +57,10 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		start = low
 		end = high
 	}
-	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
-	if err != nil {
-		return nil, err
-	}
-	err = <-errChan
+	values, err := c.utsm.Request(func() error {
+		_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+		return err
+	}, start, end)
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..4c5b8c5 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -12,7 +12,6 @@ Is in beta
 */
 
 func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -27,20 +26,13 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	values, err := c.utsm.Request(func() error {
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+		return err
+	}, 1, 65534) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
-	}
-	err = <-errChan
-	if err != nil {
-
 	}
 	var list []btypes.Address
 	for _, addresses := range values {
-- 
2.43.0


From 15f1e60fb05699083ebaa053249d0fc3440650a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 29/55] fix: frame a Who-Is for the local network as a
 broadcast

---
 whois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 7f5947d..c91bc35 100644
--- a/whois.go
+++ b/whois.go
@@ -58,7 +58,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		end = high
 	}
 	values, err := c.utsm.Request(func() error {
-		_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+		_, err := c.Send(dest, npdu, enc.Bytes(), &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast})
 		return err
 	}, start, end)
 	if err != nil {
-- 
2.43.0


From 8b966839ff0ae7d485141aed0a0a1ae323906ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 30/55] fix: attribute forwarded packets to the device that
 sent them

---
 device.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 9413d79..30c55cb 100644
--- a/device.go
+++ b/device.go
@@ -140,6 +140,15 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	}
 
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The packet names the address of the device that sent it
+			origin := make([]uint8, forwardHeaderLength-mtuHeaderLength)
+			if n, _ := dec.Read(origin); n != len(origin) {
+				c.log.Error("Forwarded NPDU without an address")
+				return
+			}
+			src = &btypes.Address{Mac: origin, MacLen: uint8(len(origin))}
+		}
 		// Remove the header information
 		b = b[mtuHeaderLength:]
 		networkList, err := dec.NPDU(&npdu)
@@ -230,14 +239,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From dcd3f43a5e2bfdbc61170bce64d5296c69205843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 31/55] fix: take neither requests nor network messages for
 answers

---
 device.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 30c55cb..a58dfef 100644
--- a/device.go
+++ b/device.go
@@ -160,13 +160,12 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
 				c.utsm.Publish(int(npdu.Source.Net), npdu)
-				//return
 			}
 			if npdu.NetworkLayerMessageType == ndpu.IamRouterToNetwork {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
-				//return
 			}
-
+			// There is no APDU in it
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
@@ -223,11 +222,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// The invoke id is that of the sender, it is not an answer to one of our requests
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From 6cef72c3613c112e9835b9eef0baef93181ce0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 32/55] fix: receive full size APDUs together with their
 headers

---
 device.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index a58dfef..050bbec 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,10 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// maxHeaderLength is room for the headers in front of an APDU: BVLC with the
+// address of a forwarding, NPDU with destination and source
+const maxHeaderLength = forwardHeaderLength + 32
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -107,7 +111,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, int(maxPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From 909278d231f1bc21d9a2bcf7ff7d052f4786656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 33/55] fix: build the client on the given datalink or address,
 subnet and port

---
 device.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 050bbec..9aabe2c 100644
--- a/device.go
+++ b/device.go
@@ -81,7 +81,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if cb.DataLink != nil {
+		dataLink = cb.DataLink
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
 			//log.Fatal(err)
@@ -93,7 +95,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From ee6ed15e6ba96e5eedcfd61500e7421e146e58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 34/55] fix: accept only IPv4 in the BACnet/IP data link

---
 datalink/udp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..1501026 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,13 +67,17 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
 	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
-	conn, err := net.ListenUDP("udp", udp)
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
@@ -132,12 +136,17 @@ func IPPortToAddress(ip net.IP, port int) *btypes.Address {
 func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	a := &btypes.Address{}
 	p := uint16(n.Port)
+	ip := n.IP.To4()
+	if ip == nil {
+		// not an address BACnet/IP can express
+		return a
+	}
 	// Length of IP plus the port
 	length := net.IPv4len + 2
 	a.Mac = make([]uint8, length)
 	//Encode ip
 	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
+		a.Mac[i] = ip[i]
 	}
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
-- 
2.43.0


From 812816b4cb2b7232a08e1e40662db797ea491aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 35/55] fix: succeed only on the acknowledgement of the
 request's own service

---
 misc.go       | 18 ++++++++++++++++++
 readmulti.go  |  3 +++
 readprop.go   |  7 +++++++
 writemulti.go |  2 +-
 writeprop.go  |  3 +--
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/misc.go b/misc.go
index 1abc104..f6771dd 100644
--- a/misc.go
+++ b/misc.go
@@ -1,5 +1,23 @@
 package bacnet
 
+import (
+	"fmt"
+
+	"github.com/NubeDev/bacnet/btypes"
+)
+
+// checkAck tells if an answer is the positive acknowledgement of a request
+func checkAck(apdu *btypes.APDU, ack btypes.PDUType, service btypes.ServiceConfirmed) error {
+	if apdu.DataType != ack || apdu.Service != service {
+		return fmt.Errorf("received PDU type %#x for service %d, expected %#x for %d",
+			uint8(apdu.DataType), uint8(apdu.Service), uint8(ack), uint8(service))
+	}
+	if ack == btypes.ComplexAck && apdu.SegmentedMessage {
+		return fmt.Errorf("received a segmented acknowledgement")
+	}
+	return nil
+}
+
 // From:
 // https://stackoverflow.com/questions/6878590/the-maximum-value-for-an-int-type-in-go
 const (
diff --git a/readmulti.go b/readmulti.go
index 67377e1..ad5547b 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -98,6 +98,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
 	}
+	if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadPropMultiple); err != nil {
+		return out, err
+	}
 	err = dec.ReadMultiplePropertyAck(&out)
 	if err != nil {
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
diff --git a/readprop.go b/readprop.go
index 73f1b57..1dbdd94 100644
--- a/readprop.go
+++ b/readprop.go
@@ -68,9 +68,16 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadProperty); err != nil {
+			continue
+		}
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
+		if out.Object.Properties[0].Data == nil {
+			err = fmt.Errorf("received an acknowledgement without a value")
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
diff --git a/writemulti.go b/writemulti.go
index e65a189..68116b8 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -82,5 +82,5 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		return fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 	}
-	return nil
+	return checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWritePropMultiple)
 }
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..bfe5a08 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -66,8 +66,7 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
-
-		return err
+		err = checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWriteProperty)
 	}
 	return err
 }
-- 
2.43.0


From be4eeb0d65e0490cd4532a5082a7a1aedf765209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 36/55] fix: address write-multiple requests to the device
 behind a router

---
 writemulti.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writemulti.go b/writemulti.go
index 68116b8..6df7235 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From b4f590e2c9ffb4045f05647fc1c971e2fd23de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 37/55] fix: send an I-Am only when it is complete, to the full
 address

---
 iam.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iam.go b/iam.go
index aa0a677..05623b8 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
@@ -22,7 +23,10 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
-	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+	err := enc.IAm(iam)
+	if err != nil {
+		return err
+	}
+	_, err = c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From d662b853752fcab4d3d1fadf49afba866037701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 38/55] fix: check object list answers against what was asked
 for

---
 objectlist.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..5c28962 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -57,9 +57,15 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 		return nil, fmt.Errorf("no data was returned")
 	}
 
-	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
+	objs := make([]btypes.Object, end-start+1)
+	if len(resp.Objects) != 1 || len(resp.Objects[0].Properties) != len(objs) {
+		return nil, fmt.Errorf("the answer does not match the %d properties asked for", len(objs))
+	}
 
 	for i, prop := range resp.Objects[0].Properties {
+		if prop.Type != btypes.PropObjectList || prop.ArrayIndex != uint32(start+i) {
+			return nil, fmt.Errorf("unexpected property %d index %d", prop.Type, prop.ArrayIndex)
+		}
 		id, ok := prop.Data.(btypes.ObjectID)
 		if !ok {
 			return nil, fmt.Errorf("expected type Object ID, got %T", prop.Data)
@@ -92,6 +98,9 @@ func (c *client) objectList(dev *btypes.Device) error {
 
 	// Scan size is broken
 	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	if scanSize == 0 {
+		return fmt.Errorf("max APDU %d is too small", dev.MaxApdu)
+	}
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -146,13 +155,23 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expected %d objects got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if r.ID != keys[i] || len(r.Properties) != 2 ||
+			r.Properties[0].Type != btypes.PropObjectName || r.Properties[1].Type != btypes.PropDescription {
+			return fmt.Errorf("the answer for %v does not match the question", keys[i])
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From 7d50a1fe37a9c6fa95c33ed50bc1122fce240a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 39/55] fix: return errors instead of crashing on odd object
 lists

---
 network/objects.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..f8daca7 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,18 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	if objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID); ok { //a list of one object
+		return []btypes.ObjectID{objectID}, nil
+	}
+	ok, ids := data.ToArr(out)
+	if !ok {
+		return nil, fmt.Errorf("expected an object list, got %T", out.Object.Properties[0].Data)
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object identifier, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -69,13 +78,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("unable to get the length of the object list")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for object %d", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object identifier, got %T", out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 2add42a01fd425d8d416c75626c6bcebc11eed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 40/55] fix: discover each device as itself, asking it for its
 own details

---
 network/discover.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..293232c 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,26 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
+		found := &Device{
+			DeviceID:      int(dev.ID.Instance),
+			Ip:            dev.Ip,
+			Port:          dev.Port,
+			NetworkNumber: int(dev.Addr.Net),
+			MaxApdu:       dev.MaxApdu,
+			Segmentation:  uint32(dev.Segmentation),
+			dev:           dev,
+			network:       device.network,
+		}
 		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
+			found.MacMSTP = int(dev.Addr.Adr[0])
 		}
-		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, found)
 
 	}
 	count := 1
-- 
2.43.0


From 784044ca4626cca671cfaf641135c3949eca2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 41/55] fix: ask discovered devices at their own address, keep
 what they announced

---
 network/whois.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index 74cb953..2da1bc8 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -24,17 +24,7 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		details, err := net.GetDeviceDetails(*dev)
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
@@ -48,7 +38,8 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 }
 
 func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails, err error) {
-	resp = &DeviceDetails{}
+	// What the device does not tell stays as it is known
+	resp = &DeviceDetails{MaxApdu: device.MaxApdu, Segmentation: uint32(device.Segmentation)}
 	props := []btypes.PropertyType{btypes.PropObjectName, btypes.PropMaxAPDU, btypes.PropVendorName, btypes.PropSegmentationSupported}
 	for _, prop := range props {
 		property, err := net.bacnet.ReadProperty(device, buildObj(device.DeviceID, prop))
@@ -60,14 +51,16 @@ func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails,
 			_, read := data.ToStr(property)
 			resp.Name = read
 		case btypes.PropMaxAPDU:
-			_, read := data.ToUint32(property)
-			resp.MaxApdu = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.MaxApdu = read
+			}
 		case btypes.PropVendorName:
 			_, read := data.ToStr(property)
 			resp.VendorName = read
 		case btypes.PropSegmentationSupported:
-			_, read := data.ToUint32(property)
-			resp.Segmentation = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.Segmentation = read
+			}
 		case btypes.ProtocolServicesSupported:
 			_, read := data.ToBitString(property)
 			resp.ProtocolServicesSupported = read
-- 
2.43.0


From 51114e9222db4783295709bb57a1f3fe7af1cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 42/55] fix: years of a date count from 1900

Clause 20.2.12 encodes a year as year minus 1900; every date a device sent
came out 90 years too late.
---
 encoding/date.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index c981a13..fefe14a 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -2,10 +2,9 @@ package encoding
 
 import "github.com/NubeDev/bacnet/btypes"
 
-// epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
-// limit
-const epochYear = 1990
+// epochYear is an increment to all non-stored values. Clause 20.2.12 of the
+// standard encodes a year as "year minus 1900".
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
-- 
2.43.0


From 665b727a16b93c8c3377107c8438df3bc1e71b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 43/55] fix: opening and closing tags are context specific

---
 encoding/decoder.go | 5 +++++
 encoding/general.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 5e247b8..a0fa8e6 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -123,6 +123,11 @@ func (d *Decoder) value(meta tagMeta) (value uint32) {
 		}
 	} else if meta.isOpening() || meta.isClosing() {
 		return 0
+	} else if meta&tagMask > extendValueBits {
+		if d.err == nil {
+			d.err = fmt.Errorf("opening or closing tag %x is not context specific", uint8(meta))
+		}
+		return 0
 	}
 	return uint32(meta & 0x07)
 }
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..d15ea93 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -42,7 +42,7 @@ func (t *tagMeta) setClosing() {
 }
 
 func (t *tagMeta) isClosing() bool {
-	return ((*t & closingMask) == closingMask)
+	return t.isContextSpecific() && (*t&closingMask) == closingMask
 }
 
 func (t *tagMeta) setOpening() {
@@ -51,7 +51,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return t.isContextSpecific() && (*t&openingMask) == openingMask
 }
 
 func (t *tagMeta) Clear() {
-- 
2.43.0


From fd40fbe528343ef6a80819bc457ea5b680ffd87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 44/55] fix: Who-Is with ArrayAll finds all devices

---
 whois.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index c91bc35..ee05494 100644
--- a/whois.go
+++ b/whois.go
@@ -25,10 +25,10 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	if wh.GlobalBroadcast {
 		wh.NetworkNumber = btypes.GlobalBroadcast //65535
 	}
-	if low <= 0 {
+	if low <= 0 || int64(low) == ArrayAll {
 		low = 0
 	}
-	if high <= 0 {
+	if high <= 0 || high > 4194304 { // ArrayAll is above
 		high = 4194304 //max dev id
 	}
 
-- 
2.43.0


From 80bb9fbc821c9d9f07492e13d497102b4424b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:10 +0000
Subject: [PATCH 45/55] fix: ask for object names in requests that fit the APDU
 size

---
 objectlist.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 5c28962..dca2264 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -78,6 +78,13 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 
 const readPropRequestSize = 20
 
+// Octets of a request for the name and the description of an object, and of
+// the headers in front of it
+const (
+	objectInfoRequestSize = 11
+	maxRequestHeader      = 17
+)
+
 func objectCopy(dest btypes.ObjectMap, src []btypes.Object) {
 	for _, o := range src {
 		if dest[o.ID.Type] == nil {
@@ -190,7 +197,8 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 
 func (c *client) allObjectInformation(dev *btypes.Device) error {
 	objs := dev.ObjectSlice()
-	incrSize := 5
+	// as many as there is room for in a request
+	incrSize := max(1, min(5, (int(dev.MaxApdu)-maxRequestHeader)/objectInfoRequestSize))
 
 	var err error
 	for i := 0; i < len(objs); i += incrSize {
-- 
2.43.0


From 14fa0ac75c9b893b048cb09e2d2b4650508c3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 46/55] fix: refuse a port that is not a UDP port

---
 datalink/udp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index 1501026..6161120 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -61,6 +61,9 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 	if port == 0 {
 		port = DefaultPort
 	}
+	if port < 0 || port > 0xFFFF {
+		return nil, fmt.Errorf("%d is not a UDP port", port)
+	}
 
 	ip, ipNet, err := net.ParseCIDR(ipAddr)
 	if err != nil {
@@ -76,7 +79,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
 	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From edafbe0b0c30b251e72148668cda4c8ed7db7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:30 +0000
Subject: [PATCH 47/55] fix: an id of another kind is not found instead of
 crashing

---
 network/store.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/store.go b/network/store.go
index b4bfed2..58c1199 100644
--- a/network/store.go
+++ b/network/store.go
@@ -51,7 +51,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: uuid:%s is not a network", uuid))
+	}
 	return parse, nil
 }
 
@@ -88,6 +91,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: uuid:%s is not a device", uuid))
+	}
 	return parse, nil
 }
-- 
2.43.0


From a7273f5c4500ad7cf68afcdace3032b7f2e1a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 48/55] fix: a network made by a store belongs to it and can be
 used

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index 58c1199..54c8d96 100644
--- a/network/store.go
+++ b/network/store.go
@@ -34,9 +34,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		bacnet:     bc,
+		Store:      store,
 	}
 	if store.BacStore != nil {
 		store.BacStore.Set(storeID, bacnetNet, -1)
-- 
2.43.0


From c500f2dada2951ebc10c9f9a29bbfc9828043858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:54 +0000
Subject: [PATCH 49/55] fix: closing a client with its log closes the client,
 too

---
 device.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 9aabe2c..88ff87a 100644
--- a/device.go
+++ b/device.go
@@ -286,12 +286,15 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 }
 
 func (c *client) ClientClose(closeLogs bool) error {
+	err := c.Close()
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
-			return f.Close()
+			if logErr := f.Close(); err == nil {
+				err = logErr
+			}
 		}
 	}
-	return c.Close()
+	return err
 }
 
 // Close free resources for the client. Always call this function when using NewClient
-- 
2.43.0


From f0b225ab16649c4e0881fed5ee209a1feeab261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 50/55] fix: tell odd, even and last days of a month apart

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index fefe14a..5bd37bf 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -22,11 +22,11 @@ func IsLastDayOfMonth(day int) bool {
 }
 
 func IsEvenDayOfMonth(day int) bool {
-	return day == 33
+	return day == 34
 }
 
 func IsOddDayOfMonth(day int) bool {
-	return day == 32
+	return day == 33
 }
 
 func (e *Encoder) date(dt btypes.Date) {
-- 
2.43.0


From 1ff934a87ca8be601291dcbf389ec300c01a8a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 51/55] fix: refuse to send packets whose length the frame
 cannot announce

---
 device.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/device.go b/device.go
index 88ff87a..e025d09 100644
--- a/device.go
+++ b/device.go
@@ -11,6 +11,7 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"sync"
 	"time"
 )
@@ -274,6 +275,10 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 		}
 	}
 
+	// Announcing the length modulo 65536 would cut the packet
+	if mtuHeaderLength+len(data) > math.MaxUint16 {
+		return 0, fmt.Errorf("packet of %d octets is too large", len(data))
+	}
 	header.Length = uint16(mtuHeaderLength + len(data))
 	header.Data = data
 	e := encoding.NewEncoder()
-- 
2.43.0


From ff2e75b33d779c2ecb2fddb2dd62ae00e0942d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 52/55] fix: ask for no more of the object list at once than
 can be received

---
 objectlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index dca2264..f85d24b 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -104,7 +104,11 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
+	// Larger answers than our own limit cannot be received
 	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	if dev.MaxApdu > btypes.MaxAPDU {
+		scanSize = btypes.MaxAPDU / readPropRequestSize
+	}
 	if scanSize == 0 {
 		return fmt.Errorf("max APDU %d is too small", dev.MaxApdu)
 	}
-- 
2.43.0


From e2a9fb18bcb930fcfe0eaaf2a81c6d57cd78e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:00 +0000
Subject: [PATCH 53/55] fix: units above 65535 were named after their low 16
 bits

---
 btypes/units/units.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btypes/units/units.go b/btypes/units/units.go
index 26cd6ff..63dc750 100644
--- a/btypes/units/units.go
+++ b/btypes/units/units.go
@@ -1,6 +1,6 @@
 package units
 
-type Unit uint16
+type Unit uint32
 
 //go:generate stringer -type=Unit
 const (
-- 
2.43.0


From c49adb06742693cb041b6da4f6782fa7b099db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:01 +0000
Subject: [PATCH 54/55] fix: impossible ports, network numbers, MS/TP addresses
 and device ids of a device were replaced by others

---
 btypes/device.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index 054ab7c..3763ec6 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -77,6 +77,18 @@ func NewDevice(device *Device) (*Device, error) {
 		fmt.Println("fail port")
 	}
 
+	if port < 0 || port > 65535 {
+		return nil, fmt.Errorf("invalid port: %d", port)
+	}
+	if device.NetworkNumber < 0 || device.NetworkNumber > 65535 {
+		return nil, fmt.Errorf("invalid network number: %d", device.NetworkNumber)
+	}
+	if device.MacMSTP < 0 || device.MacMSTP > 255 {
+		return nil, fmt.Errorf("invalid MS/TP mac: %d", device.MacMSTP)
+	}
+	if device.ID.Instance == 0 && (device.DeviceID < 0 || device.DeviceID > MaxInstance) {
+		return nil, fmt.Errorf("invalid device id: %d", device.DeviceID)
+	}
 	ip, err := ip2bytes.New(device.Ip, uint16(port))
 	if err != nil {
 		fmt.Println("fail ip2bytes")
-- 
2.43.0


From ca406df4544d1b1f365d0133b6a7b578452e995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:20 +0000
Subject: [PATCH 55/55] fix: a Who-Is leaves the caller's options as they are

---
 whois.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index ee05494..a4ef04c 100644
--- a/whois.go
+++ b/whois.go
@@ -22,8 +22,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	enc := encoding.NewEncoder()
 	low := wh.Low
 	high := wh.High
+	networkNumber := wh.NetworkNumber
 	if wh.GlobalBroadcast {
-		wh.NetworkNumber = btypes.GlobalBroadcast //65535
+		networkNumber = btypes.GlobalBroadcast //65535
 	}
 	if low <= 0 || int64(low) == ArrayAll {
 		low = 0
@@ -32,7 +33,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		high = 4194304 //max dev id
 	}
 
-	dest.Net = wh.NetworkNumber
+	dest.Net = networkNumber
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dest,
-- 
2.43.0

