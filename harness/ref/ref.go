// Package ref encodes BACnet data as ASHRAE 135 clauses 6, 20 and Annex J prescribe, written from
// the standard and independent of the encoder under test.
package ref

import "math"

// Application tag numbers of clause 20.2.1.4.
const (
	Null = iota
	Boolean
	Unsigned
	Signed
	Real
	Double
	Octets
	Chars
	Bits
	Enumerated
	Date
	Time
	ObjectID
)

// Cat concatenates.
func Cat(p ...[]byte) []byte {
	var out []byte
	for _, b := range p {
		out = append(out, b...)
	}
	return out
}

// Tag is the initial octets of a primitive tag: number, class and length/value/type.
func Tag(num byte, context bool, n uint32) []byte {
	var cls byte
	if context {
		cls = 8
	}
	var b []byte
	if num < 15 {
		b = []byte{num<<4 | cls}
	} else {
		b = []byte{0xF0 | cls, num}
	}
	if n < 5 {
		b[0] |= byte(n)
		return b
	}
	b[0] |= 5
	switch {
	case n < 254:
		return append(b, byte(n))
	case n <= 0xFFFF:
		return append(b, 254, byte(n>>8), byte(n))
	}
	return append(b, 255, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

// Uint is the shortest big-endian content octets of an unsigned integer.
func Uint(v uint32) []byte {
	switch {
	case v>>8 == 0:
		return []byte{byte(v)}
	case v>>16 == 0:
		return []byte{byte(v >> 8), byte(v)}
	case v>>24 == 0:
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// Int is the shortest two's complement content octets of a signed integer.
func Int(v int32) []byte {
	u := uint32(v)
	switch {
	case v == int32(int8(v)):
		return []byte{byte(u)}
	case v == int32(int16(v)):
		return []byte{byte(u >> 8), byte(u)}
	case v == v<<8>>8:
		return []byte{byte(u >> 16), byte(u >> 8), byte(u)}
	}
	return []byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

// U16, U32 and U64 are big-endian.
func U16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func U32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func U64(v uint64) []byte { return Cat(U32(uint32(v>>32)), U32(uint32(v))) }

// ID is the content of an object identifier: 10 bits of type, 22 bits of instance.
func ID(typ uint16, inst uint32) []byte {
	return U32(uint32(typ)<<22 | inst&0x3FFFFF)
}

func prim(tag byte, ctx bool, c []byte) []byte {
	return Cat(Tag(tag, ctx, uint32(len(c))), c)
}

// App is an application tagged value with the given contents.
func App(tag byte, content []byte) []byte { return prim(tag, false, content) }

// Ctx is a context tagged primitive with the given contents.
func Ctx(tag byte, content []byte) []byte { return prim(tag, true, content) }

// Open and Close are the tags around constructed data.
func Open(tag byte) []byte {
	if tag < 15 {
		return []byte{tag<<4 | 0x0E}
	}
	return []byte{0xFE, tag}
}
func Close(tag byte) []byte {
	if tag < 15 {
		return []byte{tag<<4 | 0x0F}
	}
	return []byte{0xFF, tag}
}

// Application values.
func AppNull() []byte { return []byte{0} }
func AppBool(v bool) []byte {
	if v {
		return []byte{0x11}
	}
	return []byte{0x10}
}
func AppUint(v uint32) []byte    { return App(Unsigned, Uint(v)) }
func AppInt(v int32) []byte      { return App(Signed, Int(v)) }
func AppEnum(v uint32) []byte    { return App(Enumerated, Uint(v)) }
func AppReal(v float32) []byte   { return App(Real, U32(math.Float32bits(v))) }
func AppDouble(v float64) []byte { return App(Double, U64(math.Float64bits(v))) }
func AppString(s string) []byte {
	return App(Chars, append([]byte{0}, s...))
}
func AppID(typ uint16, inst uint32) []byte { return App(ObjectID, ID(typ, inst)) }

// Confirmed is the header of an unsegmented confirmed request as this client sends it: no
// segmentation, max-segments unspecified (0), the given max-APDU code.
func Confirmed(maxSegsApdu, invoke, service byte) []byte {
	return []byte{0x00, maxSegsApdu, invoke, service}
}

// ComplexAck is the header of an unsegmented complex acknowledgement.
func ComplexAck(invoke, service byte) []byte { return []byte{0x30, invoke, service} }

// SimpleAck is a simple acknowledgement.
func SimpleAck(invoke, service byte) []byte { return []byte{0x20, invoke, service} }

// Error is an Error PDU in its plain form.
func Error(invoke, service byte, class, code uint32) []byte {
	return Cat([]byte{0x50, invoke, service}, AppEnum(class), AppEnum(code))
}

// Frame puts a BVLC header in front.
func Frame(function byte, payload []byte) []byte {
	return Cat([]byte{0x81, function}, U16(uint16(4+len(payload))), payload)
}

// Same compares two byte strings.
func Same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}
