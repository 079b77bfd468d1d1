// Package c06: every standard encoding of an application value decodes to that value.
package c06

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// header is an application tag with one of the length forms a sender may use.
func header(tag byte, n int) []byte {
	switch sym.Choose("length form", 4) {
	case 0:
		return ref.Tag(tag, false, uint32(n))
	case 1: // extended although not needed
		sym.Assume(n < 254)
		return []byte{tag<<4 | 5, byte(n)}
	case 2:
		return []byte{tag<<4 | 5, 254, byte(n >> 8), byte(n)}
	}
	return []byte{tag<<4 | 5, 255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// decode reads one element that two more octets follow.
func decode(tag byte, content []byte) interface{} {
	return decodeRaw(ref.Cat(header(tag, len(content)), content))
}

func decodeRaw(b []byte) interface{} {
	next := sym.Bytes("next", 2)
	d := encoding.NewDecoder(ref.Cat(b, next))
	v, err := d.AppData()
	sym.Assert(err == nil && d.Error() == nil, "a standard encoding is accepted")
	sym.Assert(len(d.Bytes()) == 2 && ref.Same(d.Bytes(), next), "exactly the element is consumed")
	sym.Observe("value", v)
	return v
}

func Null() {
	_, ok := decodeRaw([]byte{0}).(null.Null)
	sym.Assert(ok, "null")
	sym.Reach("end")
}

func Boolean() {
	x := sym.Bool("x")
	v, ok := decodeRaw(ref.AppBool(x)).(bool)
	sym.Assert(ok && v == x, "boolean")
	sym.Reach("end")
}

func big(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

// Unsigned of 1 to 4 octets, leading zeros included.
func Unsigned() {
	b := sym.Bytes("b", 1+sym.Choose("n", 4))
	v, ok := decode(ref.Unsigned, b).(uint32)
	sym.Assert(ok && v == big(b), "unsigned")
	sym.Reach("end")
}

func Enumerated() {
	b := sym.Bytes("b", 1+sym.Choose("n", 4))
	v, ok := decode(ref.Enumerated, b).(uint32)
	sym.Assert(ok && v == big(b), "enumerated")
	sym.Reach("end")
}

// Signed of 1 to 4 octets, two's complement.
func Signed() {
	n := 1 + sym.Choose("n", 4)
	b := sym.Bytes("b", n)
	v, ok := decode(ref.Signed, b).(int32)
	sh := uint(32 - 8*n)
	sym.Assert(ok && v == int32(big(b)<<sh)>>sh, "signed")
	sym.Reach("end")
}

func Real() {
	b := sym.Bytes("b", 4)
	v, ok := decode(ref.Real, b).(float32)
	sym.Assert(ok && math.Float32bits(v) == big(b), "real")
	sym.Reach("end")
}

func Double() {
	b := sym.Bytes("b", 8)
	v, ok := decode(ref.Double, b).(float64)
	sym.Assert(ok && math.Float64bits(v) == uint64(big(b[:4]))<<32|uint64(big(b[4:])), "double")
	sym.Reach("end")
}

func OctetString() {
	b := sym.Bytes("b", sym.Choose("n", sym.Bound("octet string length", 12, 24)+1))
	v, ok := decode(ref.Octets, b).([]byte)
	sym.Assert(ok && ref.Same(v, b), "octet string")
	sym.Reach("end")
}

// LongOctetString: lengths that need the extended forms, with variable contents at both ends.
func LongOctetString() {
	lens := []int{253, 254, 255, 256, 300, 1400, 65535, 65536, 66000}
	n := lens[sym.Choose("n", sym.Bound("long octet strings", 6, len(lens)))]
	b := make([]byte, n)
	for i, v := range sym.Bytes("ends", 8) {
		if i < 4 {
			b[i] = v
		} else {
			b[n-8+i] = v
		}
	}
	v, ok := decode(ref.Octets, b).([]byte)
	sym.Assert(ok && ref.Same(v, b), "octet string")
	sym.Reach("end")
}

func CharacterString() {
	b := sym.Bytes("b", sym.Choose("n", sym.Bound("character string length", 12, 24)+1))
	v, ok := decode(ref.Chars, ref.Cat([]byte{0}, b)).(string)
	sym.Assert(ok && ref.Same([]byte(v), b), "character string")
	sym.Reach("end")
}

func LongCharacterString() {
	lens := []int{252, 253, 254, 255, 256, 1400, 65534, 65535, 66000}
	n := lens[sym.Choose("n", sym.Bound("long character strings", 6, len(lens)))]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	for i, v := range sym.Bytes("ends", 8) {
		if i < 4 {
			b[i] = v
		} else {
			b[n-8+i] = v
		}
	}
	v, ok := decode(ref.Chars, ref.Cat([]byte{0}, b)).(string)
	sym.Assert(ok && ref.Same([]byte(v), b), "character string")
	sym.Reach("end")
}

func utf8of(r uint16) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{0xC0 | byte(r>>6), 0x80 | byte(r&0x3F)}
	}
	return []byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)}
}

// UCS2: characters of the basic plane, big-endian.
func UCS2() {
	n := sym.Choose("n", sym.Bound("UCS-2 characters", 2, 3)+1)
	var raw, want []byte
	for i := 0; i < n; i++ {
		r := sym.U16("r")
		sym.Assume(r < 0xD800 || r >= 0xE000)
		raw = append(raw, byte(r>>8), byte(r))
		want = append(want, utf8of(r)...)
	}
	v, ok := decodeRaw(ref.Cat(ref.Tag(ref.Chars, false, uint32(len(raw)+1)), []byte{4}, raw)).(string)
	sym.Assert(ok && ref.Same([]byte(v), want), "UCS-2 string")
	sym.Reach("end")
}

// UCS2 text as devices send it: letters of one block.
func UCS2Latin() {
	n := sym.Bound("UCS-2 text length", 8, 20)
	var raw, want []byte
	for i := 0; i < n; i++ {
		c := sym.Byte("c")
		sym.Assume(c < 0x80)
		raw = append(raw, 0, c)
		want = append(want, c)
	}
	v, ok := decodeRaw(ref.Cat(ref.Tag(ref.Chars, false, uint32(len(raw)+1)), []byte{4}, raw)).(string)
	sym.Assert(ok && ref.Same([]byte(v), want), "UCS-2 text")
	sym.Reach("end")
}

// BitString: 0 to 15 octets, any number of unused bits.
func BitString() {
	n := sym.Choose("n", 16)
	unused := sym.Choose("unused", 8)
	sym.Assume(n > 0 || unused == 0)
	b := sym.Bytes("b", n)
	v, ok := decodeRaw(ref.App(ref.Bits, ref.Cat([]byte{byte(unused)}, b))).(*btypes.BitString)
	sym.Assert(ok && v != nil, "bit string")
	bits := n*8 - unused
	sym.Assert(int(v.BitUsed) == bits && int(v.GetBitUsed()) == bits, "number of bits")
	for i := 0; i < bits; i++ {
		sym.Assert(v.Bit(uint8(i)) == (b[i/8]>>(7-uint(i%8))&1 == 1), "every bit as sent")
	}
	sym.Reach("end")
}

// BitStringList: the list of all bits; one octet varies, at the beginning, in the middle or at the end.
func BitStringList() {
	n := []int{1, 2, 15}[sym.Choose("n", 3)]
	unused := sym.Choose("unused", 8)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x35 + 7*i)
	}
	b[[]int{0, n / 2, n - 1}[sym.Choose("octet", 3)]] = sym.Byte("b")
	v, ok := decode(ref.Bits, ref.Cat([]byte{byte(unused)}, b)).(*btypes.BitString)
	sym.Assert(ok && v != nil, "bit string")
	bits := n*8 - unused
	vals := v.GetValue()
	sym.Assert(len(vals) == bits, "length of the list")
	for i := 0; i < bits; i++ {
		sym.Assert(vals[i] == (b[i/8]>>(7-uint(i%8))&1 == 1), "every bit as sent")
	}
	sym.Reach("end")
}

func Date() {
	b := sym.Bytes("b", 4)
	v, ok := decode(ref.Date, b).(btypes.Date)
	sym.Assert(ok, "date")
	if b[0] == 255 {
		sym.Assert(v.Year == btypes.UnspecifiedTime, "unspecified year")
	} else {
		sym.Assert(v.Year == int(b[0])+1900, "year")
	}
	sym.Assert(v.Month == int(b[1]) && v.Day == int(b[2]) && int(v.DayOfWeek) == int(b[3]), "month, day and day of the week")
	sym.Reach("end")
}

func Time() {
	b := sym.Bytes("b", 4)
	v, ok := decode(ref.Time, b).(btypes.Time)
	sym.Assert(ok, "time")
	sym.Assert(v.Hour == int(b[0]) && v.Minute == int(b[1]) && v.Second == int(b[2]) && v.Millisecond == int(b[3])*10, "time of day")
	sym.Reach("end")
}

func ObjectID() {
	b := sym.Bytes("b", 4)
	v, ok := decode(ref.ObjectID, b).(btypes.ObjectID)
	x := big(b)
	sym.Assert(ok && uint32(v.Type) == x>>22 && uint32(v.Instance) == x&0x3FFFFF, "object identifier")
	sym.Reach("end")
}

// Special: the months and days that stand for several (clause 20.2.12).
func Special() {
	v := int(sym.Byte("value"))
	sym.Assert(encoding.IsOddMonth(v) == (v == 13), "13: the odd months")
	sym.Assert(encoding.IsEvenMonth(v) == (v == 14), "14: the even months")
	sym.Assert(encoding.IsLastDayOfMonth(v) == (v == 32), "32: the last day of a month")
	sym.Assert(encoding.IsOddDayOfMonth(v) == (v == 33), "33: the odd days of a month")
	sym.Assert(encoding.IsEvenDayOfMonth(v) == (v == 34), "34: the even days of a month")
	sym.Reach("end")
}

// Again: what an element is decoded to does not depend on those before it.
func Again() {
	switch sym.Choose("kind", 7) {
	case 0:
		Unsigned()
		Unsigned()
	case 1:
		CharacterString()
		CharacterString()
	case 2:
		Date()
		Date()
	case 3:
		Time()
		Time()
	case 4:
		ObjectID()
		Real()
		ObjectID()
	case 5:
		BitString()
		Double()
	case 6:
		OctetString()
		Signed()
	}
	sym.Reach("again")
}
