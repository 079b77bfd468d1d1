// Package c04: application values survive an encode/decode round trip.
package c04

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// roundTrip encodes v, appends what follows it in a message and decodes it again.
func roundTrip(v interface{}) interface{} {
	e := encoding.NewEncoder()
	err := e.AppData(v, false)
	sym.Assert(err == nil && e.Error() == nil, "encoding a supported value succeeds")
	b := e.Bytes()
	next := sym.Bytes("next", 2)
	d := encoding.NewDecoder(append(append([]byte(nil), b...), next...))
	got, err := d.AppData()
	sym.Assert(err == nil && d.Error() == nil, "decoding the encoded value succeeds")
	rest := d.Bytes()
	sym.Assert(len(rest) == 2, "exactly the encoded bytes are consumed")
	sym.Assert(rest[0] == next[0] && rest[1] == next[1], "what follows is left alone")
	sym.Observe("bytes", b)
	return got
}

func Null() {
	_, ok := roundTrip(null.Null{}).(null.Null)
	sym.Assert(ok, "null stays null")
	sym.Reach("end")
}

func Boolean() {
	x := sym.Bool("x")
	g, ok := roundTrip(x).(bool)
	sym.Assert(ok && g == x, "boolean unchanged")
	sym.Reach("end")
}

func Unsigned() {
	x := sym.U32("x")
	g, ok := roundTrip(x).(uint32)
	sym.Assert(ok && g == x, "unsigned value unchanged")
	sym.Reach("end")
}

func Signed() {
	x := sym.I32("x")
	g, ok := roundTrip(x).(int32)
	sym.Assert(ok && g == x, "signed value unchanged")
	sym.Reach("end")
}

func Enumerated() {
	x := sym.U32("x")
	g, ok := roundTrip(btypes.Enumerated(x)).(uint32)
	sym.Assert(ok && g == x, "enumerated value unchanged")
	sym.Reach("end")
}

// BinaryPresentValue: the variant used for the present value of binary outputs and values.
func BinaryPresentValue() {
	x := sym.U32("x")
	e := encoding.NewEncoder()
	sym.Assert(e.AppData(x, true) == nil && e.Error() == nil, "encoding succeeds")
	b := e.Bytes()
	d := encoding.NewDecoder(b)
	got, err := d.AppData()
	sym.Assert(err == nil && d.Error() == nil && len(d.Bytes()) == 0, "decoding succeeds")
	g, ok := got.(uint32)
	sym.Assert(ok && g == x, "value unchanged")
	sym.Reach("end")
}

func Real() {
	x := sym.F32("x")
	g, ok := roundTrip(x).(float32)
	sym.Assert(ok, "a real")
	sym.Assert(math.Float32bits(g) == math.Float32bits(x), "real value unchanged")
	sym.Reach("end")
}

func Double() {
	x := sym.F64("x")
	g, ok := roundTrip(x).(float64)
	sym.Assert(ok, "a double")
	sym.Assert(math.Float64bits(g) == math.Float64bits(x), "double value unchanged")
	sym.Reach("end")
}

func ObjectID() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF)
	x := btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}
	g, ok := roundTrip(x).(btypes.ObjectID)
	sym.Assert(ok && g == x, "object identifier unchanged")
	sym.Reach("end")
}

func sameString(v interface{}, s string) {
	g, ok := v.(string)
	sym.Assert(ok && len(g) == len(s), "a string of the same length")
	var d byte
	for i := 0; i < len(s); i++ {
		d |= g[i] ^ s[i]
	}
	sym.Assert(d == 0, "string unchanged")
}

// ShortString: every content of every short length.
func ShortString() {
	n := sym.Choose("n", sym.Bound("string length", 12, 24)+1)
	s := sym.Str("s", n)
	sameString(roundTrip(s), s)
	sym.Reach("end")
}

// LongString: the lengths around which the form of the length field changes.
func LongString() {
	lens := []int{251, 252, 253, 254, 255, 256, 511, 1400, 65533, 65534, 65535, 65536}
	n := lens[sym.Choose("n", len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	for i, v := range sym.Bytes("head", 4) {
		b[i] = v
	}
	for i, v := range sym.Bytes("tail", 4) {
		b[n-1-i] = v
	}
	s := string(b)
	sameString(roundTrip(s), s)
	sym.Reach("end")
}

// Sequence: values encoded one after another come back one after another.
func Sequence() {
	x, y, z := sym.U32("x"), sym.I32("y"), sym.F32("z")
	s := sym.Str("s", 3)
	e := encoding.NewEncoder()
	for _, v := range []interface{}{x, s, y, z} {
		sym.Assert(e.AppData(v, false) == nil, "encoding succeeds")
	}
	d := encoding.NewDecoder(e.Bytes())
	a, _ := d.AppData()
	b, _ := d.AppData()
	c, _ := d.AppData()
	r, _ := d.AppData()
	sym.Assert(d.Error() == nil && len(d.Bytes()) == 0, "decoding succeeds")
	g, ok := a.(uint32)
	sym.Assert(ok && g == x, "first value")
	sameString(b, s)
	i, ok := c.(int32)
	sym.Assert(ok && i == y, "third value")
	f, ok := r.(float32)
	sym.Assert(ok && math.Float32bits(f) == math.Float32bits(z), "fourth value")
	sym.Reach("end")
}

// Again: a value does not depend on those before it, in encoders and decoders of their own.
func Again() {
	Unsigned()
	Real()
	ObjectID()
	Unsigned()
	text := func() {
		s := sym.Str("text", 3)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		e := encoding.NewEncoder()
		e.AppData(s, false)
		d := encoding.NewDecoder(e.Bytes())
		got, err := d.AppData()
		x, ok := got.(string)
		sym.Assert(err == nil && ok && x == s, "the text")
	}
	text()
	text()
	sym.Reach("again")
}
