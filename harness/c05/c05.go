// Package c05: application values are encoded exactly as the standard prescribes.
package c05

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// check encodes v and compares with the standard's octets.
func check(v interface{}, binary bool, want []byte) {
	e := encoding.NewEncoder()
	err := e.AppData(v, binary)
	sym.Assert(err == nil && e.Error() == nil, "a supported value is encoded")
	got := e.Bytes()
	sym.Observe("bytes", got)
	sym.Assert(len(got) == len(want), "the number of octets is the standard's")
	sym.Assert(ref.Same(got, want), "the octets are the standard's")
	sym.Reach("end")
}

func Null()    { check(null.Null{}, false, []byte{0}) }
func Boolean() { x := sym.Bool("x"); check(x, false, ref.AppBool(x)) }
func Unsigned() {
	x := sym.U32("x")
	check(x, false, ref.AppUint(x))
}
func Signed() {
	x := sym.I32("x")
	check(x, false, ref.AppInt(x))
}
func Enumerated() {
	x := sym.U32("x")
	check(btypes.Enumerated(x), false, ref.AppEnum(x))
}

// BinaryPresentValue: binary outputs and values take an enumerated value or null.
func BinaryPresentValue() {
	x := sym.U32("x")
	check(x, true, ref.AppEnum(x))
}
func BinaryNull() { check(null.Null{}, true, []byte{0}) }
func Real()       { x := sym.F32("x"); check(x, false, ref.AppReal(x)) }
func Double()     { x := sym.F64("x"); check(x, false, ref.AppDouble(x)) }
func ObjectID() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF)
	check(btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}, false, ref.AppID(typ, inst))
}

// ObjectIDOutOfRange: an identifier that 10+22 bits cannot hold is not encoded as another one.
func ObjectIDOutOfRange() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ > 1023 || inst > 0x3FFFFF)
	e := encoding.NewEncoder()
	e.AppData(btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}, false)
	sym.Assert(e.Error() != nil, "an object identifier out of range is refused")
	sym.Reach("end")
}

func ShortString() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("string length", 12, 24)+1))
	check(s, false, ref.AppString(s))
}

// LongString: the lengths at which the length field changes its form.
func LongString() {
	lens := []int{251, 252, 253, 254, 255, 256, 257, 1400, 65533, 65534, 65535, 65536}
	n := lens[sym.Choose("n", len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	for i, v := range sym.Bytes("head", 4) {
		b[i] = v
	}
	for i, v := range sym.Bytes("tail", 4) {
		b[n-1-i] = v
	}
	check(string(b), false, ref.AppString(string(b)))
}

type other struct{ X int }

// Unsupported types are refused, and the encoder is in error afterwards.
func Unsupported() {
	vals := []interface{}{nil, int(3), int64(3), uint8(3), uint16(3), uint64(3), []byte{1, 2}, []interface{}{uint32(1)},
		btypes.Date{}, btypes.Time{}, &btypes.BitString{}, other{1}, &other{2}, map[string]int{"a": 1}, btypes.PropertyType(3), btypes.ObjectType(3)}
	v := vals[sym.Choose("v", len(vals))]
	e := encoding.NewEncoder()
	err := e.AppData(v, sym.Bool("binary"))
	sym.Assert(err != nil && e.Error() != nil, "a value that cannot be encoded is refused")
	sym.Assert(len(e.Bytes()) == 0, "nothing is encoded for it")
	e.AppData(uint32(1), false)
	sym.Assert(e.Error() != nil && len(e.Bytes()) == 0, "the encoder stays in error")
	sym.Reach("end")
}

// BinaryUnsupported: a present value of a binary output that is not a number is refused.
func BinaryUnsupported() {
	vals := []interface{}{nil, sym.Bool("b"), sym.F32("f"), sym.F64("d"), "on", int(1), sym.I32("i"), btypes.ObjectID{}}
	e := encoding.NewEncoder()
	err := e.AppData(vals[sym.Choose("v", len(vals))], true)
	sym.Assert(err != nil && e.Error() != nil && len(e.Bytes()) == 0, "refused")
	sym.Reach("end")
}

// After an error nothing more is written.
func Sequence() {
	x := sym.U32("x")
	e := encoding.NewEncoder()
	e.AppData(x, false)
	n := len(e.Bytes())
	e.AppData(other{}, false)
	e.AppData("text", false)
	sym.Assert(e.Error() != nil && len(e.Bytes()) == n, "an encoder in error writes nothing")
	sym.Reach("end")
}

// Again: the octets of a value do not depend on those before it, in encoders of their own.
func Again() {
	Unsigned()
	Real()
	ObjectID()
	Unsigned()
	BinaryPresentValue()
	sym.Reach("again")
}

// Kept: two encoders that are used in turns do not touch each other's octets.
func Kept() {
	x, y, z := sym.U32("x"), sym.U32("y"), sym.F32("z")
	e := encoding.NewEncoder()
	e.AppData(x, false)
	before := e.Bytes()
	f := encoding.NewEncoder()
	f.AppData(y, false)
	if sym.Choose("longer", 2) == 1 {
		e.AppData(z, false)
		sym.Assert(ref.Same(e.Bytes(), ref.Cat(ref.AppUint(x), ref.AppReal(z))), "the octets of the first")
	}
	f.AppData(z, false)
	g := encoding.NewEncoder()
	sym.Assert(len(g.Bytes()) == 0, "a new encoder is empty")
	sym.Assert(ref.Same(before, ref.AppUint(x)), "the octets handed out before")
	sym.Assert(ref.Same(f.Bytes(), ref.Cat(ref.AppUint(y), ref.AppReal(z))), "the octets of the second")
	sym.Reach("end")
}
