// Package val makes application values with their standard encoding and the value a decoder has
// to deliver for it.
package val

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const (
	Null = iota
	Bool
	Uint
	Int
	Real
	Double
	String
	Enum
	ObjectID // the kinds above can also be encoded by the library
	Octets
	Bits
	Date
	Time
	Kinds
	Sendable = ObjectID + 1
)

// V is one value.
type V struct {
	Kind int
	Go   interface{} // what a caller hands to the encoder
	Wire []byte      // the standard encoding
	got  func(interface{}) bool
}

// Got tells whether a decoded value is this one.
func (v V) Got(x interface{}) bool { return v.got(x) }

// Small is one kind of every width class, for lists.
var Small = []int{Uint, Real, String}

// Any is a variable value of one of the kinds below n.
func Any(name string, n int) V { return Of(name, sym.Choose(name+" kind", n)) }

// Among is a variable value of one of the kinds.
func Among(name string, kinds []int) V {
	return Of(name, kinds[sym.Choose(name+" kind", len(kinds))])
}

// Of is a variable value of that kind.
func Of(name string, kind int) V {
	v := V{Kind: kind}
	switch kind {
	case Null:
		v.Go, v.Wire = null.Null{}, ref.AppNull()
		v.got = func(x interface{}) bool { _, ok := x.(null.Null); return ok }
	case Bool:
		b := sym.Bool(name)
		v.Go, v.Wire = b, ref.AppBool(b)
		v.got = func(x interface{}) bool { y, ok := x.(bool); return ok && y == b }
	case Uint:
		u := sym.U32(name)
		v.Go, v.Wire = u, ref.AppUint(u)
		v.got = func(x interface{}) bool { y, ok := x.(uint32); return ok && y == u }
	case Int:
		i := sym.I32(name)
		v.Go, v.Wire = i, ref.AppInt(i)
		v.got = func(x interface{}) bool { y, ok := x.(int32); return ok && y == i }
	case Real:
		f := sym.F32(name)
		v.Go, v.Wire = f, ref.AppReal(f)
		v.got = func(x interface{}) bool {
			y, ok := x.(float32)
			return ok && math.Float32bits(y) == math.Float32bits(f)
		}
	case Double:
		f := sym.F64(name)
		v.Go, v.Wire = f, ref.AppDouble(f)
		v.got = func(x interface{}) bool {
			y, ok := x.(float64)
			return ok && math.Float64bits(y) == math.Float64bits(f)
		}
	case String:
		s := sym.Str(name, 2)
		v.Go, v.Wire = s, ref.AppString(s)
		v.got = func(x interface{}) bool { y, ok := x.(string); return ok && ref.Same([]byte(y), []byte(s)) }
	case Enum:
		u := sym.U32(name)
		v.Go, v.Wire = btypes.Enumerated(u), ref.AppEnum(u)
		v.got = func(x interface{}) bool { y, ok := x.(uint32); return ok && y == u }
	case ObjectID:
		t, i := sym.U16(name+" type"), sym.U32(name+" instance")
		sym.Assume(t <= 1023 && i <= 0x3FFFFF)
		v.Go = btypes.ObjectID{Type: btypes.ObjectType(t), Instance: btypes.ObjectInstance(i)}
		v.Wire = ref.AppID(t, i)
		v.got = func(x interface{}) bool {
			y, ok := x.(btypes.ObjectID)
			return ok && uint16(y.Type) == t && uint32(y.Instance) == i
		}
	case Octets:
		b := sym.Bytes(name, 3)
		v.Wire = ref.App(ref.Octets, b)
		v.got = func(x interface{}) bool { y, ok := x.([]byte); return ok && ref.Same(y, b) }
	case Bits:
		b := sym.Byte(name)
		v.Wire = ref.App(ref.Bits, []byte{3, b})
		v.got = func(x interface{}) bool {
			y, ok := x.(*btypes.BitString)
			if !ok || y == nil || y.BitUsed != 5 {
				return false
			}
			var d byte
			for i := uint8(0); i < 5; i++ {
				d = d<<1 | b2i(y.Bit(i))
			}
			return d == b>>3
		}
	case Date:
		y, m, dd := sym.Byte(name+" year"), sym.Byte(name+" month"), sym.Byte(name+" day")
		sym.Assume(y < 255 && m >= 1 && m <= 12 && dd >= 1 && dd <= 31)
		w := sym.Byte(name + " weekday")
		sym.Assume(w >= 1 && w <= 7)
		v.Wire = ref.App(ref.Date, []byte{y, m, dd, w})
		v.got = func(x interface{}) bool { t, ok := x.(btypes.Date); return ok && IsDate(t, y, m, dd, w) }
	case Time:
		b := sym.Bytes(name, 4)
		v.Wire = ref.App(ref.Time, b)
		v.got = func(x interface{}) bool { t, ok := x.(btypes.Time); return ok && IsTime(t, b) }
	}
	return v
}

// IsDate compares a decoded date with its octets (all of them specified).
func IsDate(t btypes.Date, y, m, d, w byte) bool {
	x := t.Year ^ (1900 + int(y)) | t.Month ^ int(m) | t.Day ^ int(d) | int(t.DayOfWeek) ^ int(w)
	return x == 0 && !t.EvenMonth && !t.OddMonth && !t.EvenDay && !t.OddDay && !t.LastDayOfMonth
}

// IsTime compares a decoded time with its octets.
func IsTime(t btypes.Time, b []byte) bool {
	return t.Hour^int(b[0])|t.Minute^int(b[1])|t.Second^int(b[2]) == 0 && t.Millisecond == int(b[3])*10
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// Data compares decoded data with the values: one as itself, several as a list.
func Data(got interface{}, want []V, msg string) {
	if len(want) == 1 {
		sym.Assert(want[0].Got(got), msg)
		return
	}
	l, ok := got.([]interface{})
	sym.Assert(ok && len(l) == len(want), msg+": a list of all values")
	for i := range want {
		sym.Assert(want[i].Got(l[i]), msg)
	}
}

// Wire concatenates the encodings.
func Wire(vs []V) (b []byte) {
	for _, v := range vs {
		b = append(b, v.Wire...)
	}
	return
}

// SameF32: the same real, bit for bit.
func SameF32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
