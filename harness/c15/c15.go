// Package c15: WriteProperty requests carry exactly the target, value and priority given.
package c15

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

func request(typ uint16, inst, prop, index uint32, prio byte, v interface{}) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{
		ID:         btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)},
		Properties: []btypes.Property{{Type: btypes.PropertyType(prop), ArrayIndex: index, Data: v, Priority: btypes.NPDUPriority(prio)}},
	}}
}

func binary(typ uint16, prop uint32) bool { return (typ == 4 || typ == 5) && prop == 85 }

// Request: every expressible target and value.
func Request() {
	invoke, typ, inst := sym.Byte("invoke"), sym.U16("type"), sym.U32("instance")
	prop, index, prio := sym.U32("property"), sym.U32("index"), sym.Byte("priority")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF && prop <= 0x3FFFFF && prio <= 16)
	sym.Assume(!binary(typ, prop))
	check(invoke, typ, inst, prop, index, prio, val.Any("v", val.Sendable))
}

func check(invoke byte, typ uint16, inst, prop, index uint32, prio byte, v val.V) {
	e := encoding.NewEncoder()
	err := e.WriteProperty(invoke, request(typ, inst, prop, index, prio, v.Go))
	sym.Assert(err == nil && e.Error() == nil, "an expressible request is encoded")
	want := ref.Cat(ref.Confirmed(5, invoke, 15), ref.Ctx(0, ref.ID(typ, inst)), ref.Ctx(1, ref.Uint(prop)))
	if index != 0xFFFFFFFF {
		want = ref.Cat(want, ref.Ctx(2, ref.Uint(index)))
	}
	want = ref.Cat(want, ref.Open(3), v.Wire, ref.Close(3))
	if prio != 0 {
		want = ref.Cat(want, ref.Ctx(4, []byte{prio}))
	}
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")
	sym.Reach("end")
}

// Binary: the present value of binary outputs and values is enumerated.
func Binary() {
	typ := uint16(4 + sym.Choose("type", 2))
	v := val.Of("v", val.Uint)
	v.Wire = ref.AppEnum(v.Go.(uint32))
	if sym.Choose("null", 2) == 1 {
		v = val.Of("v", val.Null)
	}
	inst, index, prio := sym.U32("instance"), sym.U32("index"), sym.Byte("priority")
	sym.Assume(inst <= 0x3FFFFF && prio <= 16)
	check(sym.Byte("invoke"), typ, inst, 85, index, prio, v)
}

// Text of some length.
func Text() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("text length", 16, 40)+1))
	v := val.V{Go: s, Wire: ref.AppString(s)}
	check(3, 2, 7, 28, 0xFFFFFFFF, byte(sym.Choose("priority", 2)*8), v)
}

// BinaryRefused: values that do not fit the present value of a binary output or value.
func BinaryRefused() {
	vals := []interface{}{nil, sym.Bool("b"), sym.F32("f"), sym.F64("d"), "active", sym.I32("i"), int(1), btypes.ObjectID{}, []interface{}{uint32(1)}}
	v := vals[sym.Choose("v", len(vals))]
	refused(request(uint16(4+sym.Choose("type", 2)), 3, 85, 0xFFFFFFFF, sym.Byte("priority"), v))
}

type other struct{ X int }

// ValueRefused: values of types that cannot be expressed.
func ValueRefused() {
	vals := []interface{}{nil, int(3), int64(3), uint8(3), uint16(3), uint64(3), []byte{1, 2}, []interface{}{uint32(1)}, btypes.Date{}, btypes.Time{}, &btypes.BitString{}, other{1}, &other{2}, map[string]int{}}
	typ, prop := sym.U16("type"), sym.U32("property")
	sym.Assume(typ <= 1023 && prop <= 0x3FFFFF)
	refused(request(typ, 3, prop, sym.U32("index"), sym.Byte("priority"), vals[sym.Choose("v", len(vals))]))
}

// OutOfRange: targets that cannot be expressed.
func OutOfRange() {
	typ, inst, prop := sym.U16("type"), sym.U32("instance"), sym.U32("property")
	sym.Assume(typ > 1023 || inst > 0x3FFFFF || prop > 0x3FFFFF)
	refused(request(typ, inst, prop, sym.U32("index"), sym.Byte("priority"), sym.U32("v")))
}

// ValueOutOfRange: an object identifier as the value.
func ValueOutOfRange() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ > 1023 || inst > 0x3FFFFF)
	refused(request(2, 3, 85, 0xFFFFFFFF, 0, btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}))
}

// Empty: no property at all.
func Empty() {
	r := request(2, 3, 85, 0, 0, nil)
	r.Object.Properties = nil
	refused(r)
}

func refused(r btypes.PropertyData) {
	e := encoding.NewEncoder()
	sym.Assert(e.WriteProperty(sym.Byte("invoke"), r) != nil && e.Error() != nil, "refused")
	sym.Reach("end")
}

// Again: a request does not depend on those before it.
func Again() {
	if sym.Choose("refused before", 2) == 1 {
		e := encoding.NewEncoder()
		sym.Assert(e.WriteProperty(1, request(2, 1, 85, 4, 9, struct{}{})) != nil || e.Error() != nil, "what cannot be expressed is refused")
	}
	if sym.Choose("text", 2) == 1 {
		Text()
		Text()
	} else {
		v, w := val.Among("v", []int{val.Real, val.Uint, val.Null}), val.Among("w", []int{val.Real, val.Uint, val.Null})
		typ := uint16(2)
		inst := sym.U32("instance")
		sym.Assume(inst <= 0x3FFFFF)
		check(sym.Byte("invoke"), typ, inst, 85, 0xFFFFFFFF, sym.Byte("priority")&15, v)
		check(sym.Byte("invoke"), typ, inst, 85, 0xFFFFFFFF, sym.Byte("priority")&15, w)
	}
	sym.Reach("again")
}
