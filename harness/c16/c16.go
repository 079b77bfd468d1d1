// Package c16: WritePropertyMultiple requests carry every write exactly once and in order.
package c16

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

// object is symbolic, but whether it is a binary output or value is fixed.
func object() (btypes.Object, []byte, bool) {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF)
	bin := sym.Choose("binary", 2) == 1
	sym.Assume((typ == 4 || typ == 5) == bin)
	return btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}}, ref.Ctx(0, ref.ID(typ, inst)), bin
}

func property(bin, wide bool, v val.V) (btypes.Property, []byte) {
	prop, index, prio := sym.U32("property"), uint32(0xFFFFFFFF), sym.Byte("priority")
	sym.Assume(prop <= 0x3FFFFF && prio <= 16)
	if !wide {
		sym.Assume(prop <= 0xFF)
	}
	b := ref.Ctx(0, ref.Uint(prop))
	if wide && sym.Choose("with index", 2) == 1 {
		index = sym.U32("index")
		sym.Assume(index != 0xFFFFFFFF)
		b = ref.Cat(b, ref.Ctx(1, ref.Uint(index)))
	}
	wire := v.Wire
	if bin && prop == 85 {
		sym.Assume(v.Kind == val.Uint || v.Kind == val.Null)
		if v.Kind == val.Uint {
			wire = ref.AppEnum(v.Go.(uint32))
		}
	}
	b = ref.Cat(b, ref.Open(2), wire, ref.Close(2))
	if prio != 0 {
		b = ref.Cat(b, ref.Ctx(3, []byte{prio}))
	}
	return btypes.Property{Type: btypes.PropertyType(prop), ArrayIndex: index, Data: v.Go, Priority: btypes.NPDUPriority(prio)}, b
}

func check(invoke byte, data btypes.MultiplePropertyData, want []byte) {
	e := encoding.NewEncoder()
	err := e.WriteMultiProperty(invoke, data)
	sym.Assert(err == nil && e.Error() == nil, "an expressible request is encoded")
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), ref.Cat(ref.Confirmed(5, invoke, 16), want)), "the octets are the standard's")
	sym.Reach("end")
}

// Single: one write of every kind, with everything of any size.
func Single() {
	o, b, bin := object()
	p, pb := property(bin, true, val.Any("v", val.Sendable))
	o.Properties = []btypes.Property{p}
	check(sym.Byte("invoke"), btypes.MultiplePropertyData{Objects: []btypes.Object{o}}, ref.Cat(b, ref.Open(1), pb, ref.Close(1)))
}

// Several objects with several writes.
func Several() {
	var data btypes.MultiplePropertyData
	var want []byte
	kinds := []int{val.Real, val.Uint, val.Null, val.String, val.Bool}[:sym.Bound("kinds", 2, 4)]
	for i := sym.Choose("objects", sym.Bound("objects", 2, 2)+1); i > 0; i-- {
		o, b, bin := object()
		want = ref.Cat(want, b, ref.Open(1))
		for j := sym.Choose("properties", sym.Bound("properties", 2, 2)+1); j > 0; j-- {
			v := val.Among("v", kinds)
			if v.Kind == val.Uint {
				sym.Assume(v.Go.(uint32) <= 0xFF)
			}
			p, pb := property(bin, false, v)
			o.Properties = append(o.Properties, p)
			want = ref.Cat(want, pb)
		}
		want = ref.Cat(want, ref.Close(1))
		data.Objects = append(data.Objects, o)
	}
	check(sym.Byte("invoke"), data, want)
}

// Many writes.
func Many() {
	var data btypes.MultiplePropertyData
	var want []byte
	for i := 0; i < sym.Bound("many writes", 60, 120); i++ {
		f := sym.F32("v")
		prio := byte(i % 17)
		o := btypes.Object{ID: btypes.ObjectID{Type: 1, Instance: btypes.ObjectInstance(i)}, Properties: []btypes.Property{{Type: 85, ArrayIndex: 0xFFFFFFFF, Data: f, Priority: btypes.NPDUPriority(prio)}}}
		want = ref.Cat(want, ref.Ctx(0, ref.ID(1, uint32(i))), ref.Open(1), ref.Ctx(0, []byte{85}), ref.Open(2), ref.AppReal(f), ref.Close(2))
		if prio != 0 {
			want = ref.Cat(want, ref.Ctx(3, []byte{prio}))
		}
		want = ref.Cat(want, ref.Close(1))
		data.Objects = append(data.Objects, o)
	}
	check(sym.Byte("invoke"), data, want)
}

type other struct{ X int }

// Refused: one write anywhere that cannot be expressed makes the request fail.
func Refused() {
	var data btypes.MultiplePropertyData
	n := 1 + sym.Choose("n", 3)
	bad, what := sym.Choose("bad", n), sym.Choose("what", 4)
	for i := 0; i < n; i++ {
		o := btypes.Object{ID: btypes.ObjectID{Type: 1, Instance: btypes.ObjectInstance(i)}}
		p := btypes.Property{Type: 85, ArrayIndex: 0xFFFFFFFF, Data: float32(1)}
		if i == bad {
			switch what {
			case 0:
				t := sym.U16("type")
				sym.Assume(t > 1023)
				o.ID.Type = btypes.ObjectType(t)
			case 1:
				t := sym.U32("instance")
				sym.Assume(t > 0x3FFFFF)
				o.ID.Instance = btypes.ObjectInstance(t)
			case 2:
				t := sym.U32("property")
				sym.Assume(t > 0x3FFFFF)
				p.Type = btypes.PropertyType(t)
			case 3:
				vals := []interface{}{nil, int(3), []byte{1}, []interface{}{uint32(1)}, btypes.Date{}, other{}, &other{}}
				p.Data = vals[sym.Choose("v", len(vals))]
			}
		}
		o.Properties = []btypes.Property{p, {Type: 85, ArrayIndex: 0xFFFFFFFF, Data: float32(2)}}
		data.Objects = append(data.Objects, o)
	}
	e := encoding.NewEncoder()
	sym.Assert(e.WriteMultiProperty(sym.Byte("invoke"), data) != nil && e.Error() != nil, "refused")
	sym.Reach("end")
}

// BinaryRefused: values that do not fit the present value of a binary output or value.
func BinaryRefused() {
	vals := []interface{}{nil, sym.Bool("b"), sym.F32("f"), "active", sym.I32("i"), int(1)}
	o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(4 + sym.Choose("type", 2)), Instance: 1}}
	o.Properties = []btypes.Property{{Type: 85, ArrayIndex: 0xFFFFFFFF, Data: vals[sym.Choose("v", len(vals))]}}
	e := encoding.NewEncoder()
	sym.Assert(e.WriteMultiProperty(1, btypes.MultiplePropertyData{Objects: []btypes.Object{o}}) != nil, "refused")
	sym.Reach("end")
}

// Again: a request does not depend on those before it.
func Again() {
	if sym.Choose("refused before", 2) == 1 {
		bad := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 1}, Properties: []btypes.Property{{Type: 85, ArrayIndex: 3, Data: float32(1), Priority: 5}, {Type: 1 << 22, ArrayIndex: 7, Data: float32(1)}}}
		e := encoding.NewEncoder()
		sym.Assert(e.WriteMultiProperty(1, btypes.MultiplePropertyData{Objects: []btypes.Object{bad}}) != nil || e.Error() != nil, "what cannot be expressed is refused")
	}
	for i := 0; i < 2; i++ {
		o, b, bin := object()
		p, pb := property(bin, false, val.Among("v", []int{val.Real, val.Uint, val.Null}))
		o.Properties = []btypes.Property{p}
		check(sym.Byte("invoke"), btypes.MultiplePropertyData{Objects: []btypes.Object{o}}, ref.Cat(b, ref.Open(1), pb, ref.Close(1)))
	}
	sym.Reach("again")
}
