// Package c22: priority arrays keep every slot's value and pick the highest priority.
package c22

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

func answer(ps ...btypes.Property) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(sym.U16("object")), Instance: btypes.ObjectInstance(sym.U32("instance"))}, Properties: ps}}
}

func slots(p *priority.Float32) []*float32 {
	return []*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16}
}

func same(p *float32, v float32) bool {
	return p != nil && math.Float32bits(*p) == math.Float32bits(v)
}

// Slots: an element in any place of an array of any length, surrounded by empty slots.
func Slots() {
	n := sym.Choose("elements", sym.Bound("elements of the array", 18, 21))
	arr := make([]interface{}, n)
	for i := range arr {
		arr[i] = null.Null{}
	}
	at, bt := 99, 99
	var v, w float32
	if n > 0 {
		at = sym.Choose("place", n)
		v = sym.F32("real")
		arr[at] = v
		bt = sym.Choose("second place", n+1)
		if bt < n && bt != at {
			u := sym.U32("unsigned")
			w = float32(u)
			arr[bt] = u
		} else {
			bt = 99
		}
	}
	objType := btypes.ObjectType(sym.U16("type"))
	p := priority.BuildFloat32(answer(btypes.Property{Type: btypes.PropPriorityArray, Data: arr}), objType)
	sym.Assert(p != nil, "a priority array")
	for i, s := range slots(p) {
		switch i {
		case at:
			sym.Assert(same(s, v), "the slot's real value")
		case bt:
			sym.Assert(same(s, w), "the slot's unsigned or enumerated value")
		default:
			sym.Assert(s == nil, "an empty slot")
		}
	}
	h := p.HighestFloat32()
	switch {
	case at < 16 && (at < bt || bt >= 16):
		sym.Assert(same(h, v), "the effective value is that of the first non-empty slot")
	case bt < 16:
		sym.Assert(same(h, w), "the effective value is that of the first non-empty slot")
	default:
		sym.Assert(h == nil, "no effective value in an empty array")
	}
	sym.Reach("end")
}

// Kinds: all sixteen slots hold variable values, of one kind or mixed.
func Kinds() {
	arr := make([]interface{}, 16)
	var want [16]float32
	mix := sym.Choose("mix", 3)
	for i := range arr {
		if mix == 0 || mix == 2 && i%3 == 0 {
			want[i] = sym.F32("real")
			arr[i] = want[i]
		} else {
			u := sym.U32("number")
			want[i] = float32(u)
			arr[i] = u
		}
	}
	p := priority.BuildFloat32(answer(btypes.Property{Data: arr}), btypes.ObjectType(sym.U16("type")))
	for i, s := range slots(p) {
		sym.Assert(same(s, want[i]), "each slot keeps its own value")
	}
	sym.Assert(same(p.HighestFloat32(), want[0]), "the effective value")
	sym.Reach("end")
}

// Highest: every pattern of empty slots is decided through the array itself.
func Highest() {
	p := &priority.Float32{}
	f := []**float32{&p.P1, &p.P2, &p.P3, &p.P4, &p.P5, &p.P6, &p.P7, &p.P8, &p.P9, &p.P10, &p.P11, &p.P12, &p.P13, &p.P14, &p.P15, &p.P16}
	a, b := sym.Choose("first", 17), sym.Choose("second", 17)
	v := sym.F32("first value")
	if a < 16 {
		*f[a] = &v
	}
	w := sym.F32("second value")
	if b > a && b < 16 {
		*f[b] = &w
	}
	h := p.HighestFloat32()
	if a < 16 {
		sym.Assert(same(h, v), "the first non-empty slot")
	} else {
		sym.Assert(h == nil, "no value in an empty array")
	}
	sym.Reach("end")
}

// Foreign: anything else in the answer makes no crash and no value.
func Foreign() {
	var d interface{}
	var i interface{}
	switch sym.Choose("element", 8) {
	case 0:
		i = sym.Str("text", 2)
	case 1:
		i = nil
	case 2:
		i = sym.Bool("bool")
	case 3:
		i = btypes.ObjectID{Instance: btypes.ObjectInstance(sym.U32("id"))}
	case 4:
		i = (*btypes.BitString)(nil)
	case 5:
		i = []interface{}{[]interface{}{sym.F32("real")}}
	case 6:
		i = btypes.Date{}
	case 7:
		i = sym.Bytes("octets", 2)
	}
	arr := []interface{}{i, null.Null{}, i}
	ps := []btypes.Property{}
	switch sym.Choose("answer", 5) {
	case 0:
		ps = nil
	case 1:
		d = arr
		ps = append(ps, btypes.Property{Data: d})
	case 2:
		ps = append(ps, btypes.Property{Data: i})
	case 3:
		ps = append(ps, btypes.Property{Data: sym.F32("real")})
	case 4:
		ps = append(ps, btypes.Property{Data: sym.U32("number")}, btypes.Property{Data: arr})
	}
	p := priority.BuildFloat32(answer(ps...), btypes.ObjectType(sym.U16("type")))
	if p != nil {
		for _, s := range slots(p) {
			sym.Assert(s == nil, "what is no number is no value")
		}
		sym.Assert(p.HighestFloat32() == nil, "and no effective value")
	}
	sym.Reach("end")
}
