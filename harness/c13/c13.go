// Package c13: ReadPropertyMultiple requests list exactly the asked objects and properties.
package c13

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

func object(valid bool) (btypes.Object, []byte) {
	typ, inst := sym.U16("type"), sym.U32("instance")
	if valid {
		sym.Assume(typ <= 1023 && inst <= 0x3FFFFF)
	}
	return btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}}, ref.Ctx(0, ref.ID(typ, inst))
}

func property(small bool) (btypes.Property, []byte) {
	prop, index := sym.U32("property"), uint32(0xFFFFFFFF)
	sym.Assume(prop <= 0x3FFFFF)
	if small {
		sym.Assume(prop <= 0xFF)
	}
	b := ref.Ctx(0, ref.Uint(prop))
	if sym.Choose("with index", 2) == 1 {
		index = sym.U32("index")
		sym.Assume(index != 0xFFFFFFFF)
		if small {
			sym.Assume(index <= 0xFF)
		}
		b = ref.Cat(b, ref.Ctx(1, ref.Uint(index)))
	}
	return btypes.Property{Type: btypes.PropertyType(prop), ArrayIndex: index}, b
}

func run(objects, properties int, small bool) {
	invoke := sym.Byte("invoke")
	var data btypes.MultiplePropertyData
	want := ref.Confirmed(5, invoke, 14)
	for i := 0; i < objects; i++ {
		o, b := object(true)
		want = ref.Cat(want, b, ref.Open(1))
		n := properties
		if properties < 0 {
			n = sym.Choose("properties", -properties+1)
		}
		for j := 0; j < n; j++ {
			p, b := property(small)
			o.Properties = append(o.Properties, p)
			want = ref.Cat(want, b)
		}
		want = ref.Cat(want, ref.Close(1))
		data.Objects = append(data.Objects, o)
	}
	e := encoding.NewEncoder()
	err := e.ReadMultipleProperty(invoke, data)
	sym.Assert(err == nil && e.Error() == nil, "an expressible request is encoded")
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")
	sym.Reach("end")
}

// Request: one object with properties of every size.
func Request() { run(1, 1+sym.Choose("n", sym.Bound("properties of one object", 2, 3)), false) }

// Objects: several objects with several properties each, none included.
func Objects() {
	run(sym.Choose("objects", sym.Bound("objects", 2, 3)+1), -sym.Bound("properties", 2, 3), true)
}

// Many objects with one property.
func Many() { run(sym.Bound("many objects", 40, 200), 0, true) }

// ManyProperties of one object.
func ManyProperties() {
	var data btypes.MultiplePropertyData
	o, b := object(true)
	want := ref.Cat(ref.Confirmed(5, 9, 14), b, ref.Open(1))
	for i := 0; i < sym.Bound("many properties", 100, 300); i++ {
		p := sym.Byte("property")
		o.Properties = append(o.Properties, btypes.Property{Type: btypes.PropertyType(p), ArrayIndex: 0xFFFFFFFF})
		want = ref.Cat(want, ref.Ctx(0, []byte{p}))
	}
	data.Objects = []btypes.Object{o}
	e := encoding.NewEncoder()
	sym.Assert(e.ReadMultipleProperty(9, data) == nil && ref.Same(e.Bytes(), ref.Cat(want, ref.Close(1))), "the octets are the standard's")
	sym.Reach("end")
}

// OutOfRange: one inexpressible identifier anywhere makes the request fail.
func OutOfRange() {
	var data btypes.MultiplePropertyData
	n := 1 + sym.Choose("n", 3)
	bad := sym.Choose("bad", n)
	prop := sym.Bool("bad property")
	for i := 0; i < n; i++ {
		o, _ := object(i != bad || prop)
		p := sym.U32("property")
		if i == bad {
			sym.Assume(o.ID.Type > 1023 || o.ID.Instance > 0x3FFFFF || p > 0x3FFFFF)
		}
		o.Properties = []btypes.Property{{Type: 85, ArrayIndex: 0xFFFFFFFF}, {Type: btypes.PropertyType(p), ArrayIndex: 0xFFFFFFFF}}
		data.Objects = append(data.Objects, o)
	}
	e := encoding.NewEncoder()
	sym.Assert(e.ReadMultipleProperty(sym.Byte("invoke"), data) != nil && e.Error() != nil, "an inexpressible request is refused")
	sym.Reach("end")
}

// Again: a request does not depend on those before it.
func Again() {
	if sym.Choose("refused before", 2) == 1 {
		o, _ := object(true)
		p, _ := property(true)
		q := p
		q.Type = 1 << 22
		o.Properties = []btypes.Property{p, q}
		e := encoding.NewEncoder()
		sym.Assert(e.ReadMultipleProperty(1, btypes.MultiplePropertyData{Objects: []btypes.Object{o}}) != nil || e.Error() != nil, "what cannot be expressed is refused")
	}
	run(1, 1, false)
	run(2, -1, true)
	run(1, 1, true)
	sym.Reach("again")
}
