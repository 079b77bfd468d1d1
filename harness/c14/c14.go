// Package c14: ReadPropertyMultiple answers are decoded completely, in order and unmixed.
package c14

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

type property struct {
	prop, index uint32
	vals        []val.V
	check       func(got interface{})
}

type object struct {
	typ   uint16
	inst  uint32
	props []property
}

func id() object {
	o := object{typ: sym.U16("type"), inst: sym.U32("instance")}
	sym.Assume(o.typ <= 1023 && o.inst <= 0x3FFFFF)
	return o
}

// known property numbers have context tagged contents of a known type; the tests of plain values keep to the others
func (o *object) add(p property) { o.props = append(o.props, p) }

func plain(index bool, vals ...val.V) property {
	p := property{prop: uint32(sym.Byte("property")), index: 0xFFFFFFFF, vals: vals}
	if index {
		p.index = uint32(sym.Byte("index"))
	}
	return p
}

func (o object) wire() []byte {
	b := ref.Cat(ref.Ctx(0, ref.ID(o.typ, o.inst)), ref.Open(1))
	for _, p := range o.props {
		b = ref.Cat(b, ref.Ctx(2, ref.Uint(p.prop)))
		if p.index != 0xFFFFFFFF {
			b = ref.Cat(b, ref.Ctx(3, ref.Uint(p.index)))
		}
		b = ref.Cat(b, ref.Open(4), val.Wire(p.vals), ref.Close(4))
	}
	return ref.Cat(b, ref.Close(1))
}

func decode(b []byte) (btypes.MultiplePropertyData, error) {
	d := encoding.NewDecoder(b)
	var got btypes.MultiplePropertyData
	err := d.ReadMultiplePropertyAck(&got)
	if err == nil {
		err = d.Error()
	}
	sym.Observe("error", err != nil)
	return got, err
}

func compare(objects []object) {
	var b []byte
	for _, o := range objects {
		b = append(b, o.wire()...)
	}
	got, err := decode(b)
	sym.Assert(err == nil, "a standard answer is accepted")
	sym.Assert(len(got.Objects) == len(objects), "every object once")
	for i, o := range objects {
		g := got.Objects[i]
		sym.Assert(uint16(g.ID.Type) == o.typ && uint32(g.ID.Instance) == o.inst, "the objects in order")
		sym.Assert(len(g.Properties) == len(o.props), "every property of the object once")
		for j, p := range o.props {
			q := g.Properties[j]
			sym.Assert(uint32(q.Type) == p.prop && q.ArrayIndex == p.index, "the properties in order, each with its index")
			if p.check != nil {
				p.check(q.Data)
			} else {
				val.Data(q.Data, p.vals, "its own values")
			}
		}
	}
	sym.Reach("end")
}

// Single: one property with one value of any kind, identifiers of any size.
func Single() {
	o := id()
	p := plain(sym.Choose("with index", 2) == 1, val.Any("v", val.Kinds))
	if sym.Choose("wide", 2) == 1 {
		p.prop = sym.U32("wide property")
		if p.index != 0xFFFFFFFF {
			p.index = sym.U32("wide index")
			sym.Assume(p.index != 0xFFFFFFFF)
		}
	}
	o.add(p)
	compare([]object{o})
}

// Pair: two values of any kinds.
func Pair() {
	o := id()
	o.add(plain(false, val.Among("v", pick), val.Among("w", pick)))
	compare([]object{o})
}

var pick = []int{val.Bool, val.Real, val.String, val.ObjectID, val.Null, val.Date, val.Bits, val.Double, val.Octets, val.Time}

// Shapes: objects with properties with values, of any numbers.
func Shapes() {
	var objects []object
	for i := sym.Choose("objects", sym.Bound("objects", 2, 3)+1); i > 0; i-- {
		o := id()
		for j := sym.Choose("properties", sym.Bound("properties", 2, 2)+1); j > 0; j-- {
			var vs []val.V
			for k := sym.Choose("values", sym.Bound("values", 2, 2)+1); k > 0; k-- {
				vs = append(vs, val.Of("v", val.Real))
			}
			o.add(plain(sym.Choose("with index", 2) == 1, vs...))
		}
		objects = append(objects, o)
	}
	compare(objects)
}

// Mixed: values of different kinds in different objects.
func Mixed() {
	kinds := []int{val.Real, val.Bool, val.String, val.ObjectID}
	var objects []object
	for i := 0; i < 2; i++ {
		o := id()
		for j := 0; j < sym.Bound("mixed properties", 2, 3); j++ {
			o.add(plain(j == 1, val.Among("v", kinds)))
		}
		objects = append(objects, o)
	}
	compare(objects)
}

// Long answers.
func Long() {
	var objects []object
	for i := 0; i < sym.Bound("long answer objects", 8, 30); i++ {
		o := id()
		o.add(plain(false, val.Of("name", val.String)))
		o.add(plain(false, val.Of("value", val.Real)))
		objects = append(objects, o)
	}
	compare(objects)
}

// Wide: many properties, many values, different numbers of them in each object.
func Wide() {
	n := sym.Bound("properties of a wide object", 9, 20)
	var objects []object
	for _, k := range []int{1 + sym.Choose("first", n), n - sym.Choose("second", n), 2} {
		o := id()
		for j := 0; j < k; j++ {
			o.add(plain(false, val.Of("v", val.Real)))
		}
		objects = append(objects, o)
	}
	o := id()
	var vs []val.V
	for j := sym.Choose("values", 2*n); j >= 0; j-- {
		vs = append(vs, val.Of("v", val.Real))
	}
	o.add(plain(true, vs...))
	o.add(plain(false, vs...))
	compare(append(objects, o))
}

// DateTime: a time stamp in the form of a date and time becomes one value, alone and among others.
func DateTime() {
	y, m, d, w := sym.Byte("year"), sym.Byte("month"), sym.Byte("day"), sym.Byte("weekday")
	sym.Assume(y < 255 && m >= 1 && m <= 12 && d >= 1 && d <= 31 && w >= 1 && w <= 7)
	t := sym.Bytes("time", 4)
	stamp := val.V{Wire: ref.Cat(ref.Open(2), ref.App(ref.Date, []byte{y, m, d, w}), ref.App(ref.Time, t), ref.Close(2))}
	is := func(x interface{}) bool {
		dt, ok := x.(*btypes.DataTime)
		return ok && dt != nil && val.IsDate(dt.Date, y, m, d, w) && val.IsTime(dt.Time, t)
	}
	o := id()
	p := property{prop: 130, index: 0xFFFFFFFF, vals: []val.V{stamp}}
	other := val.Of("other", val.Real)
	switch sym.Choose("place", 4) {
	case 0:
		p.check = func(x interface{}) { sym.Assert(is(x), "the date and time") }
	case 1:
		p.vals = []val.V{other, stamp}
		p.check = func(x interface{}) {
			l, ok := x.([]interface{})
			sym.Assert(ok && len(l) == 2 && other.Got(l[0]) && is(l[1]), "the value and the date and time")
		}
	case 2:
		p.vals = []val.V{stamp, other}
		p.check = func(x interface{}) {
			l, ok := x.([]interface{})
			sym.Assert(ok && len(l) == 2 && is(l[0]) && other.Got(l[1]), "the date and time and the value")
		}
	case 3:
		p.vals = []val.V{stamp, stamp, stamp}
		p.check = func(x interface{}) {
			l, ok := x.([]interface{})
			sym.Assert(ok && len(l) == 3 && is(l[0]) && is(l[1]) && is(l[2]), "three time stamps")
		}
	}
	o.add(p)
	o.add(plain(false, val.Of("next", val.Bool)))
	compare([]object{o, id()})
}

// ContextTags: contents with context tags whose types the property fixes.
func ContextTags() {
	type c struct {
		prop uint32
		tag  byte
		kind int
	}
	cases := []c{
		{212, 0, val.Uint}, {212, 1, val.Uint}, {212, 2, val.Real}, {218, 2, val.Real}, {214, 0, val.Uint}, // shed levels
		{2, 0, val.ObjectID}, {2, 1, val.ObjectID}, {2, 2, val.Enum}, {2, 3, val.Uint}, {2, 5, val.Uint}, {2, 6, val.Uint}, {2, 7, val.Bool}, {2, 8, val.Bool}, // action
		{53, 0, val.ObjectID},                    // list of group members
		{38, 1, val.ObjectID}, {38, 3, val.Uint}, // exception schedule
		{132, 0, val.ObjectID}, {132, 1, val.Enum}, {132, 2, val.Uint}, {132, 3, val.ObjectID}, // log device object property
		{211, 0, val.ObjectID}, {211, 1, val.ObjectID}, {102, 0, val.ObjectID}, // subordinates, recipients
		{152, 2, val.Bool}, {152, 3, val.Uint}, {152, 4, val.Real}, // COV subscriptions
	}
	x := cases[sym.Choose("case", len(cases))]
	v := val.Of("v", x.kind)
	content := v.Wire[1:]
	if x.kind == val.Bool {
		content = []byte{v.Wire[0] & 1}
	}
	wire := ref.Ctx(x.tag, content)
	first, last := val.Of("first", val.Null), val.Of("last", val.Real)
	var p property
	is := func(l interface{}) bool { return v.Got(l) }
	if sym.Choose("nested", 2) == 1 {
		wire = ref.Cat(ref.Open(6), wire, ref.Close(6))
	}
	p = property{prop: x.prop, index: 0xFFFFFFFF, vals: []val.V{first, {Wire: wire}, last}, check: func(g interface{}) {
		l, ok := g.([]interface{})
		sym.Assert(ok && len(l) == 3 && first.Got(l[0]) && is(l[1]) && last.Got(l[2]), "the values in order, the tagged one in its type")
	}}
	o := id()
	o.add(p)
	o.add(plain(false, val.Of("next", val.Bool)))
	compare([]object{o})
}

// UnknownContext: contents with context tags of unknown type are left out, what follows is not.
func UnknownContext() {
	tag := byte(sym.Choose("tag", 15))
	n := sym.Choose("n", sym.Bound("unknown content octets", 6, 12)+1)
	wire := ref.Ctx(tag, sym.Bytes("content", n))
	before, after := val.Of("before", val.Real), val.Of("after", val.String)
	o := id()
	o.add(property{prop: 85, index: 0xFFFFFFFF, vals: []val.V{before, {Wire: wire}, after}, check: func(x interface{}) {
		val.Data(x, []val.V{before, after}, "the values around it")
	}})
	o.add(plain(false, val.Of("next", val.Bool)))
	compare([]object{o})
}

// Constructed: nested opening and closing tags of the numbers that also delimit the answer.
func Constructed() {
	v, w := val.Of("v", val.Real), val.Of("w", val.Bool)
	a := []byte{0, 1, 3, 4, 5, 14, 15, 200}[sym.Choose("outer", 8)]
	b := []byte{0, 1, 3, 4, 5, 14, 15, 200}[sym.Choose("inner", 8)]
	wire := ref.Cat(ref.Open(a), v.Wire, ref.Open(b), ref.Close(b), ref.Close(a), w.Wire)
	o := id()
	o.add(property{prop: 85, index: 0xFFFFFFFF, vals: []val.V{{Wire: wire}}, check: func(x interface{}) {
		val.Data(x, []val.V{v, w}, "the values inside and after it")
	}})
	o.add(plain(false, val.Of("next", val.Bool)))
	compare([]object{o, id()})
}

// PropertyError: an error for one property, wherever it is.
func PropertyError() {
	class, code := sym.U32("class"), sym.U32("code")
	before, after := sym.Choose("before", 3), sym.Choose("after", 2)
	b := ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1))
	one := ref.Cat(ref.Ctx(2, []byte{85}), ref.Open(4), ref.AppNull(), ref.Close(4))
	for i := 0; i < before; i++ {
		b = ref.Cat(b, one)
	}
	b = ref.Cat(b, ref.Ctx(2, []byte{77}))
	if sym.Choose("with index", 2) == 1 {
		b = ref.Cat(b, ref.Ctx(3, []byte{1}))
	}
	b = ref.Cat(b, ref.Open(5), ref.AppEnum(class), ref.AppEnum(code), ref.Close(5))
	for i := 0; i < after; i++ {
		b = ref.Cat(b, one)
	}
	b = ref.Cat(b, ref.Close(1))
	_, err := decode(b)
	sym.Assert(err != nil, "an error for a property is reported")
	sym.Reach("end")
}

// Ack: the encoder's answer decodes back.
func Ack() {
	var data btypes.MultiplePropertyData
	invoke := sym.Byte("invoke")
	want := ref.ComplexAck(invoke, 14)
	var objects []object
	for i := 1 + sym.Choose("objects", 2); i > 0; i-- {
		o := id()
		g := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(o.typ), Instance: btypes.ObjectInstance(o.inst)}}
		for j := sym.Choose("properties", 2); j >= 0; j-- {
			kinds := []int{val.Real, val.Bool, val.String, val.ObjectID, val.Int}
			p := plain(sym.Choose("with index", 2) == 1, val.Among("v", kinds[:sym.Bound("kinds", 2, 4)]))
			o.add(p)
			g.Properties = append(g.Properties, btypes.Property{Type: btypes.PropertyType(p.prop), ArrayIndex: p.index, Data: p.vals[0].Go})
		}
		objects = append(objects, o)
		data.Objects = append(data.Objects, g)
		want = ref.Cat(want, o.wire())
	}
	e := encoding.NewEncoder()
	sym.Assert(e.ReadMultiplePropertyAck(invoke, data) == nil && e.Error() == nil, "an answer is encoded")
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")
	compare(objects)
}

// Large: answers as large as a frame has room for: many objects, many properties, many values, deep nesting.
func Large() {
	sym.Steps(20_000_000)
	n := []int{33, 65, 129, 200, 256, 257, 300, 513, 1100}[sym.Choose("n", 9)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	v, w := val.Of("v", val.Real), val.Of("w", val.Bool)
	null := val.Of("v", val.Null)
	var objects []object
	switch sym.Choose("many", 4) {
	case 0:
		for i := 0; i < n; i++ {
			o := object{typ: uint16(i % 100), inst: uint32(i)}
			if i == at {
				o = id()
				o.add(plain(false, v))
			} else if i%3 == 0 {
				o.add(property{prop: 85, index: 0xFFFFFFFF, vals: []val.V{null}})
			}
			objects = append(objects, o)
		}
	case 1:
		o := id()
		for i := 0; i < n; i++ {
			p := property{prop: uint32(i) % 200, index: uint32(i), vals: []val.V{null}}
			if i == at {
				p = plain(true, v, w)
			}
			o.add(p)
		}
		objects = []object{o, id()}
	case 2:
		o := id()
		vs := make([]val.V, n)
		for i := range vs {
			vs[i] = null
			if i == at {
				vs[i] = v
			}
		}
		o.add(plain(false, vs...))
		o.add(plain(false, w))
		objects = []object{o}
	default:
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, ref.Open(byte(3+i%3))...)
		}
		b = append(b, v.Wire...)
		for i := n - 1; i >= 0; i-- {
			b = append(b, ref.Close(byte(3+i%3))...)
		}
		b = append(b, w.Wire...)
		o := id()
		o.add(property{prop: 85, index: 0xFFFFFFFF, vals: []val.V{{Wire: b}}, check: func(x interface{}) {
			val.Data(x, []val.V{v, w}, "the values inside and after it")
		}})
		objects = []object{o, id()}
	}
	compare(objects)
}

// Again: an answer does not depend on those before it, and stays as it is when another is decoded.
func Again() {
	one := func() object {
		o := id()
		for j := sym.Choose("properties", 2); j >= 0; j-- {
			o.add(plain(false, val.Among("v", []int{val.Uint, val.String, val.Real, val.ObjectID})))
		}
		return o
	}
	a, b := one(), one()
	if sym.Choose("malformed before", 2) == 1 {
		_, err := decode(b.wire()[:7+sym.Choose("octets", 4)])
		sym.Assert(err != nil, "a truncated answer is an error")
	}
	ga, err := decode(a.wire())
	sym.Assert(err == nil && len(ga.Objects) == 1, "the first answer")
	gb, err := decode(b.wire())
	sym.Assert(err == nil && len(gb.Objects) == 1, "the second answer")
	for _, x := range []struct {
		o object
		g btypes.Object
	}{{a, ga.Objects[0]}, {b, gb.Objects[0]}} {
		sym.Assert(uint16(x.g.ID.Type) == x.o.typ && uint32(x.g.ID.Instance) == x.o.inst && len(x.g.Properties) == len(x.o.props), "its own object")
		for j, p := range x.o.props {
			sym.Assert(uint32(x.g.Properties[j].Type) == p.prop, "its own properties")
			val.Data(x.g.Properties[j].Data, p.vals, "its own values")
		}
	}
	sym.Reach("end")
}
