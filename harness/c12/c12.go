// Package c12: ReadProperty answers are decoded to exactly the returned values.
package c12

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

func head(id, prop []byte) (b []byte, index uint32) {
	b = ref.Cat(ref.Ctx(0, id), ref.Ctx(1, prop))
	index = 0xFFFFFFFF
	if sym.Choose("with index", 2) == 1 {
		i := sym.Bytes("index", 1+sym.Choose("index octets", 2)*3)
		b = ref.Cat(b, ref.Ctx(2, i))
		index = big(i)
	}
	return
}

func big(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

func decode(id, prop []byte, index uint32, b []byte) interface{} {
	d := encoding.NewDecoder(b)
	var got btypes.PropertyData
	sym.Assert(d.ReadProperty(&got) == nil && d.Error() == nil, "a standard answer is accepted")
	sym.Assert(uint32(got.Object.ID.Type) == big(id)>>22 && uint32(got.Object.ID.Instance) == big(id)&0x3FFFFF, "its object")
	p := got.Object.Properties
	sym.Assert(len(p) == 1 && uint32(p[0].Type) == big(prop) && p[0].ArrayIndex == index, "its property and array index")
	sym.Assert(len(d.Bytes()) == 0, "nothing is left")
	return p[0].Data
}

// One value of every kind.
func One() {
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1+sym.Choose("property octets", 2))
	b, index := head(id, prop)
	v := val.Any("v", val.Kinds)
	sym.Reach("end")
	val.Data(decode(id, prop, index, ref.Cat(b, ref.Open(3), v.Wire, ref.Close(3))), []val.V{v}, "the value as sent")
}

// List of none or several values.
func List() {
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1)
	n := []int{0, 2, 3, 4}[sym.Choose("n", sym.Bound("list length", 3, 4))]
	var vs []val.V
	for i := 0; i < n; i++ {
		kinds := []int{val.Uint, val.Real, val.ObjectID, val.Null, val.String, val.Bool}
		if n == 2 {
			kinds = []int{val.Uint, val.Real, val.String, val.Null, val.Bool, val.ObjectID, val.Int, val.Double, val.Enum, val.Octets, val.Bits, val.Date, val.Time}
		}
		vs = append(vs, val.Among("v", kinds[:sym.Bound("kinds", 6, len(kinds))]))
	}
	b, index := head(id, prop)
	b = ref.Cat(b, ref.Open(3), val.Wire(vs), ref.Close(3))
	val.Data(decode(id, prop, index, b), vs, "the values in order")
	sym.Reach("end")
}

// Long lists of one kind.
func LongList() {
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1)
	n := []int{8, 16, 40, 100}[sym.Choose("n", sym.Bound("long lists", 2, 4))]
	kind := []int{val.Real, val.ObjectID, val.Null}[sym.Choose("kind", 3)]
	var vs []val.V
	for i := 0; i < n; i++ {
		vs = append(vs, val.Of("v", kind))
	}
	b := ref.Cat(ref.Ctx(0, id), ref.Ctx(1, prop), ref.Open(3), val.Wire(vs), ref.Close(3))
	val.Data(decode(id, prop, 0xFFFFFFFF, b), vs, "the values in order")
	sym.Reach("end")
}

// Ack: the encoder's answer with one value.
func Ack() {
	invoke, typ, inst := sym.Byte("invoke"), sym.U16("type"), sym.U32("instance")
	prop, index := sym.U32("property"), sym.U32("index")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF && prop <= 0x3FFFFF)
	v := val.Any("v", val.Sendable)
	data := btypes.PropertyData{Object: btypes.Object{
		ID:         btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)},
		Properties: []btypes.Property{{Type: btypes.PropertyType(prop), ArrayIndex: index, Data: v.Go}},
	}}
	e := encoding.NewEncoder()
	err := e.ReadPropertyAck(invoke, data)
	sym.Assert(err == nil && e.Error() == nil, "an answer is encoded")
	want := ref.Cat(ref.ComplexAck(invoke, 12), ref.Ctx(0, ref.ID(typ, inst)), ref.Ctx(1, ref.Uint(prop)))
	if index != 0xFFFFFFFF {
		want = ref.Cat(want, ref.Ctx(2, ref.Uint(index)))
	}
	want = ref.Cat(want, ref.Open(3), v.Wire, ref.Close(3))
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")
	d := encoding.NewDecoder(e.Bytes())
	var a btypes.APDU
	sym.Assert(d.APDU(&a) == nil && a.InvokeId == invoke && a.Service == 12 && a.DataType == btypes.ComplexAck, "the header decodes back")
	got := decode(ref.ID(typ, inst), ref.U32(prop), index, d.Bytes())
	sym.Assert(v.Got(got), "the value decodes back")
	sym.Reach("end")
}

// AckRefused: answers that cannot be expressed.
func AckRefused() {
	data := btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 8, Instance: 3}}}
	p := btypes.Property{Type: 85, ArrayIndex: 0xFFFFFFFF, Data: sym.U32("v")}
	switch sym.Choose("what", 6) {
	case 0:
	case 1:
		data.Object.Properties = []btypes.Property{p, p}
	case 2:
		p.Data = struct{}{}
		data.Object.Properties = []btypes.Property{p}
	case 3:
		t := sym.U16("type")
		sym.Assume(t > 1023)
		data.Object.ID.Type = btypes.ObjectType(t)
		data.Object.Properties = []btypes.Property{p}
	case 4:
		i := sym.U32("instance")
		sym.Assume(i > 0x3FFFFF)
		data.Object.ID.Instance = btypes.ObjectInstance(i)
		data.Object.Properties = []btypes.Property{p}
	case 5:
		i := sym.U32("property")
		sym.Assume(i > 0x3FFFFF)
		p.Type = btypes.PropertyType(i)
		data.Object.Properties = []btypes.Property{p}
	}
	e := encoding.NewEncoder()
	sym.Assert(e.ReadPropertyAck(sym.Byte("invoke"), data) != nil, "an answer that cannot be expressed is refused")
	sym.Reach("end")
}

// Large: lists and nestings as large as a frame has room for, with any values at some places.
func Large() {
	sym.Steps(20_000_000)
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1)
	n := []int{17, 33, 65, 129, 256, 257, 513, 700, 1100, 1460}[sym.Choose("n", 10)]
	head := ref.Cat(ref.Ctx(0, id), ref.Ctx(1, prop), ref.Open(3))
	if sym.Choose("nested", 2) == 1 { // values in more and more constructed values
		n /= 2
		b := head
		for i := 0; i < n; i++ {
			b = append(b, 0x0E)
		}
		v, w := val.Of("v", val.Real), val.Of("w", val.Bool)
		b = append(b, v.Wire...)
		for i := 0; i < n; i++ {
			b = append(b, 0x0F)
		}
		b = append(append(b, w.Wire...), 0x3F)
		val.Data(decode(id, prop, 0xFFFFFFFF, b), []val.V{v, w}, "the values in order")
		sym.Reach("nested")
		return
	}
	vs := make([]val.V, n)
	null := val.Of("v", val.Null)
	yes := val.Of("v", val.Bool)
	b := head
	for i := range vs {
		switch {
		case i%3 == 1:
			vs[i] = yes
		case i == n/2 || i == n-1 || i == n-2:
			vs[i] = val.Of("u", val.Real)
		default:
			vs[i] = null
		}
		b = append(b, vs[i].Wire...)
	}
	b = append(b, 0x3F)
	val.Data(decode(id, prop, 0xFFFFFFFF, b), vs, "the values in order")
	sym.Reach("list")
}

// Again: an answer does not depend on those before it, and stays as it is when another is decoded.
func Again() {
	kinds := []int{val.Uint, val.Real, val.ObjectID, val.String, val.Octets, val.Bits, val.Date}
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1)
	b := ref.Cat(ref.Ctx(0, id), ref.Ctx(1, prop))
	v, w := val.Among("v", kinds), val.Among("w", kinds)
	vs, ws := []val.V{v, v}, []val.V{w}
	if sym.Choose("list first", 2) == 0 {
		vs, ws = ws, vs
	}
	if sym.Choose("malformed before", 2) == 1 {
		var bad btypes.PropertyData
		d := encoding.NewDecoder(ref.Cat(b, ref.Open(3), v.Wire)[:10+sym.Choose("octets", 2)])
		sym.Assert(d.ReadProperty(&bad) != nil || d.Error() != nil, "a truncated answer is an error")
	}
	first := decode(id, prop, 0xFFFFFFFF, ref.Cat(b, ref.Open(3), val.Wire(vs), ref.Close(3)))
	second := decode(id, prop, 0xFFFFFFFF, ref.Cat(b, ref.Open(3), val.Wire(ws), ref.Close(3)))
	val.Data(first, vs, "the values of the first answer")
	val.Data(second, ws, "the values of the second answer")
	sym.Reach("end")
}
