// Package c11: ReadProperty requests name exactly the property that was asked for.
package c11

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const service = 12

func request(typ uint16, inst, prop, index uint32) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{
		ID:         btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)},
		Properties: []btypes.Property{{Type: btypes.PropertyType(prop), ArrayIndex: index}},
	}}
}

// Request: every expressible object, property and array index.
func Request() {
	invoke, typ, inst := sym.Byte("invoke"), sym.U16("type"), sym.U32("instance")
	prop, index := sym.U32("property"), sym.U32("index")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF && prop <= 0x3FFFFF)
	e := encoding.NewEncoder()
	err := e.ReadProperty(invoke, request(typ, inst, prop, index))
	sym.Assert(err == nil && e.Error() == nil, "an expressible request is encoded")
	want := ref.Cat(ref.Confirmed(5, invoke, service), ref.Ctx(0, ref.ID(typ, inst)), ref.Ctx(1, ref.Uint(prop)))
	if index != 0xFFFFFFFF {
		want = ref.Cat(want, ref.Ctx(2, ref.Uint(index)))
	}
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")

	d := encoding.NewDecoder(e.Bytes())
	var a btypes.APDU
	sym.Assert(d.APDU(&a) == nil && a.InvokeId == invoke && a.Service == service && a.DataType == btypes.ConfirmedServiceRequest, "the header decodes back")
	d = encoding.NewDecoder(a.RawData)
	var got btypes.PropertyData
	sym.Assert(d.ReadProperty(&got) == nil && d.Error() == nil, "the request decodes back")
	sym.Assert(uint16(got.Object.ID.Type) == typ && uint32(got.Object.ID.Instance) == inst, "the same object")
	p := got.Object.Properties
	sym.Assert(len(p) == 1 && uint32(p[0].Type) == prop && p[0].ArrayIndex == index, "the same property and array index")
	sym.Reach("end")
}

// Standard requests of other senders: identifiers in any number of octets.
func Decode() {
	id, prop := sym.Bytes("id", 4), sym.Bytes("property", 1+sym.Choose("property octets", 4))
	b := ref.Cat(ref.Ctx(0, id), ref.Ctx(1, prop))
	index := uint32(0xFFFFFFFF)
	if sym.Choose("with index", 2) == 1 {
		i := sym.Bytes("index", 1+sym.Choose("index octets", 4))
		b = ref.Cat(b, ref.Ctx(2, i))
		index = big(i)
	}
	d := encoding.NewDecoder(b)
	var got btypes.PropertyData
	sym.Assert(d.ReadProperty(&got) == nil && d.Error() == nil, "a standard request is accepted")
	sym.Assert(uint32(got.Object.ID.Type) == big(id)>>22 && uint32(got.Object.ID.Instance) == big(id)&0x3FFFFF, "its object")
	p := got.Object.Properties
	sym.Assert(len(p) == 1 && uint32(p[0].Type) == big(prop) && p[0].ArrayIndex == index, "its property and array index")
	sym.Assert(len(d.Bytes()) == 0, "nothing is left")
	sym.Reach("end")
}

func big(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

// OutOfRange: nothing else is addressed instead.
func OutOfRange() {
	typ, inst, prop, index := sym.U16("type"), sym.U32("instance"), sym.U32("property"), sym.U32("index")
	sym.Assume(typ > 1023 || inst > 0x3FFFFF || prop > 0x3FFFFF)
	e := encoding.NewEncoder()
	err := e.ReadProperty(sym.Byte("invoke"), request(typ, inst, prop, index))
	sym.Assert(err != nil, "an inexpressible request is refused")
	sym.Assert(e.Error() != nil, "and the encoder is in error")
	sym.Reach("end")
}

// Empty: a request without a property.
func Empty() {
	r := request(sym.U16("type"), sym.U32("instance"), 0, 0)
	r.Object.Properties = [][]btypes.Property{nil, {}}[sym.Choose("empty", 2)]
	e := encoding.NewEncoder()
	sym.Assert(e.ReadProperty(sym.Byte("invoke"), r) != nil, "a request without a property is refused")
	sym.Reach("end")
}

// Again: a request does not depend on those before it.
func Again() {
	if sym.Choose("decode", 2) == 1 {
		Decode()
		Decode()
	} else {
		Request()
		Request()
	}
	sym.Reach("again")
}

// Kept: two requests that are built in turns do not touch each other.
func Kept() {
	type one struct {
		e                 *encoding.Encoder
		invoke            byte
		typ               uint16
		inst, prop, index uint32
	}
	var rs [2]one
	for i := range rs {
		r := one{encoding.NewEncoder(), sym.Byte("invoke"), sym.U16("type"), sym.U32("instance"), sym.U32("property"), sym.U32("index")}
		sym.Assume(r.typ <= 1023 && r.inst <= 0x3FFFFF && r.prop <= 0xFF && r.index <= 0xFF)
		sym.Assert(r.e.ReadProperty(r.invoke, request(r.typ, r.inst, r.prop, r.index)) == nil, "it is encoded")
		rs[i] = r
	}
	for _, r := range rs {
		want := ref.Cat(ref.Confirmed(5, r.invoke, service), ref.Ctx(0, ref.ID(r.typ, r.inst)), ref.Ctx(1, ref.Uint(r.prop)), ref.Ctx(2, ref.Uint(r.index)))
		sym.Assert(ref.Same(r.e.Bytes(), want), "its own octets")
	}
	sym.Reach("end")
}
