// Package c24: elements that no encoding of a value can be are rejected.
package c24

import (
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/dec"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// fits: a value of the type can have that many octets.
func fits(tag byte, n int) bool {
	switch tag {
	case ref.Null:
		return n == 0
	case ref.Unsigned, ref.Signed, ref.Enumerated:
		return n >= 1 && n <= 4
	case ref.Real, ref.Date, ref.Time, ref.ObjectID:
		return n == 4
	case ref.Double:
		return n == 8
	case ref.Bits:
		return n >= 1 && n <= 16
	case ref.Chars:
		return n >= 1
	}
	return true
}

// header is a tag with one of the length forms that can express n.
func header(tag byte, n int) []byte {
	switch form := sym.Choose("length form", 4); {
	case form == 1 && n <= 253:
		return []byte{tag<<4 | 5, byte(n)}
	case form == 2:
		return []byte{tag<<4 | 5, 254, byte(n >> 8), byte(n)}
	case form == 3:
		return []byte{tag<<4 | 5, 255, 0, 0, byte(n >> 8), byte(n)}
	case n < 5:
		return []byte{tag<<4 | byte(n)}
	}
	return []byte{tag<<4 | 5, byte(n)}
}

// misfit is an element whose length its type cannot have.
func misfit() []byte {
	tag := []byte{ref.Null, ref.Unsigned, ref.Signed, ref.Real, ref.Double, ref.Chars, ref.Bits, ref.Enumerated, ref.Date, ref.Time, ref.ObjectID}[sym.Choose("type", 11)]
	n := sym.Choose("length", sym.Bound("octets", 20, 40))
	sym.Assume(!fits(tag, n))
	return ref.Cat(header(tag, n), sym.Bytes("content", n))
}

func rejected(entry int, b []byte) {
	_, err := dec.Run(entry, b)
	sym.Assert(err != nil, "what is no encoding of a value is an error")
	sym.Reach("end")
}

// Value: alone, followed by anything.
func Value() { rejected(dec.AppData, ref.Cat(misfit(), sym.Bytes("more", 8))) }

// Tagged: the length handed over.
func Tagged() {
	tag := byte(sym.Choose("type", 13))
	n := sym.Choose("length", sym.Bound("octets", 20, 40)) - 2
	sym.Assume(tag != 1 && !fits(tag, n) || tag != 1 && n < 0)
	d := encoding.NewDecoder(sym.Bytes("b", 45))
	_, err := d.AppDataOfTag(tag, n)
	sym.Assert(err != nil, "what is no encoding of a value is an error")
	sym.Reach("end")
}

// list is a misfit among the values of an answer.
func list() []byte {
	good := [][]byte{ref.AppReal(1), ref.AppUint(7), {0}}
	var b []byte
	at := sym.Choose("at", 3)
	for i := 0; i < 3; i++ {
		if i == at {
			b = ref.Cat(b, misfit())
		} else if sym.Choose("other", 2) == 1 {
			b = ref.Cat(b, good[i])
		}
	}
	return b
}

func Read() {
	rejected(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), list(), ref.Close(3)))
}

func ReadMultiple() {
	b := ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), list(), ref.Close(4), ref.Close(1))
	if sym.Choose("another object", 2) == 1 {
		b = ref.Cat(b, ref.Ctx(0, ref.ID(2, 8)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), ref.AppReal(1), ref.Close(4), ref.Close(1))
	}
	rejected(dec.ReadPropertyMultipleAck, b)
}

// Reserved application tags.
func Reserved() {
	tag := 13 + sym.Byte("tag")%2
	n := sym.Choose("length", 5)
	el := ref.Cat([]byte{tag<<4 | byte(n)}, sym.Bytes("content", n))
	switch sym.Choose("where", 3) {
	case 0:
		rejected(dec.AppData, el)
	case 1:
		rejected(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), el, ref.Close(3)))
	case 2:
		rejected(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), el, ref.Close(4), ref.Close(1)))
	}
}

// Charset: text in a character set that is not supported.
func Charset() {
	n := sym.Choose("length", 6)
	set := sym.Byte("character set")
	sym.Assume(set != 0 && set != 4)
	rejected(dec.AppData, ref.App(ref.Chars, ref.Cat([]byte{set}, sym.Bytes("text", n))))
}

// Fields of an object identifier or property with octets too few or too many.
func Fields() {
	id, prop := 1+sym.Choose("identifier octets", 8), sym.Choose("property octets", 7)
	sym.Assume(id != 4 || prop == 0 || prop > 4)
	switch sym.Choose("service", 2) {
	case 0:
		rejected(dec.ReadProperty, ref.Cat(ref.Ctx(0, sym.Bytes("id", id)), ref.Ctx(1, sym.Bytes("property", prop)), ref.Open(3), ref.AppReal(1), ref.Close(3)))
	case 1:
		rejected(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, sym.Bytes("id", id)), ref.Open(1), ref.Ctx(2, sym.Bytes("property", prop)), ref.Open(4), ref.AppReal(1), ref.Close(4), ref.Close(1)))
	}
}
