// Package c01: decoding arbitrary bytes never crashes and always terminates.
// Panics and exceeded step limits are violations by themselves, in every harness.
package c01

import (
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/dec"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// run decodes; every step consumes input, so a few thousand instructions per octet are plenty.
func run(entry int, b []byte) {
	sym.Steps(20000 + 3000*len(b))
	d, err := dec.Run(entry, b)
	sym.Observe("error", err != nil)
	sym.Assert(len(d.Bytes()) <= len(b), "no more is left than was given")
	sym.Reach("end")
}

func any(entry, quick, thorough int) {
	n := sym.Choose("n", sym.Bound("packet octets", quick, thorough)+1)
	run(entry, sym.Bytes("b", n))
}

func BVLC()    { any(dec.BVLC, 12, 24) }
func NPDU()    { any(dec.NPDU, 14, 20) }
func APDU()    { any(dec.APDU, 12, 16) }
func WhoIs()   { any(dec.WhoIs, 12, 14) }
func IAm()     { any(dec.IAm, 14, 18) }
func AppData() { any(dec.AppData, 10, 12) }

func ReadProperty()            { any(dec.ReadProperty, 10, 12) }
func ReadPropertyMultipleAck() { any(dec.ReadPropertyMultipleAck, 11, 12) }

// values is any content in place of the value list of an answer.
func values(entry int, head []byte) {
	n := sym.Choose("n", sym.Bound("value list octets", 4, 5)+1)
	b := sym.Bytes("b", n)
	run(entry, ref.Cat(head, b))
}

func prop() []byte {
	// properties whose context tagged contents have known types, and one that has not
	p := []byte{85, 2, 15, 38, 53, 102, 133, 152, 211, 212}
	return []byte{p[sym.Choose("property", sym.Bound("properties", 2, len(p)))]}
}

// ReadPropertyValues: a valid answer up to the opening tag of the values, then anything.
func ReadPropertyValues() {
	values(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, prop()), ref.Open(3)))
}

// ReadMultipleValues: the same for ReadPropertyMultiple.
func ReadMultipleValues() {
	values(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, prop()), ref.Open(4)))
}

// Nested: opening and closing tags in any order, one number per place.
func Nested() {
	n := sym.Bound("nested tags", 4, 6)
	b := ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3))
	for i := 0; i < n; i++ {
		switch k := sym.Choose("kind", 7); {
		case k < 3:
			b = append(b, ref.Open([]byte{2, 3, 14}[k])...)
		case k < 6:
			b = append(b, ref.Close([]byte{2, 3, 14}[k-3])...)
		default:
			b = append(b, sym.Byte("octet"))
		}
	}
	run(dec.ReadProperty, b)
}

// Deep: many opening tags, some of them closed, then anything.
func Deep() {
	entry, b := dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3))
	if sym.Choose("multiple", 2) == 1 {
		entry, b = dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4))
	}
	n := []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129, 257, 700}[sym.Choose("depth", 13)]
	for i := 0; i < n; i++ {
		b = append(b, ref.Open(byte(i%13))...)
	}
	switch sym.Choose("closed", 3) {
	case 1:
		b = append(b, ref.Close(byte((n-1)%13))...)
	case 2:
		for i := n; i > 0; i-- {
			b = append(b, ref.Close(byte((i-1)%13))...)
		}
	}
	run(entry, ref.Cat(b, sym.Bytes("b", sym.Bound("octets after the nesting", 2, 4))))
}

// TaggedValue: any tag number with any length, however many octets follow.
func TaggedValue() {
	tag := sym.Byte("tag")
	n := sym.Choose("n", sym.Bound("octets", 9, 11)+1)
	b := sym.Bytes("b", n)
	length := sym.Int("length", -2, 1<<32)
	sym.Steps(20000 + 3000*n)
	d := encoding.NewDecoder(b)
	_, err := d.AppDataOfTag(tag, length)
	sym.Observe("error", err != nil)
	sym.Assert(len(d.Bytes()) <= n, "no more is left than was given")
	sym.Reach("end")
}

// Network: routing lists of any length.
func Network() {
	n := sym.Choose("n", sym.Bound("list octets", 10, 14)+1)
	run(dec.NPDU, ref.Cat([]byte{1, 0x80}, sym.Bytes("type", 1), sym.Bytes("b", n)))
}

// Long: a long packet of equal octets with variable ones at the beginning and the end.
func Long() {
	entry := sym.Choose("entry", dec.N)
	n := []int{64, 300, 1476}[sym.Choose("n", sym.Bound("long packets", 2, 3))]
	fill := []byte{0x00, 0x3E, 0x3F, 0x0E, 0x21, 0xFF}[sym.Choose("fill", 6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = fill
	}
	copy(b, sym.Bytes("head", sym.Bound("head octets", 2, 3)))
	b[n-1] = sym.Byte("tail")
	run(entry, b)
}

// templates are well formed packets, element by element.
func template() (entry int, e [][]byte) {
	null := []byte{0}
	object := [][]byte{ref.Ctx(0, ref.ID(2, 7)), ref.Open(1)}
	switch sym.Choose("template", 11) {
	case 0:
		return dec.ReadPropertyMultipleAck, append(object, ref.Ctx(2, []byte{85}), ref.Open(5), []byte{0x91, 2}, []byte{0x91, 32}, ref.Close(5), ref.Close(1))
	case 1:
		return dec.ReadPropertyMultipleAck, append(object, ref.Ctx(2, []byte{87}), ref.Ctx(3, []byte{2}), ref.Open(4), []byte{0x44, 0x41, 0xA0, 0, 0}, null, ref.Close(4), ref.Close(1), object[0], object[1], ref.Close(1))
	case 2: // a date and time
		return dec.ReadPropertyMultipleAck, append(object, ref.Ctx(2, []byte{130}), ref.Open(4), ref.Open(2), []byte{0xA4, 120, 1, 1, 1}, []byte{0xB4, 1, 1, 1, 1}, ref.Close(2), ref.Close(4), ref.Close(1))
	case 3:
		return dec.ReadProperty, [][]byte{object[0], ref.Ctx(1, []byte{76}), ref.Ctx(2, []byte{0}), ref.Open(3), []byte{0x21, 9}, ref.Close(3)}
	case 4: // context tagged elements of known and unknown types
		return dec.ReadProperty, [][]byte{object[0], ref.Ctx(1, []byte{2}), ref.Open(3), ref.Open(0), ref.Ctx(0, ref.ID(8, 1)), ref.Ctx(2, []byte{85}), ref.Ctx(7, []byte{1}), ref.Ctx(9, []byte{1}), ref.Close(0), ref.Close(3)}
	case 5:
		return dec.ReadProperty, [][]byte{object[0], ref.Ctx(1, []byte{77}), ref.Open(3), []byte{0x73, 0, 'a', 'b'}, []byte{0x75, 5, 4, 0, 'a', 0, 'b'}, []byte{0x82, 4, 0xF0}, []byte{0x62, 1, 2}, ref.Close(3)}
	case 6:
		return dec.APDU, [][]byte{{0x50}, {7}, {12}, {0x91, 2}, {0x91, 32}}
	case 7:
		return dec.APDU, [][]byte{{0x50}, {7}, {14}, ref.Open(0), {0x91, 2}, {0x91, 32}, ref.Close(0)}
	case 8:
		return dec.WhoIs, [][]byte{ref.Ctx(0, []byte{1, 2}), ref.Ctx(1, []byte{3, 4, 5})}
	case 9:
		return dec.IAm, [][]byte{ref.App(ref.ObjectID, ref.ID(8, 3)), {0x22, 5, 196}, {0x91, 0}, {0x21, 42}}
	}
	return dec.NPDU, [][]byte{{1}, {0xA8}, {0, 5}, {1, 9}, {0, 6}, {2, 1, 2}, {255}, {1}, {0, 1}, {0, 2}, {0, 3}}
}

// Confused: packets with elements of another type or length than a well formed one.
func Confused() {
	entry, e := template()
	i := sym.Choose("element", len(e))
	last := i + sym.Bound("elements", 1, 2)
	for ; i < last && i < len(e); i++ {
		n := sym.Choose("length", 10)
		tag := sym.Byte("tag")
		c := []byte{0, 0x41, 2, 0xFF, 0x2F}[:[]int{0, 1, 2, 3, 4, 0, 0, 0, 5, 2}[n]]
		if len(c) > 0 { // the form of a string, the unused bits of a bit string
			c[0] = []byte{0, 4, 0xFF}[sym.Choose("first", sym.Bound("first octets", 2, 3))]
		}
		switch n {
		case 8: // extended
			sym.Assume(tag&7 == 5)
			c[0] = 4
		case 9:
			sym.Assume(tag&7 == 5)
		default:
			sym.Assume(tag&7 == byte(n))
		}
		e[i] = append([]byte{tag}, c...)
	}
	run(entry, ref.Cat(e...))
}
