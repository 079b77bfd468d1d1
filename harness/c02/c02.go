// Package c02: decoding allocates no more than the received bytes justify.
package c02

import (
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/dec"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// limit: the constant covers the buffers of the decoder itself and of the text conversion and the
// 255 octets a network address may have; no declared length may come in.
func limit(n int) int { return 6000 + 200*n }

func run(entry int, b []byte) {
	sym.AllocLimit("decoding a packet allocates in proportion to its size", limit(len(b)))
	_, err := dec.Run(entry, b)
	sym.AllocEnd()
	sym.Observe("error", err != nil)
	sym.Reach("end")
}

func any(entry, quick, thorough int) {
	n := sym.Choose("n", sym.Bound("packet octets", quick, thorough)+1)
	run(entry, sym.Bytes("b", n))
}

func BVLC()                    { any(dec.BVLC, 8, 24) }
func NPDU()                    { any(dec.NPDU, 11, 16) }
func APDU()                    { any(dec.APDU, 10, 14) }
func WhoIs()                   { any(dec.WhoIs, 10, 14) }
func IAm()                     { any(dec.IAm, 12, 16) }
func AppData()                 { any(dec.AppData, 10, 12) }
func ReadProperty()            { any(dec.ReadProperty, 9, 12) }
func ReadPropertyMultipleAck() { any(dec.ReadPropertyMultipleAck, 10, 12) }

// declared is an element of any tag whose length field announces anything up to 4 GB.
func declared() []byte {
	tag := sym.Byte("tag")
	sym.Assume(tag&7 == 5 && tag < 0xF0)
	switch sym.Choose("length form", 3) {
	case 0:
		return ref.Cat([]byte{tag}, sym.Bytes("len", 1))
	case 1:
		return ref.Cat([]byte{tag, 254}, sym.Bytes("len", 2))
	}
	return ref.Cat([]byte{tag, 255}, sym.Bytes("len", 4))
}

// DeclaredValue: a single value that announces more than is there.
func DeclaredValue() {
	run(dec.AppData, ref.Cat(declared(), sym.Bytes("b", sym.Choose("n", sym.Bound("octets present", 3, 5)+1))))
}

func DeclaredInRead() {
	run(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{[]byte{85, 2, 38, 130}[sym.Choose("property", sym.Bound("properties", 2, 4))]}), ref.Open(3), declared(), sym.Bytes("b", 2)))
}

func DeclaredInReadHeader() {
	b := ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Ctx(2, []byte{1}))
	at := []int{0, 5, 7}[sym.Choose("at", 3)]
	run(dec.ReadProperty, ref.Cat(b[:at], declared(), b[at:]))
}

func DeclaredInReadMultiple() {
	run(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{[]byte{85, 2, 38, 130}[sym.Choose("property", sym.Bound("properties", 2, 4))]}), ref.Open(4), declared(), sym.Bytes("b", 2)))
}

// DeclaredInDateTime: inside the constructed date and time that a time stamp is.
func DeclaredInDateTime() {
	run(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{130}), ref.Open(4), ref.Open(2), declared(), sym.Bytes("b", 2)))
}

func DeclaredInIAm() {
	b := ref.Cat(ref.AppID(8, 7), ref.AppUint(1476), ref.AppEnum(3), ref.AppUint(5))
	at := []int{0, 5, 8, 10}[sym.Choose("at", 4)]
	run(dec.IAm, ref.Cat(b[:at], declared(), b[at:]))
}

func DeclaredInError() {
	run(dec.APDU, ref.Cat([]byte{0x50, 1, 12}, declared(), sym.Bytes("b", 2)))
}

func DeclaredInWhoIs() {
	run(dec.WhoIs, ref.Cat(declared(), sym.Bytes("b", 2)))
}

// Indexes: an array index is a number, however many values follow it.
func Indexes() {
	n := 1 + sym.Choose("index octets", 4)
	values := make([]byte, sym.Choose("values", 3))
	if sym.Choose("multiple", 2) == 1 {
		run(dec.ReadPropertyMultipleAck, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Ctx(3, sym.Bytes("index", n)), ref.Open(4), values, ref.Close(4), ref.Close(1)))
	} else {
		run(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Ctx(2, sym.Bytes("index", n)), ref.Open(3), values, ref.Close(3)))
	}
}

// Tagged: the length handed over separately.
func Tagged() {
	tag := sym.Byte("tag")
	n := sym.Choose("n", sym.Bound("octets", 9, 11)+1)
	b := sym.Bytes("b", n)
	length := sym.Int("length", -2, 1<<32)
	d := encoding.NewDecoder(b)
	sym.AllocLimit("decoding a value allocates in proportion to the octets present", limit(n))
	_, err := d.AppDataOfTag(tag, length)
	sym.AllocEnd()
	sym.Observe("error", err != nil)
	sym.Reach("end")
}

// Repeated: many small elements cost no more each than one.
func Repeated() {
	n := []int{100, 350, 700}[sym.Choose("n", 3)]
	el := [][]byte{{0}, {0x21, 7}, {0x60}, {0x70 | 1, 0}, {0x82, 0, 1}, {0x2E, 0x2F}}[sym.Choose("element", 6)]
	var list []byte
	for len(list) < n {
		list = append(list, el...)
	}
	run(dec.ReadProperty, ref.Cat(ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), list, ref.Close(3)))
}
