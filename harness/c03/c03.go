// Package c03: truncated values are rejected, never filled in.
package c03

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/dec"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// element is a complete application value of any kind with variable contents.
func element() []byte {
	kinds := 17
	switch sym.Choose("kind", kinds) {
	case 0:
		return ref.AppNull()
	case 1:
		return ref.App(ref.Unsigned, sym.Bytes("u", 1+sym.Choose("n", 4)))
	case 2:
		return ref.App(ref.Signed, sym.Bytes("i", 1+sym.Choose("n", 4)))
	case 3:
		return ref.App(ref.Real, sym.Bytes("r", 4))
	case 4:
		return ref.App(ref.Double, sym.Bytes("d", 8))
	case 5:
		return ref.App(ref.Octets, sym.Bytes("o", 1+sym.Choose("n", 6)))
	case 6:
		return ref.App(ref.Chars, ref.Cat([]byte{0}, sym.Bytes("s", 1+sym.Choose("n", 6))))
	case 7:
		// UCS-2
		return ref.App(ref.Chars, ref.Cat([]byte{4, 0}, sym.Bytes("s", 1), []byte{0}, sym.Bytes("s", 1)))
	case 8:
		n := 1 + sym.Choose("n", 3)
		return ref.App(ref.Bits, ref.Cat([]byte{byte(sym.Choose("unused", 2) * 3)}, sym.Bytes("b", n)))
	case 9:
		return ref.App(ref.Enumerated, sym.Bytes("e", 1+sym.Choose("n", 4)))
	case 10:
		return ref.App(ref.Date, sym.Bytes("date", 4))
	case 11:
		return ref.App(ref.Time, sym.Bytes("time", 4))
	case 12:
		return ref.App(ref.ObjectID, sym.Bytes("id", 4))
	case 13: // extended length
		return ref.Cat([]byte{0x65, 6}, sym.Bytes("o", 6))
	case 14:
		return ref.Cat([]byte{0x65, 254, 0, 3}, sym.Bytes("o", 3))
	case 15:
		return ref.Cat([]byte{0x75, 255, 0, 0, 0, 3, 0}, sym.Bytes("s", 2))
	}
	return ref.App(ref.Octets, sym.Bytes("o", 40)) // extended length needed
}

func cut(b []byte) []byte { return b[:sym.Choose("cut", len(b))] }

func rejected(entry int, b []byte) {
	_, err := dec.Run(entry, b)
	sym.Observe("error", err != nil)
	sym.Assert(err != nil, "a truncated "+dec.Names[entry]+" is an error")
	sym.Reach("end")
}

func accepted(entry int, b []byte) {
	_, err := dec.Run(entry, b)
	sym.Assert(err == nil, "the complete packet is accepted")
}

// Value: a single application value.
func Value() {
	b := element()
	accepted(dec.AppData, b)
	rejected(dec.AppData, cut(b))
}

// TaggedValue: the tag has been read, the contents are short.
func TaggedValue() {
	tag := byte(2 + sym.Choose("tag", 11))
	n := sym.Choose("present", 9)
	length := sym.Int("length", 0, 1<<32)
	sym.Assume(length > n)
	d := encoding.NewDecoder(sym.Bytes("b", n))
	_, err := d.AppDataOfTag(tag, length)
	sym.Assert(err != nil, "a value with missing octets is an error")
	sym.Reach("end")
}

// Prefix: whatever octets a value was decoded from, none of its prefixes is a value.
func Prefix() {
	n := 1 + sym.Choose("n", sym.Bound("octets", 7, 9))
	b := sym.Bytes("b", n)
	// extended tag numbers do not exist for application values
	sym.Assume(b[0] < 0xD0)
	d := encoding.NewDecoder(b)
	_, err := d.AppData()
	sym.Assume(err == nil && d.Error() == nil)
	used := n - len(d.Bytes())
	sym.Assume(used == n)
	rejected(dec.AppData, b[:sym.Choose("cut", n)])
}

func IAm() {
	b := ref.Cat(ref.App(ref.ObjectID, sym.Bytes("id", 4)), ref.App(ref.Unsigned, sym.Bytes("apdu", 1+sym.Choose("n", 4))),
		ref.App(ref.Enumerated, sym.Bytes("seg", 1)), ref.App(ref.Unsigned, sym.Bytes("vendor", 1+sym.Choose("m", 2))))
	accepted(dec.IAm, b)
	rejected(dec.IAm, cut(b))
}

// IAmMissing: an I-Am without one of its fields.
func IAmMissing() {
	f := [][]byte{ref.App(ref.ObjectID, sym.Bytes("id", 4)), ref.App(ref.Unsigned, sym.Bytes("apdu", 2)), ref.App(ref.Enumerated, sym.Bytes("seg", 1)), ref.App(ref.Unsigned, sym.Bytes("vendor", 1))}
	k := sym.Choose("missing", 4)
	var b []byte
	for i := range f {
		if i != k {
			b = append(b, f[i]...)
		}
	}
	rejected(dec.IAm, b)
}

func WhoIs() {
	lo, hi := sym.Bytes("low", 1+sym.Choose("n", 3)), sym.Bytes("high", 1+sym.Choose("m", 3))
	if len(lo) == 3 {
		sym.Assume(lo[0] <= 0x3F)
	}
	if len(hi) == 3 {
		sym.Assume(hi[0] <= 0x3F)
	}
	b := ref.Cat(ref.Ctx(0, lo), ref.Ctx(1, hi))
	accepted(dec.WhoIs, b)
	rejected(dec.WhoIs, b[:1+sym.Choose("cut", len(b)-1)])
}

// NPDU: a header with any of the optional fields.
func NPDU() {
	ctl := sym.Byte("control") &^ 0x80
	b := []byte{1, ctl}
	dst, src := ctl&0x20 != 0, ctl&8 != 0
	if dst {
		n := sym.Choose("dlen", 8)
		b = ref.Cat(b, sym.Bytes("dnet", 2), []byte{byte(n)}, sym.Bytes("dadr", n))
	}
	if src {
		n := sym.Choose("slen", 8)
		b = ref.Cat(b, sym.Bytes("snet", 2), []byte{byte(n)}, sym.Bytes("sadr", n))
	}
	if dst {
		b = append(b, sym.Byte("hops"))
	}
	accepted(dec.NPDU, b)
	rejected(dec.NPDU, cut(b))
}

// NetworkMessage: the type, the vendor of a proprietary one, the network number of Network-Number-Is,
// the first network of I-Am-Router-To-Network.
func NetworkMessage() {
	b := []byte{1, 0x80}
	switch sym.Choose("message", 4) {
	case 0:
		t := sym.Byte("type")
		sym.Assume(t < 0x80 && t != 0x13 && t != 1)
		b = append(b, t)
	case 1:
		t := sym.Byte("type")
		sym.Assume(t >= 0x80)
		b = ref.Cat(b, []byte{t}, sym.Bytes("vendor", 2))
	case 2:
		b = ref.Cat(b, []byte{0x13}, sym.Bytes("net", 2))
	case 3:
		b = ref.Cat(b, []byte{1}, sym.Bytes("net", 2))
	}
	accepted(dec.NPDU, b)
	rejected(dec.NPDU, cut(b))
}

// RouterList: half a network number at the end of the list.
func RouterList() {
	n := 1 + sym.Choose("n", 3)
	b := ref.Cat([]byte{1, 0x80, 1}, sym.Bytes("nets", 2*n), sym.Bytes("half", 1))
	rejected(dec.NPDU, b)
}

func Address() {
	n := 1 + sym.Choose("len", 9)
	b := ref.Cat(sym.Bytes("net", 2), []byte{byte(n)}, sym.Bytes("adr", n))
	d := encoding.NewDecoder(b[:sym.Choose("cut", len(b))])
	var a btypes.Address
	d.Address(&a)
	sym.Assert(d.Error() != nil, "a truncated address is an error")
	sym.Reach("end")
}

// APDU headers.
func APDU() {
	var b []byte
	switch sym.Choose("pdu", 6) {
	case 0:
		b = sym.Bytes("confirmed", 4)
		sym.Assume(b[0]&0xF8 == 0)
	case 1: // segmented
		b = sym.Bytes("confirmed", 6)
		sym.Assume(b[0]&0xF8 == 8)
	case 2:
		b = sym.Bytes("unconfirmed", 2)
		sym.Assume(b[0]&0xF0 == 0x10)
	case 3:
		b = sym.Bytes("simple ack", 3)
		sym.Assume(b[0]&0xF0 == 0x20)
	case 4:
		b = sym.Bytes("complex ack", 3)
		sym.Assume(b[0]&0xF8 == 0x30)
	case 5:
		b = sym.Bytes("complex ack", 5)
		sym.Assume(b[0]&0xF8 == 0x38)
	}
	accepted(dec.APDU, b)
	rejected(dec.APDU, cut(b))
}

// ErrorPDU: plain and wrapped.
func ErrorPDU() {
	b := ref.Cat([]byte{0x50}, sym.Bytes("head", 2))
	body := ref.Cat(ref.App(ref.Enumerated, sym.Bytes("class", 1+sym.Choose("n", 2))), ref.App(ref.Enumerated, sym.Bytes("code", 1+sym.Choose("m", 2))))
	if sym.Bool("wrapped") {
		b = ref.Cat(b, ref.Open(0), body, ref.Close(0))
	} else {
		b = ref.Cat(b, body)
	}
	accepted(dec.APDU, b)
	rejected(dec.APDU, cut(b))
}

func BVLC() {
	b := sym.Bytes("b", 4)
	accepted(dec.BVLC, b)
	rejected(dec.BVLC, cut(b))
}

// inner is what an answer may carry: values, alone, in a list, constructed or context tagged.
func inner(prop *byte) []byte {
	*prop = 85
	switch sym.Choose("list", 5) {
	case 0:
		return element()
	case 1:
		return ref.Cat(ref.AppUint(7), element())
	case 2: // time stamp
		*prop = 130
		return ref.Cat(ref.Open(2), ref.App(ref.Date, sym.Bytes("date", 4)), ref.App(ref.Time, sym.Bytes("time", 4)), ref.Close(2))
	case 3: // constructed and context tagged
		*prop = 2
		return ref.Cat(ref.Open(0), ref.Ctx(0, sym.Bytes("id", 4)), ref.Ctx(2, sym.Bytes("e", 1+sym.Choose("n", 2))), ref.Close(0))
	}
	// context tagged of unknown type
	return ref.Cat(ref.Ctx(1, sym.Bytes("x", 3)), ref.AppReal(1))
}

// ReadPropertyAck cut anywhere but where the remainder is a request.
func ReadPropertyAck() {
	var prop byte
	in := inner(&prop)
	head := ref.Cat(ref.Ctx(0, sym.Bytes("obj", 4)), ref.Ctx(1, []byte{prop}))
	ok := []int{len(head)}
	if sym.Bool("index") {
		head = ref.Cat(head, ref.Ctx(2, sym.Bytes("i", 1)))
		ok = append(ok, len(head))
	}
	b := ref.Cat(head, ref.Open(3), in, ref.Close(3))
	accepted(dec.ReadProperty, b)
	k := sym.Choose("cut", len(b))
	for _, o := range ok {
		sym.Assume(k != o)
	}
	rejected(dec.ReadProperty, b[:k])
}

// ReadMultipleAck cut anywhere within an object's results.
func ReadMultipleAck() {
	var prop byte
	in := inner(&prop)
	var first []byte
	if sym.Bool("second object") {
		first = ref.Cat(ref.Ctx(0, ref.ID(0, 1)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), ref.AppReal(2), ref.Close(4), ref.Close(1))
	}
	var idx []byte
	if sym.Bool("index") {
		idx = ref.Ctx(3, sym.Bytes("i", 1))
	}
	b := ref.Cat(first, ref.Ctx(0, sym.Bytes("obj", 4)), ref.Open(1), ref.Ctx(2, []byte{prop}), idx, ref.Open(4), in, ref.Close(4), ref.Close(1))
	accepted(dec.ReadPropertyMultipleAck, b)
	rejected(dec.ReadPropertyMultipleAck, b[:len(first)+1+sym.Choose("cut", len(b)-len(first)-1)])
}

// ReadMultipleError cut within the error.
func ReadMultipleError() {
	b := ref.Cat(ref.Ctx(0, sym.Bytes("obj", 4)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(5), ref.AppEnum(2), ref.AppEnum(32), ref.Close(5), ref.Close(1))
	rejected(dec.ReadPropertyMultipleAck, b[:1+sym.Choose("cut", len(b)-1)])
}
