// Package c10: BACnet/IP framing keeps type, function, length and payload intact.
package c10

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// contents of few octets, or of many of which the last ones are any.
func contents(name string) []byte {
	few := sym.Bound("payload octets", 12, 40)
	large := []int{255, 256, 257, 1024, 1497, 9000, 65531}
	n := sym.Choose("n", few+1+len(large))
	if n <= few {
		return sym.Bytes(name, n)
	}
	b := make([]byte, large[n-few-1])
	for i := range b {
		b[i] = byte(i * 3)
	}
	copy(b[len(b)-3:], sym.Bytes(name, 3))
	return b
}

// Encode: the header in front of an unchanged payload.
func Encode() {
	h := btypes.BVLC{Type: sym.Byte("type"), Function: btypes.BacFunc(sym.Byte("function")), Length: sym.U16("length"), Data: contents("data")}
	want := ref.Cat([]byte{h.Type, byte(h.Function)}, ref.U16(h.Length), h.Data)
	e := encoding.NewEncoder()
	err := e.BVLC(h)
	sym.Assert(err == nil && e.Error() == nil, "a frame is encoded")
	sym.Assert(len(e.Bytes()) == len(want) && ref.Same(e.Bytes(), want), "the octets are the standard's")
	sym.Observe("bytes", e.Bytes())
	sym.Reach("end")
}

// Decode: the header, the payload stays.
func Decode() {
	h, p := sym.Bytes("header", 4), contents("payload")
	n := len(p)
	d := encoding.NewDecoder(ref.Cat(h, p))
	var b btypes.BVLC
	err := d.BVLC(&b)
	sym.Assert(err == nil && d.Error() == nil, "a header is decoded")
	sym.Assert(b.Type == h[0] && byte(b.Function) == h[1] && b.Length == uint16(h[2])<<8|uint16(h[3]), "type, function and length")
	sym.Assert(len(d.Bytes()) == n && ref.Same(d.Bytes(), p), "the payload remains")
	sym.Reach("end")
}

// Short frames are errors.
func Short() {
	d := encoding.NewDecoder(sym.Bytes("b", sym.Choose("n", 4)))
	var b btypes.BVLC
	sym.Assert(d.BVLC(&b) != nil, "a short header is an error")
	sym.Reach("end")
}

var notSent = errors.New("not sent")

// Sent: a frame the client sends announces its own length, whatever that is.
func Sent() {
	l := fake.New()
	l.OnSend = func(fake.Frame) error { return notSent }
	c := l.Client()
	a := btypes.Address{Mac: sym.Bytes("mac", 6), MacLen: 6}
	function := byte(0x0A)
	var payload []byte
	switch sym.Choose("operation", 3) {
	case 0:
		n := []int{0, 1, 100, 228, 229, 230, 250, 600, 1400, 4100, 65400}[sym.Choose("text octets", 11)]
		text := make([]byte, n)
		for i := range text {
			text[i] = 'a'
		}
		if n > 0 {
			text[0] = 'A' + byte(sym.Choose("first", 2))
		}
		_ = c.WriteProperty(btypes.Device{Addr: a, MaxApdu: 1476}, btypes.PropertyData{Object: btypes.Object{
			ID:         btypes.ObjectID{Type: 2, Instance: 7},
			Properties: []btypes.Property{{Type: 77, ArrayIndex: btypes.ArrayAll, Data: string(text)}},
		}})
		payload = ref.Cat([]byte{1, 4, 0, 5, 0, 15}, ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{77}), ref.Open(3),
			ref.App(7, ref.Cat([]byte{0}, text)), ref.Close(3))
	case 1:
		n := []int{1, 17, 18, 19, 30, 90}[sym.Choose("objects", sym.Bound("objects", 5, 6))]
		inst := sym.U32("instance")
		sym.Assume(inst <= 0x3FFFFF)
		var objs []btypes.Object
		payload = []byte{1, 4, 0, 5, 0, 14}
		for i := 0; i < n; i++ {
			objs = append(objs, btypes.Object{ID: btypes.ObjectID{Type: 0, Instance: btypes.ObjectInstance(inst)},
				Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}, {Type: 77, ArrayIndex: 5}}})
			payload = ref.Cat(payload, ref.Ctx(0, ref.ID(0, inst)), ref.Open(1), ref.Ctx(0, []byte{85}), ref.Ctx(0, []byte{77}), ref.Ctx(1, []byte{5}), ref.Close(1))
		}
		_, _ = c.ReadMultiProperty(btypes.Device{Addr: a, MaxApdu: 1476}, btypes.MultiplePropertyData{Objects: objs})
	case 2:
		a = btypes.Address{Net: 0xFFFF}
		function = 0x0B
		_, _ = c.WhoIs(&bacnet.WhoIsOpts{Low: 5, High: 6, GlobalBroadcast: true})
		payload = ref.Cat([]byte{1, 0x20, 0xFF, 0xFF, 0, 255, 0x10, 8}, ref.Ctx(0, []byte{5}), ref.Ctx(1, []byte{6}))
	}
	fs := l.Sent()
	sym.Assert(len(fs) > 0, "the request is sent")
	for _, f := range fs {
		sym.Assert(len(f.Data) == 4+len(payload), "the frame is header and payload")
		sym.Assert(f.Data[0] == 0x81 && f.Data[1] == function, "BACnet/IP, unicast or broadcast")
		sym.Assert(int(f.Data[2])<<8|int(f.Data[3]) == len(f.Data), "the length counts the whole frame")
		if function == 0x0A {
			payload[4] = f.Data[8] // the invoke id
		}
		sym.Assert(ref.Same(f.Data[4:], payload), "the payload is unchanged")
	}
	sym.Reach("end")
}

// Again: a frame does not depend on those before it.
func Again() {
	Encode()
	Decode()
	sym.Reach("again")
}
