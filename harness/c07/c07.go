// Package c07: network layer headers are encoded to standard and round trip.
package c07

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// addr is an address of a remote network with a hardware address of any length, or none at all.
func addr(name string, max int) *btypes.Address {
	k := sym.Choose(name+" address", max+2)
	if k == 0 {
		return nil
	}
	n := sym.U16(name + " net")
	sym.Assume(n != 0)
	return &btypes.Address{Net: n, Len: uint8(k - 1), Adr: sym.Bytes(name+" adr", k-1)}
}

// standard is clause 6.2.2.
func standard(n *btypes.NPDU) []byte {
	ctl := byte(n.Priority)
	if n.IsNetworkLayerMessage {
		ctl |= 0x80
	}
	if n.Destination != nil {
		ctl |= 0x20
	}
	if n.Source != nil {
		ctl |= 0x08
	}
	if n.ExpectingReply {
		ctl |= 0x04
	}
	b := []byte{n.Version, ctl}
	if n.Destination != nil {
		b = ref.Cat(b, ref.U16(n.Destination.Net), []byte{byte(len(n.Destination.Adr))}, n.Destination.Adr)
	}
	if n.Source != nil {
		b = ref.Cat(b, ref.U16(n.Source.Net), []byte{byte(len(n.Source.Adr))}, n.Source.Adr)
	}
	if n.Destination != nil {
		b = append(b, n.HopCount)
	}
	if n.IsNetworkLayerMessage {
		b = append(b, byte(n.NetworkLayerMessageType))
		if n.NetworkLayerMessageType >= 0x80 {
			b = ref.Cat(b, ref.U16(n.VendorId))
		}
	}
	return b
}

func sameAddr(got, want *btypes.Address) {
	sym.Assert((got == nil) == (want == nil), "an address is there if and only if it was given")
	if want == nil {
		return
	}
	sym.Assert(got.Net == want.Net, "network number")
	sym.Assert(int(got.Len) == len(want.Adr) && len(got.Adr) == len(want.Adr), "address length")
	sym.Assert(ref.Same(got.Adr, want.Adr), "hardware address")
}

func same(got, want *btypes.NPDU) {
	sym.Assert(got.Version == want.Version, "version")
	sym.Assert(got.Priority == want.Priority, "priority")
	sym.Assert(got.ExpectingReply == want.ExpectingReply, "expecting reply")
	sym.Assert(got.IsNetworkLayerMessage == want.IsNetworkLayerMessage, "network message flag")
	sameAddr(got.Destination, want.Destination)
	sameAddr(got.Source, want.Source)
	hops := uint8(0)
	if want.Destination != nil {
		hops = want.HopCount
	}
	sym.Assert(got.HopCount == hops, "hop count")
	if want.IsNetworkLayerMessage {
		sym.Assert(got.NetworkLayerMessageType == want.NetworkLayerMessageType, "message type")
		if want.NetworkLayerMessageType >= 0x80 {
			sym.Assert(got.VendorId == want.VendorId, "vendor")
		}
	}
}

func decode(b []byte, want *btypes.NPDU) {
	payload := sym.Bytes("payload", 3)
	d := encoding.NewDecoder(ref.Cat(b, payload))
	var got btypes.NPDU
	_, err := d.NPDU(&got)
	sym.Assert(err == nil && d.Error() == nil, "a standard header is accepted")
	same(&got, want)
	sym.Assert(len(d.Bytes()) == 3 && ref.Same(d.Bytes(), payload), "the payload is left untouched")
}

func header(max int) *btypes.NPDU {
	n := &btypes.NPDU{Version: sym.Byte("version"), Priority: btypes.NPDUPriority(sym.Byte("priority")), ExpectingReply: sym.Bool("reply"),
		HopCount: sym.Byte("hops"), VendorId: sym.U16("vendor")}
	sym.Assume(n.Priority <= 3)
	n.Destination = addr("destination", max)
	n.Source = addr("source", max)
	return n
}

func encode(n *btypes.NPDU) []byte {
	want := standard(n)
	given := *n // the encoder may do with its own as it likes
	given.Destination, given.Source = own(n.Destination), own(n.Source)
	e := encoding.NewEncoder()
	e.NPDU(&given)
	sym.Assert(e.Error() == nil, "a header is encoded")
	b := e.Bytes()
	sym.Observe("bytes", b)
	sym.Assert(len(b) == len(want) && ref.Same(b, want), "the octets are the standard's")
	return b
}

// Application: headers in front of an APDU.
func Application() {
	n := header(sym.Bound("address octets", 7, 16))
	decode(encode(n), n)
	sym.Reach("end")
}

// NetworkMessage: headers with a message type; two of the types carry data that is decoded with the header (C08).
func NetworkMessage() {
	n := header(sym.Bound("address octets of network messages", 2, 6))
	n.IsNetworkLayerMessage = true
	t := sym.Byte("type")
	n.NetworkLayerMessageType = ndpu.NetworkMessageType(t)
	b := encode(n)
	sym.Reach("encoded")
	sym.Assume(t != 1 && t != 0x13)
	decode(b, n)
	sym.Reach("end")
}

// LongAddress: the longest addresses.
func LongAddress() {
	n := &btypes.NPDU{Version: 1, Priority: 1, HopCount: 255}
	k := []int{20, 127, 128, 255}[sym.Choose("length", 4)]
	adr := sym.Bytes("adr", k)
	a := &btypes.Address{Net: 0x1234, Len: uint8(k), Adr: adr}
	if sym.Bool("source") {
		n.Source = a
	} else {
		n.Destination = a
	}
	decode(encode(n), n)
	sym.Reach("end")
}

// LocalAddress: an address without a network number is not put into the header.
func LocalAddress() {
	n := &btypes.NPDU{Version: 1, ExpectingReply: sym.Bool("reply")}
	a := &btypes.Address{MacLen: 6, Mac: sym.Bytes("mac", 6), Len: 1, Adr: sym.Bytes("adr", 1)}
	if sym.Bool("destination") {
		n.Destination = a
	}
	if sym.Bool("source") {
		n.Source = a
	}
	e := encoding.NewEncoder()
	e.NPDU(n)
	want := []byte{1, 0}
	if n.ExpectingReply {
		want[1] = 4
	}
	sym.Assert(e.Error() == nil && len(e.Bytes()) == 2 && ref.Same(e.Bytes(), want), "the octets are the standard's")
	sym.Reach("end")
}

// Received: a header as any router may build it, with reserved control bits set.
func Received() {
	n := header(sym.Bound("address octets of received headers", 4, 7))
	b := standard(n)
	b[1] |= sym.Byte("reserved") & 0x50
	decode(b, n)
	sym.Reach("end")
}

// Control: each accessor of the control octet touches its own bits only.
func Control() {
	x := sym.Byte("control")
	m := encoding.NPDUMetadata(x)
	sym.Assert(m.IsNetworkLayerMessage() == (x>>7 == 1) && m.HasDestination() == (x>>5&1 == 1) && m.HasSource() == (x>>3&1 == 1) &&
		m.ExpectingReply() == (x>>2&1 == 1) && byte(m.Priority()) == x&3, "reading the control octet")
	on := sym.Bool("on")
	v := byte(0)
	if on {
		v = 0xFF
	}
	var mask byte
	switch sym.Choose("set", 5) {
	case 0:
		m.SetNetworkLayerMessage(on)
		mask = 0x80
	case 1:
		m.SetDestination(on)
		mask = 0x20
	case 2:
		m.SetSource(on)
		mask = 0x08
	case 3:
		m.SetExpectingReply(on)
		mask = 0x04
	case 4:
		p := sym.Byte("priority")
		sym.Assume(p <= 3)
		m.SetPriority(btypes.NPDUPriority(p))
		mask, v = 3, p
	}
	sym.Assert(byte(m) == x&^mask|v&mask, "setting a field changes that field only")
	sym.Reach("end")
}

// Again: a header does not depend on those before it.
func Again() {
	LongAddress()
	Application()
	LocalAddress()
	sym.Reach("again")
}

// Kept: headers stay as they are when others are decoded.
func Kept() {
	a, b := header(1), header(1)
	ga, gb := read(standard(a)), read(standard(b))
	same(ga, a)
	same(gb, b)
	sym.Reach("end")
}

func read(b []byte) *btypes.NPDU {
	d := encoding.NewDecoder(b)
	var got btypes.NPDU
	_, err := d.NPDU(&got)
	sym.Assert(err == nil && d.Error() == nil, "a standard header is accepted")
	return &got
}

func own(a *btypes.Address) *btypes.Address {
	if a == nil {
		return nil
	}
	b := *a
	b.Adr = append([]byte(nil), a.Adr...)
	b.Mac = append([]byte(nil), a.Mac...)
	return &b
}
