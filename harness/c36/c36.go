// Package c36: no datagram can crash or wedge a running client.
package c36

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

var peer = fake.Mac(10, 0, 0, 9, 0xBA, 0xC0)

// serve makes the link answer every ReadProperty with the value 42; what comes before the answer
// is put by noise, what comes after the question of a discovery by found.
func serve(l *fake.Link, noise func(invoke byte), found func()) {
	l.OnSend = func(f fake.Frame) error {
		if f.Data[1] == 0x0B { // a discovery
			if found != nil {
				found()
			}
			return nil
		}
		invoke := f.Data[8]
		if noise != nil {
			noise(invoke)
		}
		l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0}, ref.ComplexAck(invoke, 12), ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), ref.AppUint(42), ref.Close(3))))
		return nil
	}
}

func read(c bacnet.Client) (btypes.PropertyData, error) {
	o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 7}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}
	return c.ReadProperty(btypes.Device{Addr: peer, MaxApdu: 1476}, btypes.PropertyData{Object: o})
}

// alive: the client still serves requests, nothing but its receive loop is waiting, it can be closed.
func alive(l *fake.Link, c bacnet.Client) {
	got, err := read(c)
	sym.Assert(err == nil, "the client serves later requests")
	v, ok := got.Object.Properties[0].Data.(uint32)
	sym.Assert(ok && v == 42, "with the right answer")
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	l.Stop(c)
	sym.Reach("end")
}

func idle(data ...[]byte) {
	l := fake.New()
	c := l.Client()
	serve(l, nil, nil)
	l.Run(c)
	for _, d := range data {
		l.Put(peer, d)
	}
	sym.Assert(sym.Quiesce() == 0, "a datagram that belongs to no request is done with at once")
	alive(l, c)
}

// Any octets.
func Any() {
	idle(sym.Bytes("datagram", sym.Choose("octets", sym.Bound("octets of a datagram", 12, 13))))
}

// Headed datagrams have a BVLC header of one of the functions that are looked at.
func Headed() {
	n := sym.Choose("octets", sym.Bound("octets after the header", 12, 12))
	b := sym.Bytes("npdu", n)
	fn := []byte{0x04, 0x0A, 0x0B}[sym.Choose("function", 3)]
	if fn == 4 {
		b = ref.Cat(sym.Bytes("origin", 6), b)
	}
	if n > 6 && b[len(b)-n+1]&0x80 == 0 && b[len(b)-n+2]>>4 == 5 {
		sym.Assume(false) // ErrorPDU is about these
	}
	idle(ref.Cat([]byte{0x81, fn, 0, byte(4 + len(b))}, b))
}

// LongAddress: source and destination with addresses of any length, whether they fit or not.
func LongAddress() {
	var control byte
	var b []byte
	dst, src := sym.Choose("with destination", 2), sym.Choose("with source", 2)
	lens := []int{0, 1, 6, 7, 20, 255}
	n := len(lens)
	if dst == 1 {
		control |= 0x20
		k := lens[sym.Choose("destination octets", n)]
		b = ref.Cat(b, sym.Bytes("dnet", 2), []byte{byte(k)}, sym.Bytes("dadr", k))
	}
	if src == 1 {
		control |= 0x08
		k := lens[sym.Choose("source octets", n)]
		b = ref.Cat(b, sym.Bytes("snet", 2), []byte{byte(k)}, sym.Bytes("sadr", k))
	}
	if dst == 1 {
		b = append(b, sym.Byte("hops"))
	}
	control |= []byte{0, 0x80}[sym.Choose("network message", 2)]
	b = ref.Cat([]byte{1, control | sym.Byte("priority")&3}, b)
	if control&0x80 != 0 {
		b = append(b, sym.Byte("message"))
		b = ref.Cat(b, sym.Bytes("contents", sym.Choose("contents octets", 4)))
	} else {
		b = ref.Cat(b, []byte{0x10, 0}, ref.AppID(8, 1), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
	}
	cut := 0
	if len(b) > 4 {
		cut = []int{0, 1, 2, 5}[sym.Choose("octets missing", 4)]
	}
	if cut >= len(b) {
		cut = 0
	}
	idle(ref.Frame(0x0A, b[:len(b)-cut]))
}

// ErrorPDU of any contents, for a transaction or none.
func ErrorPDU() {
	b := ref.Cat([]byte{0x50, sym.Byte("invoke"), sym.Byte("service")}, ref.AppEnum(uint32(sym.Byte("class"))), ref.AppEnum(uint32(sym.Choose("code", 3))))
	if sym.Choose("tagged", 2) == 1 {
		b = ref.Cat(b[:3], ref.Open(0), b[3:], ref.Close(0))
	}
	b = b[:len(b)-sym.Choose("octets missing", 4)]
	idle(ref.Frame(0x0A, ref.Cat([]byte{1, 0}, b)))
}

// Addresses: the sender's address is of any form.
func Addresses() {
	l := fake.New()
	c := l.Client()
	mac := sym.Bytes("mac", []int{0, 1, 4, 5, 6, 7, 18}[sym.Choose("octets of the address", 7)])
	iam := ref.Cat([]byte{0x10, 0}, ref.AppID(8, 1), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
	serve(l, nil, func() {
		l.Put(btypes.Address{Mac: mac, MacLen: uint8(len(mac))}, ref.Frame(0x0B, ref.Cat([]byte{1, 0}, iam)))
	})
	l.Run(c)
	devs, err := c.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 2})
	sym.Assert(err == nil && len(devs) == 1, "the device is found")
	alive(l, c)
}

const (
	anyAck = iota
	anyError
	whoIs
	badWhoIs
	iAm
	badIAm
	networkIs
	router
	confirmed
	abort
	forwarded
	short
	empty
	kinds
)

// noise is a datagram of that kind.
func noise(kind int) []byte {
	id := sym.Byte("invoke")
	var apdu []byte
	switch kind {
	case anyAck:
		apdu = []byte{[]byte{0x20, 0x30}[sym.Choose("ack", 2)], id, sym.Byte("service")}
	case anyError:
		apdu = ref.Error(id, sym.Byte("service"), 2, 31)
	case whoIs:
		apdu = ref.Cat([]byte{0x10, 8}, ref.Ctx(0, sym.Bytes("low", 1)), ref.Ctx(1, sym.Bytes("high", 1)))
	case badWhoIs:
		apdu = []byte{0x10, 8, 0x09}
	case iAm:
		apdu = ref.Cat([]byte{0x10, 0}, ref.AppID(8, sym.U32("instance")&0x3FFFFF), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
	case badIAm:
		apdu = ref.Cat([]byte{0x10, 0}, ref.AppID(8, 1), ref.AppUint(480))
	case networkIs:
		return ref.Frame(0x0B, []byte{1, 0x80, 0x13, sym.Byte("net"), sym.Byte("net"), 1}[:5+sym.Choose("with flag", 2)])
	case router:
		return ref.Frame(0x0B, ref.Cat([]byte{1, 0x80, 0x01}, sym.Bytes("nets", sym.Choose("octets of networks", 4))))
	case confirmed:
		apdu = ref.Cat(ref.Confirmed(0x05, id, sym.Byte("service")), ref.Ctx(0, ref.ID(2, 7)))
	case abort:
		apdu = []byte{0x60 | byte(sym.Choose("abort", 2))<<4, id, 4}
	case forwarded:
		return ref.Frame(0x04, sym.Bytes("forwarded", sym.Choose("octets of forwarded", 3)*4))
	case short:
		return sym.Bytes("short", sym.Choose("octets", 4))
	case empty:
		return ref.Frame(0x0B, []byte{1, 0}[:sym.Choose("octets of nothing", 3)])
	}
	return ref.Frame([]byte{0x0A, 0x0B}[sym.Choose("broadcast", 2)], ref.Cat([]byte{1, 0}, apdu))
}

// Sequence while idle.
func Sequence() {
	n := 1 + sym.Choose("datagrams", sym.Bound("datagrams", 2, 3))
	var ds [][]byte
	for i := 0; i < n; i++ {
		ds = append(ds, noise(sym.Choose("kind", kinds)))
	}
	idle(ds...)
}

// Outstanding: a datagram that comes while a request is waiting for its answer.
func Outstanding() {
	kind := sym.Choose("kind", kinds)
	l := fake.New()
	c := l.Client()
	mine := false
	serve(l, func(invoke byte) {
		if mine {
			return // the later request
		}
		d := noise(kind)
		if len(d) > 7 && d[1] != 4 && kind != networkIs && kind != router && kind != short && kind != empty && d[7] == invoke {
			mine = true // it may be taken for an answer
		}
		l.Put(peer, d)
	}, nil)
	l.Run(c)
	_, err := read(c)
	sym.Assert(err == nil || mine, "a datagram that is no answer does not disturb the request")
	mine = true
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	alive(l, c)
}

// Discovering: datagrams that come while a discovery is listening.
func Discovering() {
	n := 1 + sym.Choose("datagrams", sym.Bound("datagrams while discovering", 1, 2))
	which := sym.Choose("discovery", 3)
	l := fake.New()
	c := l.Client()
	serve(l, nil, func() {
		for i := 0; i < n; i++ {
			l.Put(peer, noise(sym.Choose("kind", kinds)))
		}
	})
	l.Run(c)
	switch which {
	case 0:
		_, err := c.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1})
		sym.Assert(err == nil, "no error")
	case 1:
		c.WhatIsNetworkNumber()
	case 2:
		c.WhoIsRouterToNetwork()
	}
	alive(l, c)
}

// Concurrent: datagrams handled at the same time as requests, in any order within the bound.
func Concurrent() {
	sym.Race()
	n := 1 + sym.Choose("datagrams", 2)
	if n == 1 {
		sym.Preempt(sym.Bound("preemptions, one datagram", 1, 2), 0)
	} else {
		sym.Preempt(sym.Bound("preemptions, two datagrams", 0, 1), 0)
	}
	l := fake.New()
	c := l.Client()
	serve(l, nil, nil)
	l.Run(c)
	mayFail := false
	for i := 0; i < n; i++ {
		// the first transaction has the id 1
		var apdu []byte
		switch sym.Choose("kind", 4) {
		case 0:
			apdu, mayFail = []byte{0x20, 1, 15}, true
		case 1:
			apdu, mayFail = ref.Error(1, 12, 2, 31), true
		case 2:
			apdu = []byte{0x20, 2, 15}
		case 3:
			apdu = ref.Cat([]byte{0x10, 0}, ref.AppID(8, 9), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
		}
		l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0}, apdu)))
	}
	_, err := read(c)
	sym.Assert(err == nil || mayFail, "a datagram that is no answer does not disturb the request")
	l.Stop(c)
	sym.Reach("end")
}

// Forwarded packets are attributed to the device that originated them, routed ones to network and
// address behind the router.
func Forwarded() {
	l := fake.New()
	c := l.Client()
	origin := sym.Bytes("origin", 6)
	fwd := sym.Choose("forwarded", 2) == 1
	n := sym.Choose("source octets", 4)
	routed := n > 0 || sym.Choose("source", 2) == 1 // a source without an address is none of a device
	iam := ref.Cat([]byte{0x10, 0}, ref.AppID(8, 1), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
	head := []byte{1, 0}
	net := uint16(0)
	var adr []byte
	if routed {
		net, adr = sym.U16("net"), sym.Bytes("adr", n)
		sym.Assume(net != 0)
		head = ref.Cat([]byte{1, 8}, ref.U16(net), []byte{byte(n)}, adr)
	}
	mac := peer.Mac
	if fwd {
		mac = origin
	}
	serve(l, nil, func() {
		if fwd {
			l.Put(peer, ref.Frame(0x04, ref.Cat(origin, head, iam)))
		} else {
			l.Put(peer, ref.Frame(0x0B, ref.Cat(head, iam)))
		}
	})
	l.Run(c)
	devs, err := c.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 2})
	sym.Assert(err == nil, "no error")
	sym.Assert(len(devs) == 1, "the device is found")
	d := devs[0]
	sym.Assert(ref.Same(d.Addr.Mac, mac), "at the station the packet originates from")
	sym.Assert(d.Addr.Net == net && ref.Same(d.Addr.Adr, adr), "on its network, with its address there")
	alive(l, c)
}

// Many datagrams of one kind, or of two in turn.
func Many() {
	sym.Preempt(-1, 0)
	sym.Steps(200000000)
	a, b := noise(sym.Choose("kind", kinds)), []byte(nil)
	if sym.Choose("other", 2) == 1 {
		b = noise(iAm)
	}
	l := fake.New()
	c := l.Client()
	serve(l, nil, nil)
	l.Run(c)
	for i := sym.Bound("datagrams in a row", 1040, 2400); i > 0; i-- {
		l.Put(peer, a)
		if b != nil {
			l.Put(peer, b)
		}
		if i%8 == 0 {
			sym.Settle()
		}
	}
	sym.Assert(sym.Quiesce() == 0, "a datagram that belongs to no request is done with at once")
	alive(l, c)
}

// Large datagrams with anything at the beginning and end.
func Large() {
	n := []int{200, 1476, 1493, 2044, 4000}[sym.Choose("octets", sym.Bound("sizes", 3, 5))]
	b := make([]byte, n)
	fill := []byte{0, 0x0E, 0x2E, 0xFF}[sym.Choose("filled with", 4)]
	for i := range b {
		b[i] = fill
	}
	k := sym.Bound("first octets", 4, 5)
	copy(b, sym.Bytes("first", k))
	copy(b[n-2:], sym.Bytes("last", 2))
	idle(ref.Frame([]byte{0x04, 0x0A}[sym.Choose("forwarded", 2)], b))
}
