// Package c34: every request the client sends is a correct frame to the right destination.
package c34

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const (
	unicast   = 0x0A
	broadcast = 0x0B
)

var notSent = errors.New("not sent")

// link refuses to send after it has recorded the datagram, so that the operations end at once.
func link() (*fake.Link, bacnet.Client) {
	l := fake.New()
	l.OnSend = func(fake.Frame) error { return notSent }
	return l, l.Client()
}

// npdu is the network layer header of clause 6.2: version, control, destination, hop count.
func npdu(reply bool, net uint16, adr []byte) []byte {
	var control byte
	if reply {
		control |= 0x04
	}
	if net == 0 {
		return []byte{1, control}
	}
	return ref.Cat([]byte{1, control | 0x20}, ref.U16(net), []byte{byte(len(adr))}, adr, []byte{255})
}

// dest is a device's address: on this network or behind a router, with or without an MS/TP address.
func dest() btypes.Address {
	a := btypes.Address{Mac: sym.Bytes("mac", 6)}
	if sym.Choose("remote", 2) == 1 {
		a.Net = sym.U16("net")
		sym.Assume(a.Net != 0 && a.Net != 0xFFFF)
		a.Adr = sym.Bytes("adr", 1+sym.Choose("adr octets", sym.Bound("MS/TP address octets", 3, 8)))
	} else {
		a.Adr = sym.Bytes("adr", sym.Choose("adr octets", 2))
		if len(a.Adr) == 0 {
			a.MacLen = 6
		}
	}
	switch sym.Choose("length fields", 3) {
	case 0:
		a.MacLen = 6
	case 1:
		a.Len = uint8(len(a.Adr))
	case 2:
		a.MacLen = 6
		a.Len = uint8(len(a.Adr))
	}
	return a
}

// toDevice checks the datagrams of one request; service request is what follows the invoke id.
func toDevice(l *fake.Link, a btypes.Address, apdu []byte) {
	fs := l.Sent()
	sym.Assert(len(fs) > 0, "the request is sent")
	var first byte
	for i, f := range fs {
		sym.Assert(ref.Same(f.Dest.Mac, a.Mac), "it goes to the device's address")
		head := ref.Cat(npdu(true, a.Net, a.Adr), []byte{0x00, 0x05})
		sym.Assert(len(f.Data) > 4+len(head), "framing, network layer header, request")
		id := f.Data[4+len(head)]
		sym.Assert(id >= 1 && id <= 254, "an invoke id")
		if i == 0 {
			first = id
		}
		sym.Assert(id == first, "the same for every attempt")
		want := ref.Frame(unicast, ref.Cat(head, []byte{id}, apdu))
		sym.Observe("frame", f.Data)
		sym.Assert(ref.Same(f.Data, want), "framing, network layer header, request")
	}
}

func object() (btypes.Object, []byte) {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ <= 1023 && inst <= 0x3FFFFF && typ != 4 && typ != 5)
	return btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}}, ref.Ctx(0, ref.ID(typ, inst))
}

func property() btypes.Property {
	p := btypes.Property{Type: btypes.PropertyType(sym.U32("property")), ArrayIndex: btypes.ArrayAll}
	sym.Assume(uint32(p.Type) <= 0x3FFFFF)
	if sym.Choose("with index", 2) == 1 {
		p.ArrayIndex = sym.U32("index")
		sym.Assume(p.ArrayIndex != btypes.ArrayAll)
	}
	return p
}

func index(tag byte, p btypes.Property) []byte {
	if p.ArrayIndex == btypes.ArrayAll {
		return nil
	}
	return ref.Ctx(tag, ref.Uint(p.ArrayIndex))
}

// Read is ReadProperty.
func Read() {
	l, c := link()
	a := dest()
	o, ob := object()
	p := property()
	o.Properties = []btypes.Property{p}
	_, err := c.ReadProperty(btypes.Device{Addr: own(a), MaxApdu: sym.U32("max apdu")}, btypes.PropertyData{Object: o})
	sym.Assert(err != nil, "a request that is not sent fails")
	toDevice(l, a, ref.Cat([]byte{12}, ob, ref.Ctx(1, ref.Uint(uint32(p.Type))), index(2, p)))
	sym.Reach("end")
}

// Write is WriteProperty.
func Write() {
	l, c := link()
	a := dest()
	o, ob := object()
	p := property()
	v := sym.F32("value")
	p.Data = v
	var prio []byte
	if sym.Choose("with priority", 2) == 1 {
		p.Priority = btypes.NPDUPriority(1 + sym.Choose("priority", 16))
		prio = ref.Ctx(4, []byte{byte(p.Priority)})
	}
	o.Properties = []btypes.Property{p}
	err := c.WriteProperty(btypes.Device{Addr: own(a)}, btypes.PropertyData{Object: o})
	sym.Assert(err != nil, "a request that is not sent fails")
	toDevice(l, a, ref.Cat([]byte{15}, ob, ref.Ctx(1, ref.Uint(uint32(p.Type))), index(2, p), ref.Open(3), ref.AppReal(v), ref.Close(3), prio))
	sym.Reach("end")
}

// ReadMulti is ReadPropertyMultiple.
func ReadMulti() {
	l, c := link()
	a := dest()
	o, ob := object()
	p, q := property(), btypes.Property{Type: 77, ArrayIndex: btypes.ArrayAll}
	o.Properties = []btypes.Property{p, q}
	_, err := c.ReadMultiProperty(btypes.Device{Addr: own(a), MaxApdu: 1476}, btypes.MultiplePropertyData{Objects: []btypes.Object{o, o}})
	sym.Assert(err != nil, "a request that is not sent fails")
	one := ref.Cat(ob, ref.Open(1), ref.Ctx(0, ref.Uint(uint32(p.Type))), index(1, p), ref.Ctx(0, []byte{77}), ref.Close(1))
	toDevice(l, a, ref.Cat([]byte{14}, one, one))
	sym.Reach("end")
}

// WriteMulti is WritePropertyMultiple.
func WriteMulti() {
	l, c := link()
	a := dest()
	o, ob := object()
	p := property()
	v := sym.F32("value")
	p.Data = v
	var prio []byte
	if sym.Choose("with priority", 2) == 1 {
		p.Priority = btypes.NPDUPriority(1 + sym.Choose("priority", 16))
		prio = ref.Ctx(3, []byte{byte(p.Priority)})
	}
	o.Properties = []btypes.Property{p}
	err := c.WriteMultiProperty(btypes.Device{Addr: own(a), MaxApdu: 1476}, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	sym.Assert(err != nil, "a request that is not sent fails")
	toDevice(l, a, ref.Cat([]byte{16}, ob, ref.Open(1), ref.Ctx(0, ref.Uint(uint32(p.Type))), index(1, p), ref.Open(2), ref.AppReal(v), ref.Close(2), prio, ref.Close(1)))
	sym.Reach("end")
}

// one: the operation sent one datagram, this one.
func one(l *fake.Link, mac []byte, want []byte) {
	fs := l.Sent()
	sym.Assert(len(fs) == 1, "it is sent once")
	sym.Observe("frame", fs[0].Data)
	sym.Assert(ref.Same(fs[0].Dest.Mac, mac), "it goes to the right address")
	sym.Assert(ref.Same(fs[0].Data, want), "framing, network layer header, request")
}

// WhoIs is broadcast, here, on a remote network or everywhere.
func WhoIs() {
	l, c := link()
	l.Cast.Mac = sym.Bytes("broadcast", 6)
	lo, hi := sym.U32("low"), sym.U32("high")
	sym.Assume(lo <= hi && hi >= 1 && hi < 0x3FFFFF)
	w := &bacnet.WhoIsOpts{Low: int(lo), High: int(hi)}
	var net uint16
	switch sym.Choose("where", 3) {
	case 1:
		net = sym.U16("net")
		w.NetworkNumber = net
	case 2:
		net = 0xFFFF
		w.GlobalBroadcast = true
		w.NetworkNumber = sym.U16("net")
	}
	apdu := ref.Cat([]byte{0x10, 8}, ref.Ctx(0, ref.Uint(lo)), ref.Ctx(1, ref.Uint(hi)))
	_, err := c.WhoIs(w)
	sym.Assert(err != nil, "a request that is not sent fails")
	one(l, l.Cast.Mac, ref.Frame(broadcast, ref.Cat(npdu(false, net, nil), apdu)))
	sym.Reach("end")
}

// WhoIsAll asks all devices.
func WhoIsAll() {
	l, c := link()
	w := &bacnet.WhoIsOpts{}
	switch sym.Choose("form", 4) {
	case 1:
		w.Low, w.High = -1, -1
	case 2:
		w.Low, w.High = 0, 0
	case 3:
		w.Low, w.High = bacnet.ArrayAll, bacnet.ArrayAll
	}
	c.WhoIs(w)
	one(l, l.Cast.Mac, ref.Frame(broadcast, ref.Cat(npdu(false, 0, nil), []byte{0x10, 8})))
	sym.Reach("end")
}

// WhoIsRefused: limits that are no device instances are not asked for.
func WhoIsRefused() {
	l, c := link()
	w := &bacnet.WhoIsOpts{Low: int(sym.U32("low")), High: int(sym.U32("high"))}
	sym.Assume(w.Low > w.High && w.High > 0 && w.Low < 4194303)
	_, err := c.WhoIs(w)
	for _, f := range l.Sent() {
		sym.Assert(f.Data[1] == broadcast, "at most a broadcast")
	}
	sym.Assert(err != nil, "an error")
	sym.Reach("end")
}

// IAm goes to a device, to a network or to everybody.
func IAm() {
	l, c := link()
	inst, max, vendor, seg := sym.U32("instance"), sym.U32("max apdu"), sym.U16("vendor"), sym.Byte("segmentation")
	sym.Assume(inst <= 0x3FFFFF && seg <= 3)
	function := byte(unicast)
	var a btypes.Address
	switch sym.Choose("where", 4) {
	case 0:
		a = dest()
	case 1:
		a = btypes.Address{Mac: sym.Bytes("mac", 6)}
		function = broadcast
	case 2:
		a = btypes.Address{Net: 0xFFFF, Mac: sym.Bytes("mac", 6), MacLen: 6}
		function = broadcast
	case 3:
		a = btypes.Address{Net: sym.U16("net"), Mac: sym.Bytes("mac", 6), MacLen: 6}
		sym.Assume(a.Net != 0)
		function = broadcast
	}
	err := c.IAm(own(a), btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, MaxApdu: max, Segmentation: btypes.Enumerated(seg), Vendor: uint32(vendor)})
	sym.Assert(err != nil, "a request that is not sent fails")
	one(l, a.Mac, ref.Frame(function, ref.Cat(npdu(false, a.Net, a.Adr), []byte{0x10, 0}, ref.AppID(8, inst), ref.AppUint(max), ref.AppEnum(uint32(seg)), ref.AppUint(uint32(vendor)))))
	sym.Reach("end")
}

// Network queries are network layer messages without content.
func Network() {
	l, c := link()
	l.Cast.Mac = sym.Bytes("broadcast", 6)
	typ := byte(0x12)
	if sym.Choose("query", 2) == 0 {
		sym.Assert(len(c.WhatIsNetworkNumber()) == 0, "nothing is found")
	} else {
		typ = 0x00
		c.WhoIsRouterToNetwork()
	}
	one(l, l.Cast.Mac, ref.Frame(broadcast, []byte{1, 0x80, typ}))
	sym.Reach("end")
}

// Own: the client's own network number, if it has one, is the source.
func Own() {
	l, c := link()
	l.Me.Mac = sym.Bytes("my mac", 6)
	a := dest()
	o, ob := object()
	o.Properties = []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}
	c.ReadProperty(btypes.Device{Addr: own(a)}, btypes.PropertyData{Object: o})
	c.ReadProperty(btypes.Device{Addr: own(a)}, btypes.PropertyData{Object: o})
	fs := l.Sent()
	sym.Assert(len(fs) == 2, "two requests")
	for _, f := range fs {
		sym.Assert(ref.Same(f.Dest.Mac, a.Mac), "it goes to the device's address")
		head := ref.Cat(npdu(true, a.Net, a.Adr), []byte{0x00, 0x05})
		sym.Assert(ref.Same(f.Data, ref.Frame(unicast, ref.Cat(head, []byte{f.Data[4+len(head)], 12}, ob, ref.Ctx(1, []byte{85})))), "framing, network layer header, request")
	}
	sym.Reach("end")
}

// Long: a request of several hundred octets.
func Long() {
	l, c := link()
	a := dest()
	s := ""
	for i := sym.Choose("octets", 3) * 100; i >= 0; i-- {
		s += "x"
	}
	s += sym.Str("text", 2)
	sym.Assume(s[len(s)-1] < 0x80 && s[len(s)-2] < 0x80)
	p := btypes.Property{Type: 28, ArrayIndex: btypes.ArrayAll, Data: s}
	o, ob := object()
	o.Properties = []btypes.Property{p}
	c.WriteProperty(btypes.Device{Addr: own(a)}, btypes.PropertyData{Object: o})
	toDevice(l, a, ref.Cat([]byte{15}, ob, ref.Ctx(1, []byte{28}), ref.Open(3), ref.AppString(s), ref.Close(3)))
	sym.Reach("end")
}

// LongAddress: a device behind a router may have an address of up to 255 octets.
func LongAddress() {
	l, c := link()
	n := []int{9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255}[sym.Choose("adr octets", 13)]
	a := btypes.Address{Mac: sym.Bytes("mac", 6), Net: sym.U16("net"), Adr: sym.Bytes("adr", n)}
	sym.Assume(a.Net != 0 && a.Net != 0xFFFF)
	switch sym.Choose("length fields", 3) {
	case 0:
		a.MacLen = 6
	case 1:
		a.Len = uint8(n)
	case 2:
		a.MacLen, a.Len = 6, uint8(n)
	}
	p := btypes.Property{Type: 85, ArrayIndex: btypes.ArrayAll, Data: sym.F32("value")}
	o, ob := object()
	o.Properties = []btypes.Property{p}
	dev := btypes.Device{Addr: own(a), MaxApdu: 1476}
	switch sym.Choose("request", 3) {
	case 0:
		c.ReadProperty(dev, btypes.PropertyData{Object: o})
		toDevice(l, a, ref.Cat([]byte{12}, ob, ref.Ctx(1, []byte{85})))
	case 1:
		c.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
		toDevice(l, a, ref.Cat([]byte{14}, ob, ref.Open(1), ref.Ctx(0, []byte{85}), ref.Close(1)))
	case 2:
		c.WriteProperty(dev, btypes.PropertyData{Object: o})
		toDevice(l, a, ref.Cat([]byte{15}, ob, ref.Ctx(1, []byte{85}), ref.Open(3), ref.AppReal(p.Data.(float32)), ref.Close(3)))
	}
	sym.Reach("end")
}

// Oversized requests do not go out: no datagram has a length that its frame cannot announce.
func Oversized() {
	sym.Steps(200_000_000)
	l, c := link()
	a := btypes.Address{Mac: []byte{10, 0, 0, 9, 0xBA, 0xC0}, MacLen: 6}
	adr := sym.Choose("MS/TP address octets", 3)
	if adr > 0 {
		a.Net, a.Adr = 5, make([]byte, adr)
	}
	n := []int{65490, 65490 + 32, 70000, 131072}[sym.Choose("octets", sym.Bound("sizes beyond the largest frame", 3, 4))]
	if n < 65536 {
		n += sym.Choose("octets more", 32)
	}
	text := make([]byte, n)
	for i := range text {
		text[i] = 'x'
	}
	dev := btypes.Device{Addr: own(a), MaxApdu: 0xFFFFFFFF}
	p := btypes.Property{Type: 85, ArrayIndex: btypes.ArrayAll, Data: string(text)}
	o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 7}, Properties: []btypes.Property{p}}
	var err error
	if sym.Choose("multiple", 2) == 0 {
		err = c.WriteProperty(dev, btypes.PropertyData{Object: o})
	} else {
		err = c.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	}
	sym.Assert(err != nil, "a request that is not sent fails")
	fs := l.Sent()
	for _, f := range fs {
		sym.Assert(len(f.Data) < 65536, "a frame is not longer than it can say")
		sym.Assert(f.Data[2] == byte(len(f.Data)>>8) && f.Data[3] == byte(len(f.Data)), "the length of the frame")
		sym.Reach("sent")
	}
	sym.Assert(len(fs) > 0 || n >= 65490, "what fits is sent")
	sym.Reach("end")
}

// Together: requests that are made at the same time do not mix, nor do those made one after another.
func Together() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 0, 1), 0)
	l := fake.New()
	first := true
	l.OnSend = func(fake.Frame) error {
		if first {
			first = false
			sym.Settle()
		}
		return notSent
	}
	c := l.Client()
	var want [3][]byte
	var todo [3]func()
	kinds := sym.Choose("kinds", 3)
	for i := range todo {
		inst, prop, v := sym.U32("instance"), sym.Byte("property"), sym.F32("value")
		sym.Assume(inst <= 0x3FFFFF)
		o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(inst)}}
		o.Properties = []btypes.Property{{Type: btypes.PropertyType(prop), ArrayIndex: btypes.ArrayAll, Data: v}}
		a := btypes.Address{Mac: []byte{10, 0, 0, byte(20 + i), 0xBA, 0xC0}, MacLen: 6, Net: uint16(5 + i), Adr: []byte{byte(7 + i)}}
		head := ref.Cat([]byte{byte(i)}, npdu(true, a.Net, a.Adr), []byte{0, 5})
		d := btypes.Device{Addr: own(a), MaxApdu: 1476}
		switch (i + kinds) % 3 {
		case 0:
			todo[i] = func() { c.ReadProperty(d, btypes.PropertyData{Object: o}) }
			want[i] = ref.Cat(head, []byte{12}, ref.Ctx(0, ref.ID(2, inst)), ref.Ctx(1, []byte{prop}))
		case 1:
			todo[i] = func() { c.WriteProperty(d, btypes.PropertyData{Object: o}) }
			want[i] = ref.Cat(head, []byte{15}, ref.Ctx(0, ref.ID(2, inst)), ref.Ctx(1, []byte{prop}), ref.Open(3), ref.AppReal(v), ref.Close(3))
		case 2:
			todo[i] = func() { c.ReadMultiProperty(d, btypes.MultiplePropertyData{Objects: []btypes.Object{o}}) }
			want[i] = ref.Cat(head, []byte{14}, ref.Ctx(0, ref.ID(2, inst)), ref.Open(1), ref.Ctx(0, []byte{prop}), ref.Close(1))
		}
	}
	done := make(chan bool, 3)
	for i := 0; i < 2; i++ {
		do := todo[i]
		go func() {
			do()
			done <- true
		}()
	}
	<-done
	<-done
	todo[2]()
	var sent [3]int
	for _, f := range l.Sent() {
		i := int(f.Dest.Mac[3]) - 20
		sym.Assert(i >= 0 && i < 3, "it goes to one of the devices")
		sent[i]++
		n := 4 + len(npdu(true, 5, []byte{1})) + 2
		sym.Assert(len(f.Data) > n, "framing, network layer header, request")
		got := ref.Cat([]byte{byte(i)}, f.Data[4:n], f.Data[n+1:])
		sym.Assert(ref.Same(f.Data[:4], []byte{0x81, unicast, byte(len(f.Data) >> 8), byte(len(f.Data))}), "framing")
		sym.Assert(ref.Same(got, want[i]), "the request of that device, and nothing of another one")
	}
	sym.Assert(sent[0] > 0 && sent[1] > 0 && sent[2] > 0, "each request is sent")
	sym.Reach("end")
}

// Again: what one request sends does not depend on those before it; addresses stay what they are.
func Again() {
	l, c := link()
	l.Cast.Mac = sym.Bytes("broadcast", 6)
	cast := append([]byte(nil), l.Cast.Mac...)
	me := append([]byte(nil), l.Me.Mac...)
	inst, net := sym.U32("instance"), sym.U16("net")
	sym.Assume(inst >= 1 && inst < 0x3FFFFF && net != 0 && net != 0xFFFF)
	mac, adr := sym.Bytes("mac", 6), sym.Bytes("adr", 1+sym.Choose("adr octets", 2))
	device := btypes.Device{MaxApdu: 1476, Addr: btypes.Address{Net: net, Mac: append([]byte(nil), mac...), MacLen: 6, Adr: append([]byte(nil), adr...), Len: byte(len(adr))}}
	limits := ref.Cat([]byte{0x10, 8}, ref.Ctx(0, ref.Uint(inst)), ref.Ctx(1, ref.Uint(inst)))
	n := sym.Bound("requests", 3, 4)
	for i := 0; i < n; i++ {
		to, function := cast, byte(broadcast)
		var want []byte
		w := &bacnet.WhoIsOpts{Low: int(inst), High: int(inst)}
		var opts bacnet.WhoIsOpts
		ask := func() {
			opts = *w
			c.WhoIs(w)
			sym.Assert(*w == opts, "the caller's options stay as they are")
		}
		switch kind := sym.Choose("request", 7); kind {
		case 0:
			ask()
			want = ref.Cat(npdu(false, 0, nil), limits)
		case 1:
			w.NetworkNumber = net
			ask()
			want = ref.Cat(npdu(false, net, nil), limits)
		case 2:
			w.GlobalBroadcast = true
			w.NetworkNumber = []uint16{0, net}[sym.Choose("number given", 2)]
			ask()
			want = ref.Cat(npdu(false, 0xFFFF, nil), limits)
		case 3:
			c.WhatIsNetworkNumber()
			want = []byte{1, 0x80, 0x12}
		case 4:
			c.WhoIsRouterToNetwork()
			want = []byte{1, 0x80, 0x00}
		case 5:
			c.IAm(btypes.Address{Net: 0xFFFF, Mac: mac, MacLen: 6}, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, MaxApdu: 480, Segmentation: 3, Vendor: 1})
			to, want = mac, ref.Cat(npdu(false, 0xFFFF, nil), []byte{0x10, 0}, ref.AppID(8, inst), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1))
		case 6:
			o := btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(inst)}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}
			c.ReadProperty(device, btypes.PropertyData{Object: o})
			to, function = mac, unicast
			want = ref.Cat(npdu(true, net, adr), []byte{0x00, 0x05})
		}
		fs := l.Sent()
		sym.Assert(len(fs) == i+1, "each request is sent once")
		f := fs[i]
		if function == unicast {
			at := 4 + len(want)
			sym.Assert(len(f.Data) > at, "framing, network layer header, request")
			want = ref.Cat(want, []byte{f.Data[at], 12}, ref.Ctx(0, ref.ID(2, inst)), ref.Ctx(1, []byte{85}))
		}
		sym.Assert(ref.Same(f.Dest.Mac, to), "it goes where it belongs")
		sym.Assert(ref.Same(f.Data, ref.Frame(function, want)), "framing, network layer header, request")
	}
	sym.Assert(ref.Same(l.Cast.Mac, cast) && l.Cast.Net == 0 && len(l.Cast.Adr) == 0 && ref.Same(l.Me.Mac, me), "the link's addresses")
	sym.Assert(ref.Same(device.Addr.Mac, mac) && ref.Same(device.Addr.Adr, adr), "the device's address")
	sym.Reach("end")
}

// own is a copy of the address that the client may do with as it likes.
func own(a btypes.Address) btypes.Address {
	a.Mac = append([]byte(nil), a.Mac...)
	a.Adr = append([]byte(nil), a.Adr...)
	return a
}
