// Package c37: discovery returns each answering device once, with its own data.
package c37

import (
	"net"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const max = 4194303

// iam is an I-Am as it arrives.
type iam struct {
	typ    uint16
	inst   uint32
	apdu   uint32
	seg    byte
	vendor uint16
	from   []byte // station
	net    uint16
	adr    []byte
	fwd    bool
}

func (a iam) packet() []byte {
	head := []byte{1, 0}
	if a.net != 0 {
		head = ref.Cat([]byte{1, 8}, ref.U16(a.net), []byte{byte(len(a.adr))}, a.adr)
	}
	b := ref.Cat(head, []byte{0x10, 0}, ref.AppID(a.typ, a.inst), ref.AppUint(a.apdu), ref.AppEnum(uint32(a.seg)), ref.AppUint(uint32(a.vendor)))
	if a.fwd {
		return ref.Frame(0x04, ref.Cat(a.from, b))
	}
	return ref.Frame(0x0B, b)
}

// simple is an I-Am of a device with that instance; the station tells which answer it was.
func simple(inst uint32, n byte) iam {
	return iam{typ: 8, inst: inst, apdu: 480, seg: 3, vendor: 5, from: []byte{10, 0, 0, 20 + n, 0xBA, 0xC0}}
}

// is tells if a device carries the data of the answer.
func is(d btypes.Device, a iam) {
	sym.Assert(uint16(d.ID.Type) == a.typ && uint32(d.ID.Instance) == a.inst && d.DeviceID == int(a.inst), "its identifier")
	sym.Assert(d.MaxApdu == a.apdu, "its APDU size")
	sym.Assert(byte(d.Segmentation) == a.seg, "its segmentation")
	sym.Assert(d.Vendor == uint32(a.vendor), "its vendor")
	sym.Assert(ref.Same(d.Addr.Mac, a.from), "the station it answered from")
	sym.Assert(d.Addr.Net == a.net && d.NetworkNumber == int(a.net), "its network number")
	mac := 0
	if len(a.adr) > 0 {
		mac = int(a.adr[0])
	}
	sym.Assert(ref.Same(d.Addr.Adr, a.adr) && d.MacMSTP == mac, "its MS/TP address")
	sym.Assert(d.Port == int(a.from[4])<<8|int(a.from[5]), "its port")
	sym.Assert(d.Ip == net.IPv4(a.from[0], a.from[1], a.from[2], a.from[3]).String(), "its IP address")
}

// discover runs a discovery during which the packets arrive in this order.
func discover(lo, hi int, ps ...iam) []btypes.Device {
	devs, _ := observe(lo, hi, ps...)
	return devs
}

func observe(lo, hi int, ps ...iam) ([]btypes.Device, []fake.Frame) {
	l := fake.New()
	c := l.Client()
	l.OnSend = func(fake.Frame) error {
		for _, p := range ps {
			src := fake.Mac(p.from...)
			if p.fwd {
				src = fake.Mac(10, 0, 0, 1, 0xBA, 0xC0)
			}
			l.Put(src, p.packet())
			sym.Settle()
		}
		return nil
	}
	l.Run(c)
	devs, err := c.WhoIs(&bacnet.WhoIsOpts{Low: lo, High: hi})
	sym.Assert(err == nil, "no error")
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	l.Stop(c)
	return devs, l.Sent()
}

// Data of one device of any description.
func Data() {
	a := iam{typ: 8, inst: sym.U32("instance"), apdu: sym.U32("max apdu"), seg: sym.Byte("segmentation"), vendor: sym.U16("vendor"), from: sym.Bytes("from", 6)}
	sym.Assume(a.inst <= max && a.seg <= 3)
	for i := 0; i < 4; i++ {
		// the text of an address is enumerated, so a part of the octets only
		if i != sym.Bound("octet of the IP address", 3, 3) {
			a.from[i] = byte(10 * i)
		}
	}
	if n := sym.Choose("octets of the address", sym.Bound("octets of an MS/TP address", 3, 8)); n > 0 {
		a.net, a.adr = sym.U16("net"), sym.Bytes("adr", n)
		sym.Assume(a.net != 0)
	}
	a.fwd = sym.Choose("forwarded", 2) == 1
	all := []int{0, -1}[sym.Choose("range", 2)]
	devs := discover(all, all, a)
	sym.Assert(len(devs) == 1, "the device is found")
	is(devs[0], a)
	sym.Reach("end")
}

// Range: all limits and instances.
func Range() {
	lo, hi := sym.U32("low"), sym.U32("high")
	sym.Assume(lo <= hi && hi <= max && hi >= 1)
	n := 1 + sym.Choose("devices", sym.Bound("devices", 2, 3))
	var ps []iam
	for i := 0; i < n; i++ {
		inst := sym.U32("instance")
		sym.Assume(inst <= max)
		ps = append(ps, simple(inst, byte(i)))
	}
	devs := discover(int(lo), int(hi), ps...)
	expect(devs, ps, lo, hi)
	sym.Reach("end")
}

// expect: the first answer of every instance in the range, nothing else.
func expect(devs []btypes.Device, ps []iam, lo, hi uint32) {
	k := 0
	for i, p := range ps {
		if p.inst < lo || p.inst > hi {
			continue
		}
		dup := false
		for _, q := range ps[:i] {
			if q.inst == p.inst {
				dup = true
			}
		}
		if dup {
			continue
		}
		sym.Assert(k < len(devs), "every device in the range is found")
		found := 0
		for _, d := range devs {
			if uint32(d.ID.Instance) == p.inst {
				is(d, p)
				found++
			}
		}
		sym.Assert(found == 1, "each device once")
		k++
	}
	sym.Assert(k == len(devs), "no other device is returned")
}

// All: the forms of asking every device.
func All() {
	all := []int{0, -1, bacnet.ArrayAll}[sym.Choose("range", 3)]
	var ps []iam
	for i := 0; i < 2; i++ {
		inst := sym.U32("instance")
		sym.Assume(inst <= max)
		ps = append(ps, simple(inst, byte(i)))
	}
	devs, sent := observe(all, all, ps...)
	expect(devs, ps, 0, max)
	sym.Assert(len(sent) == 1 && len(sent[0].Data) == 8, "the question has no limits")
	sym.Reach("end")
}

// Half open ranges.
func Half() {
	lim := sym.U32("limit")
	sym.Assume(lim >= 1 && lim <= max)
	inst := sym.U32("instance")
	sym.Assume(inst <= max)
	ps := []iam{simple(inst, 0)}
	if sym.Choose("from", 2) == 1 {
		none := []int{0, -1}[sym.Choose("no limit", 2)]
		expect(discover(int(lim), none, ps...), ps, lim, max)
	} else {
		none := []int{0, -1}[sym.Choose("no limit", 2)]
		expect(discover(none, int(lim), ps...), ps, 0, lim)
	}
	sym.Reach("end")
}

// Duplicates with other data, from other stations.
func Duplicates() {
	n := sym.Bound("answers", 3, 4)
	var ps []iam
	for i := 0; i < n; i++ {
		p := simple(uint32(1+sym.Choose("instance", 2)), byte(i))
		p.apdu, p.vendor = sym.U32("max apdu"), sym.U16("vendor")
		if sym.Choose("routed", 2) == 1 {
			p.net, p.adr = uint16(i+1), sym.Bytes("adr", 1)
		}
		ps = append(ps, p)
	}
	expect(discover(1, 2, ps...), ps, 1, 2)
	sym.Reach("end")
}

// Others: messages that are no I-Am, or a wrong one, are ignored.
func Others() {
	l := fake.New()
	c := l.Client()
	p := simple(7, 0)
	wrong := sym.Choose("message", 8)
	first := sym.Choose("first", 2)
	l.OnSend = func(fake.Frame) error {
		var m []byte
		switch wrong {
		case 0: // no device
			q := simple(6, 1)
			q.typ = sym.U16("type")
			sym.Assume(q.typ <= 1023 && q.typ != 8)
			m = q.packet()
		case 1: // too short
			m = simple(6, 1).packet()
			m = m[:len(m)-1-sym.Choose("octets missing", 6)]
		case 2: // a network number
			m = ref.Frame(0x0B, []byte{1, 0x80, 0x13, 0, sym.Byte("net"), 1})
		case 3: // networks
			m = ref.Frame(0x0B, []byte{1, 0x80, 0x01, 0, sym.Byte("net"), 0, sym.Byte("net")})
		case 4: // I-Have and other unconfirmed services
			m = ref.Frame(0x0B, ref.Cat([]byte{1, 0, 0x10, 1 + byte(sym.Choose("service", 9))}, ref.AppID(8, 6), ref.AppID(8, 6)))
		case 5:
			m = ref.Frame(0x0A, []byte{1, 0, 0x20, sym.Byte("invoke"), 0})
		case 6:
			m = ref.Frame(0x0B, ref.Cat([]byte{1, 0, 0x10, 8}))
		case 7:
			m = ref.Frame(0x0A, ref.Cat([]byte{1, 0}, ref.Confirmed(5, 1, 0), simple(6, 1).packet()[8:]))
		}
		if first == 0 {
			l.Put(fake.Mac(p.from...), p.packet())
		}
		l.Put(fake.Mac(10, 0, 0, 77, 0xBA, 0xC0), m)
		if first == 1 {
			l.Put(fake.Mac(p.from...), p.packet())
		}
		return nil
	}
	l.Run(c)
	devs, err := c.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 7})
	sym.Assert(err == nil, "no error")
	for _, d := range devs {
		// the identifier of an I-Am with another object type is not a device
		if d.ID.Type == 8 {
			is(d, p)
		}
	}
	n := 0
	for _, d := range devs {
		if d.ID.Type == 8 {
			n++
		}
	}
	sym.Assert(n == 1, "the device is found, once, and no other")
	l.Stop(c)
	sym.Reach("end")
}

// Many devices answer at the same time.
func Many() {
	n := []int{5, 40, 66, 130, 258, 300, 1030}[sym.Choose("devices", sym.Bound("numbers of devices", 7, 7))]
	sym.Steps(60_000_000)
	base := uint32(4000000)
	if n < 200 {
		base = sym.U32("first instance")
		sym.Assume(base >= 1 && base <= max-400)
	}
	var ps []iam
	for i := 0; i < n; i++ {
		ps = append(ps, iam{typ: 8, inst: base + uint32(i), apdu: 480, vendor: 1, from: []byte{10, 0, byte(i / 200), byte(i % 200), 0xBA, 0xC0}})
	}
	devs := discover(int(base), int(base)+n-1, ps...)
	sym.Assert(len(devs) == n, "every device is found once")
	for i, d := range devs {
		sym.Assert(uint32(d.ID.Instance) == base+uint32(i), "with its identifier")
		sym.Assert(ref.Same(d.Addr.Mac, ps[i].from), "at its station")
	}
	sym.Reach("end")
}

// Twice: what one discovery heard, the next does not know, and two at a time both hear it.
func Twice() {
	sym.Race()
	l := fake.New()
	c := l.Client()
	a, b := simple(sym.U32("instance"), 0), simple(sym.U32("instance"), 1)
	sym.Assume(a.inst <= max && b.inst <= max)
	together := sym.Choose("together", 2) == 1
	sends := 0
	l.OnSend = func(fake.Frame) error {
		sends++
		if !together && sends == 1 {
			l.Put(fake.Mac(a.from...), a.packet())
		}
		if sends == 2 {
			l.Put(fake.Mac(b.from...), b.packet())
		}
		return nil
	}
	l.Run(c)
	found := make(chan []btypes.Device, 2)
	opts := &bacnet.WhoIsOpts{Low: -1, High: -1, GlobalBroadcast: sym.Choose("global", 2) == 1}
	ask := func() {
		devs, err := c.WhoIs(opts)
		sym.Assert(err == nil, "no error")
		found <- devs
	}
	if together {
		go ask()
		go ask()
		for i := 0; i < 2; i++ {
			expect(<-found, []iam{b}, 0, max)
		}
	} else {
		ask()
		ask()
		expect(<-found, []iam{a}, 0, max)
		expect(<-found, []iam{b}, 0, max)
	}
	l.Stop(c)
	sym.Reach("end")
}
