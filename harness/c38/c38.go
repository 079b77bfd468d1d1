// Package c38: object discovery returns exactly the device's objects with their names.
package c38

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

var peer = fake.Mac(10, 0, 0, 9, 0xBA, 0xC0)

const instance = 77 // of the device

type object struct {
	typ               uint16
	inst              uint32
	name, description string
}

func (o object) id() []byte { return ref.ID(o.typ, o.inst) }

// device answers requests about its objects.
type device struct {
	objs  []object
	count []byte // what it answers for the length of the list, if set
	asked []int  // how often for each index of the list
	// alter changes the contents of the n-th answer
	alter func(n int, q question, a []answer) []answer
	n     int
	last  []byte // the last request
}

// answer is what comes back for one object.
type answer struct {
	id    []byte
	props []property
}

type property struct {
	prop  byte
	index []byte // nil: none
	value []byte
	fault bool
}

type question struct {
	service byte
	list    bool
}

func (p property) wire(idTag byte) []byte {
	b := ref.Ctx(idTag, []byte{p.prop})
	if p.index != nil {
		b = ref.Cat(b, ref.Ctx(idTag+1, p.index))
	}
	if p.fault {
		return ref.Cat(b, ref.Open(5), p.value, ref.Close(5))
	}
	return ref.Cat(b, ref.Open(idTag+2), p.value, ref.Close(idTag+2))
}

// answer one request.
func (d *device) answer(l *fake.Link, f fake.Frame) {
	b := f.Data[4:]
	sym.Assert(b[0] == 1 && b[1] == 4, "a request to a device on this network")
	invoke, service := b[4], b[5]
	b = b[6:]
	again := ref.Same(b, d.last) // a second try
	d.last = b
	if again {
		d.n--
	}
	var as []answer
	q := question{service: service}
	if service == 12 {
		sym.Assert(ref.Same(b, ref.Cat(ref.Ctx(0, ref.ID(8, instance)), ref.Ctx(1, []byte{76}), ref.Ctx(2, []byte{0}))), "the length of the object list")
		n := d.count
		if n == nil {
			n = ref.AppUint(uint32(len(d.objs)))
		}
		as = []answer{{ref.ID(8, instance), []property{{prop: 76, index: []byte{0}, value: n}}}}
		q.list = true
	} else {
		sym.Assert(service == 14, "a read")
		for len(b) > 0 {
			sym.Assert(b[0] == 0x0C && b[5] == 0x1E, "an object")
			a := answer{id: b[1:5]}
			b = b[6:]
			for b[0] != 0x1F {
				sym.Assert(b[0] == 0x09, "a property")
				p := property{prop: b[1]}
				b = b[2:]
				if b[0]>>4 == 1 && b[0]&8 != 0 && b[0]&7 < 5 {
					n := int(b[0] & 7)
					p.index = b[1 : 1+n]
					b = b[1+n:]
				}
				q.list = p.prop == 76
				d.value(a.id, &p, again)
				a.props = append(a.props, p)
			}
			b = b[1:]
			as = append(as, a)
		}
	}
	if d.alter != nil {
		as = d.alter(d.n, q, as)
	}
	d.n++
	var c []byte
	for _, a := range as {
		c = ref.Cat(c, ref.Ctx(0, a.id))
		if service == 12 {
			for _, p := range a.props {
				c = ref.Cat(c, p.wire(1))
			}
			continue
		}
		c = ref.Cat(c, ref.Open(1))
		for _, p := range a.props {
			c = ref.Cat(c, p.wire(2))
		}
		c = ref.Cat(c, ref.Close(1))
	}
	l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0}, ref.ComplexAck(invoke, service), c)))
}

// value of a property of an object.
func (d *device) value(id []byte, p *property, again bool) {
	if p.prop == 76 {
		sym.Assert(ref.Same(id, ref.ID(8, instance)), "the list is the device's")
		i := 0
		for _, x := range p.index {
			i = i<<8 | int(x)
		}
		sym.Assert(p.index != nil && i >= 1 && i <= len(d.objs), "an index of the list")
		if !again {
			d.asked[i-1]++
		}
		p.value = ref.AppID(d.objs[i-1].typ, d.objs[i-1].inst)
		return
	}
	sym.Assert(p.index == nil, "the whole property")
	objs := d.objs
	if len(objs) > 60 { // of consecutive numbers
		n := (uint32(id[1]&0x3F)<<16 | uint32(id[2])<<8 | uint32(id[3])) - objs[0].inst
		if n < uint32(len(objs)) {
			objs = objs[n:]
		}
	}
	for _, o := range objs {
		if ref.Same(id, o.id()) {
			switch p.prop {
			case 77:
				p.value = ref.AppString(o.name)
			case 28:
				p.value = ref.AppString(o.description)
			default:
				sym.Fail("a name or a description")
			}
			return
		}
	}
	sym.Fail("an object of the list")
}

// run lets the client ask for the objects.
func (d *device) run(apdu uint32) (btypes.Device, error) {
	l := fake.New()
	c := l.Client()
	l.Run(c)
	got, err := d.ask(l, c, apdu)
	l.Stop(c)
	return got, err
}

// ask is one question of that client.
func (d *device) ask(l *fake.Link, c bacnet.Client, apdu uint32) (btypes.Device, error) {
	return d.askOf(l, c, apdu, btypes.Device{Addr: peer, ID: btypes.ObjectID{Type: 8, Instance: instance}, MaxApdu: apdu})
}

func (d *device) askOf(l *fake.Link, c bacnet.Client, apdu uint32, of btypes.Device) (btypes.Device, error) {
	d.asked = make([]int, len(d.objs))
	l.OnSend = func(f fake.Frame) error {
		sym.Assert(ref.Same(f.Dest.Mac, peer.Mac), "the device is asked")
		sym.Assert(uint64(len(f.Data)) <= uint64(apdu)+4, "a request the device can take")
		d.answer(l, f)
		return nil
	}
	return c.Objects(of)
}

// Again: the same client asks once more, when the device has other objects or other names, maybe
// with what it was given the time before. What was returned earlier stays as it is.
func Again() {
	l := fake.New()
	c := l.Client()
	l.Run(c)
	var ds [3]*device
	var gots [3]btypes.Device
	of := btypes.Device{Addr: peer, ID: btypes.ObjectID{Type: 8, Instance: instance}}
	refresh := sym.Choose("with the last result", 2) == 1
	for i := range ds {
		d := &device{}
		for n := sym.Choose("objects", 3); n > 0; n-- {
			d.objs = append(d.objs, object{typ: 2, inst: uint32(n), name: text("name", 2), description: text("description", 1)})
		}
		of.MaxApdu = []uint32{50, 1476}[sym.Choose("max apdu", 2)]
		got, err := d.askOf(l, c, of.MaxApdu, of)
		sym.Assert(err == nil, "no error")
		d.exact(got)
		ds[i], gots[i] = d, got
		if refresh {
			of = got
		}
	}
	for i, d := range ds {
		d.exact(gots[i])
	}
	l.Stop(c)
	sym.Reach("end")
}

func (d *device) exact(got btypes.Device) {
	for i := range d.objs {
		sym.Assert(d.asked[i] == 1, "every index is asked for exactly once")
	}
	sym.Assert(got.Objects.Len() == len(d.objs), "exactly the objects of the list")
	for _, o := range d.objs {
		x, ok := got.Objects[btypes.ObjectType(o.typ)][btypes.ObjectInstance(o.inst)]
		sym.Assert(ok && uint16(x.ID.Type) == o.typ && uint32(x.ID.Instance) == o.inst, "each object of the list")
		if o.typ <= 128 {
			sym.Assert(x.Name == o.name, "the name of that very object")
			sym.Assert(x.Description == o.description, "the description of that very object")
		} else {
			sym.Assert(x.Name == "" && x.Description == "", "no name of another object")
		}
	}
}

func text(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// Names: few objects of any identifier, any name.
func Names() {
	sym.MapOrders()
	n := sym.Choose("objects", sym.Bound("objects with any identifier", 3, 4))
	lengths := 0
	if n > 0 {
		lengths = sym.Choose("lengths of texts", 11)
	}
	d := &device{}
	for i := 0; i < n; i++ {
		o := object{typ: sym.U16("type"), inst: sym.U32("instance")}
		if lengths < 9 {
			o.name, o.description = text("name", (i+lengths)%3), text("description", (i+lengths/3)%3)
		} else { // they may all be the same
			o.name, o.description = text("name", lengths-8), text("description", lengths-8)
		}
		sym.Assume(o.typ <= 1023 && o.inst <= 0x3FFFFF)
		for _, p := range d.objs {
			sym.Assume(p.typ != o.typ || p.inst != o.inst)
		}
		d.objs = append(d.objs, o)
	}
	got, err := d.run([]uint32{50, 480, 1476}[sym.Choose("max apdu", 3)])
	sym.Assert(err == nil, "no error")
	d.exact(got)
	sym.Reach("end")
}

// Sizes: all numbers of objects up to the bound, all APDU sizes.
func Sizes() {
	sym.Steps(60_000_000)
	var n int
	if sym.Choose("size", 2) == 0 {
		n = sym.Choose("objects", sym.Bound("all numbers of objects", 20, 60))
	} else {
		n = []int{23, 24, 25, 48, 49, 66, 75, 130, 257, 300, 1030}[sym.Choose("many objects", sym.Bound("larger numbers of objects", 11, 11))]
	}
	apdu := []uint32{50, 59, 60, 100, 128, 206, 239, 240, 480, 1024, 1476, 1497}[sym.Choose("max apdu", 12)]
	base := uint32(4190000)
	if n < 8 {
		base = sym.U32("instance")
		sym.Assume(base <= 0x3FFFFF-8)
	}
	d := &device{}
	for i := 0; i < n; i++ {
		d.objs = append(d.objs, object{typ: uint16(i % 3), inst: base + uint32(i), name: string(rune('A' + i%26)), description: string(rune('a' + i/26))})
	}
	got, err := d.run(apdu)
	sym.Assert(err == nil, "no error")
	d.exact(got)
	sym.Reach("end")
}

// Proprietary objects are listed without a name.
func Proprietary() {
	n := 1 + sym.Choose("objects", 7)
	pattern := sym.Choose("proprietary", 1<<n)
	d := &device{}
	for i := 0; i < n; i++ {
		o := object{typ: uint16(i), inst: 5, name: string(rune('A' + i)), description: string(rune('a' + i))}
		if pattern>>i&1 == 1 {
			o.typ += 128 + 1
		}
		d.objs = append(d.objs, o)
	}
	got, err := d.run(1476)
	sym.Assert(err == nil, "no error")
	d.exact(got)
	sym.Reach("end")
}

// Faulty: one of the answers is short, oversized or of another type.
func Faulty() {
	n := 1 + sym.Choose("objects", sym.Bound("objects, one faulty answer", 4, 6))
	d := &device{}
	for i := 0; i < n; i++ {
		d.objs = append(d.objs, object{typ: uint16(sym.Choose("type", 2)), inst: uint32(i), name: string(rune('A' + i)), description: string(rune('a' + i))})
	}
	apdu := []uint32{60, 480}[sym.Choose("max apdu", 2)]
	at := sym.Choose("faulty answer", 4)
	how := sym.Choose("fault", 14)
	hit, harmless := false, false
	d.alter = func(k int, q question, as []answer) []answer {
		if k != at {
			return as
		}
		hit = true
		a := &as[len(as)-1]
		p := &a.props[len(a.props)-1]
		switch how {
		case 0: // no object
			if q.service == 12 {
				a.props = nil
			} else {
				as = as[:len(as)-1]
			}
		case 1: // one more object
			if q.service == 12 {
				a.props = append(a.props, *p)
				harmless = true
			} else {
				as = append(as, *a)
			}
		case 2: // one property less
			a.props = a.props[:len(a.props)-1]
		case 3: // one property more
			a.props = append(a.props, *p)
			harmless = q.service == 12
		case 4: // another object
			a.id = ref.ID(sym.U16("other type")&1023, sym.U32("other instance")&0x3FFFFF)
			harmless = q.service == 12 || q.list || known(d, as)
		case 5: // another property
			o := sym.Byte("other property")
			sym.Assume(o != p.prop && o != 85 && o != 87 && o < 130)
			p.prop = o
			harmless = q.service == 12
		case 6: // another type
			p.value = [][]byte{ref.AppNull(), ref.AppReal(1), ref.AppBool(true), ref.AppInt(-1), {0x61, 7}}[sym.Choose("other value", 5)]
		case 7:
			if q.service == 12 || q.list && sym.Choose("string", 2) == 1 {
				p.value = ref.AppString("7")
			} else if q.list {
				p.value = ref.AppUint(7)
			} else {
				p.value = ref.AppID(0, 7)
			}
		case 8: // no value
			p.value = nil
		case 9: // two values
			p.value = ref.Cat(p.value, p.value)
		case 10: // an error
			if q.service == 12 {
				harmless = true
			} else {
				p.fault, p.value = true, ref.Cat(ref.AppEnum(2), ref.AppEnum(31))
			}
		case 11: // another index
			if p.index == nil {
				p.index = []byte{sym.Byte("other index")}
				harmless = true
			} else {
				p.index = []byte{sym.Byte("other index")}
				o := p.index[0]
				harmless = q.service == 12
				if !harmless {
					for _, x := range a.props[:len(a.props)-1] {
						_ = x
					}
					sym.Assume(int(o) != index(d, k, apdu, len(a.props)))
				}
			}
		case 12: // in another order
			if len(as) > 1 {
				as[0], as[len(as)-1] = as[len(as)-1], as[0]
			} else if len(a.props) > 1 {
				a.props[0], a.props[len(a.props)-1] = a.props[len(a.props)-1], a.props[0]
			}
			harmless = true
		case 13: // an empty answer
			as = nil
		}
		return as
	}
	got, err := d.run(apdu)
	if err == nil {
		sym.Assert(!hit || harmless, "an answer of another form is an error")
		d.exact(got)
		sym.Reach("success")
	} else {
		sym.Assert(hit, "no error without cause")
		sym.Reach("error")
	}
}

// known: the altered identifier is the right one after all.
func known(d *device, as []answer) bool {
	a := as[len(as)-1]
	for _, p := range a.props {
		if p.prop == 77 {
			for _, o := range d.objs {
				if ref.Same(a.id, o.id()) && ref.Same(p.value, ref.AppString(o.name)) {
					return true
				}
			}
		}
	}
	return false
}

// index that the last of n properties of the k-th answer is about.
func index(d *device, k int, apdu uint32, n int) int {
	return (k-1)*int(apdu/20) + n
}

// Length of the list is any value; there are fewer objects.
func Length() {
	n := sym.Choose("objects", 3)
	d := &device{}
	for i := 0; i < n; i++ {
		d.objs = append(d.objs, object{typ: 0, inst: uint32(i), name: "n", description: "d"})
	}
	v := sym.U32("length")
	d.count = ref.Cat([]byte{0x24}, ref.U32(v))
	sym.Assume(v != uint32(n))
	l := fake.New()
	c := l.Client()
	sym.Assume(v < 6 || v > 0xFFFFFFF0)
	requests := 0
	d.asked = make([]int, n)
	more := false
	l.OnSend = func(f fake.Frame) error {
		requests++
		if requests == 1 {
			d.answer(l, f)
			return nil
		}
		if v < uint32(n) {
			d.answer(l, f)
			return nil
		}
		more = true
		l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0}, ref.Error(f.Data[8], 14, 2, 42))))
		return nil
	}
	l.Run(c)
	got, err := c.Objects(btypes.Device{Addr: peer, ID: btypes.ObjectID{Type: 8, Instance: instance}, MaxApdu: 100})
	l.Stop(c)
	if more {
		sym.Assert(err != nil, "an error")
	} else {
		sym.Assert(err == nil && uint32(got.Objects.Len()) == v, "the objects of the list")
	}
	sym.Reach("end")
}

// Huge limits and lengths: whatever a device announces, requests stay within what BACnet/IP carries.
func Huge() {
	sym.Steps(20_000_000)
	apdu := []uint32{1476, 1497, 2000, 65535, 1 << 20, 1 << 24}[sym.Choose("max apdu", 6)]
	n := []int{0, 1, 73, 74, 75, 150}[sym.Choose("objects", 6)]
	d := &device{}
	for i := 0; i < n; i++ {
		d.objs = append(d.objs, object{typ: uint16(i % 3), inst: uint32(i), name: string(rune('A' + i%26)), description: "d"})
	}
	lie := sym.Choose("announced length", 4)
	if lie > 0 {
		d.count = ref.App(2, ref.U32([]uint32{0, 100000, 0x7FFFFFFF, 0xFFFFFFFF}[lie]))
	}
	d.asked = make([]int, n)
	l := fake.New()
	c := l.Client()
	requests := 0
	refused := false
	l.OnSend = func(f fake.Frame) error {
		sym.Assert(len(f.Data) <= 1476+21, "a request that BACnet/IP carries")
		requests++
		if requests > 1 && lie > 0 {
			refused = true
			l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0}, ref.Error(f.Data[8], 14, 2, 42))))
			return nil
		}
		d.answer(l, f)
		return nil
	}
	l.Run(c)
	got, err := c.Objects(btypes.Device{Addr: peer, ID: btypes.ObjectID{Type: 8, Instance: instance}, MaxApdu: apdu})
	l.Stop(c)
	sym.Assert(refused == (lie > 0), "the objects are asked for")
	sym.Assert((err != nil) == refused, "an error answer is an error")
	if err == nil {
		d.exact(got)
	}
	sym.Reach("end")
}
