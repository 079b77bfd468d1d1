// Package c39: point operations read and write exactly the addressed point.
package c39

import (
	"strings"

	"errors"
	"math"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

var refused = errors.New("refused")

type call struct {
	write bool
	dev   btypes.Device
	data  btypes.PropertyData
}

// conn stands for the client under a network: it records what is asked for and answers.
type conn struct {
	bacnet.Client
	calls  []call
	answer func(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error)
	failed error // of a write
	whois  []bacnet.WhoIsOpts
	found  []btypes.Device
	whoErr error
}

func (c *conn) ClientRun() {}

func (c *conn) ReadProperty(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
	p.Object.Properties = append([]btypes.Property(nil), p.Object.Properties...)
	c.calls = append(c.calls, call{false, d, p})
	return c.answer(d, p)
}

func (c *conn) WriteProperty(d btypes.Device, p btypes.PropertyData) error {
	p.Object.Properties = append([]btypes.Property(nil), p.Object.Properties...)
	c.calls = append(c.calls, call{true, d, p})
	return c.failed
}

func (c *conn) WhoIs(w *bacnet.WhoIsOpts) ([]btypes.Device, error) {
	c.whois = append(c.whois, *w)
	return c.found, c.whoErr
}

// gives is the answer with that value.
func gives(v interface{}) func(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error) {
	return func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
		p.Object.Properties[0].Data = v
		return p, nil
	}
}

func refuses(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error) {
	return btypes.PropertyData{}, refused
}

// device is a device of a network on that client.
func device(c bacnet.Client) *network.Device {
	nw := (&network.Network{StoreID: "n", Store: network.NewStore()}).VerifClient(c)
	d, err := network.NewDevice(nw, &network.Device{Ip: "10.0.0.9", Port: 48123, DeviceID: 77, NetworkNumber: 5, MacMSTP: 3, MaxApdu: 480, StoreID: "d"})
	sym.Assert(err == nil && d != nil, "a device")
	return d
}

// at: the call was to that device, that object, that property.
func at(c call, write bool, typ btypes.ObjectType, inst btypes.ObjectInstance, prop btypes.PropertyType, index uint32) btypes.Property {
	sym.Assert(c.write == write, "a read or a write, as asked for")
	sym.Assert(ref.Same(c.dev.Addr.Mac, []byte{10, 0, 0, 9, 0xBB, 0xFB}) && c.dev.Addr.Net == 5 && ref.Same(c.dev.Addr.Adr, []byte{3}), "the caller's device")
	sym.Assert(c.data.Object.ID.Type == typ && c.data.Object.ID.Instance == inst, "the object that was named")
	sym.Assert(len(c.data.Object.Properties) == 1, "one property")
	p := c.data.Object.Properties[0]
	sym.Assert(p.Type == prop, "the property that was named")
	sym.Assert(p.ArrayIndex == index, "the array index that was named")
	return p
}

const all = btypes.ArrayAll

func point() *network.Point {
	return &network.Point{ObjectType: btypes.ObjectType(sym.U16("type")), ObjectID: btypes.ObjectInstance(sym.U32("instance"))}
}

func same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

// Reads of a present value or a name.
func Reads() {
	p := point()
	c := &conn{}
	d := device(c)
	op := sym.Choose("operation", 7)
	how := sym.Choose("answer", 3)
	f, u, s := sym.F32("real"), sym.U32("unsigned"), sym.Str("text", 3)
	prop := btypes.PropertyType(85)
	typ, inst := p.ObjectType, p.ObjectID
	var v interface{} = u
	if op == 0 {
		v = f
	}
	if op >= 3 {
		v, prop = s, 77
	}
	index := uint32(all)
	switch how {
	case 0:
		c.answer = gives(v)
	case 1:
		c.answer = refuses
	case 2:
		v = []interface{}{nil, null.Null{}, true, []interface{}{f, u}, btypes.ObjectID{Type: 1, Instance: 2}, int32(-1), float64(1)}[sym.Choose("other", 7)]
		c.answer = gives(v)
	}
	ok := how == 0
	var err error
	switch op {
	case 0:
		var x float32
		x, err = d.PointReadFloat32(p)
		sym.Assert(!ok || same32(x, f), "the value the device gave")
		sym.Assert(how != 2 || x == 0, "no value of another type")
	case 1:
		var x uint32
		x, err = d.PointReadBool(p)
		sym.Assert(!ok || x == u, "the value the device gave")
		sym.Assert(how != 2 || x == 0, "no value of another type")
	case 2:
		var x uint32
		x, err = d.PointReadMultiState(p)
		sym.Assert(!ok || x == u, "the value the device gave")
		sym.Assert(how != 2 || x == 0, "no value of another type")
	default:
		var x string
		switch op {
		case 3:
			x, err = d.ReadPointName(p)
		case 4:
			typ = 8
			x, err = d.ReadDeviceName(inst)
		case 5:
			prop, index = btypes.PropertyType(sym.U32("property")), sym.U32("index")
			x, err = d.ReadString(&network.Object{ObjectID: inst, ObjectType: typ, Prop: prop, ArrayIndex: index})
		case 6:
			prop, index = btypes.PropertyType(sym.U32("property")), sym.U32("index")
			var out btypes.PropertyData
			out, err = d.Read(&network.Object{ObjectID: inst, ObjectType: typ, Prop: prop, ArrayIndex: index})
			if err == nil {
				sym.Assert(len(out.Object.Properties) == 1, "the device's answer")
				x, _ = out.Object.Properties[0].Data.(string)
			}
		}
		sym.Assert(!ok || x == s, "the value the device gave")
		sym.Assert(how != 2 || x == "", "no value of another type")
	}
	sym.Assert((err == refused) == (how == 1), "the error is returned")
	sym.Assert(how == 1 || err == nil, "no other error")
	sym.Assert(len(c.calls) == 1, "one request")
	at(c.calls[0], false, typ, inst, prop, index)
	sym.Reach("end")
}

// Priority array of a point.
func Priority() {
	p := point()
	c := &conn{}
	d := device(c)
	n := []int{16, 16, 3, 0, 20}[sym.Choose("elements", 5)]
	arr := make([]interface{}, n)
	vals := make([]*float32, 16)
	for i := range arr {
		arr[i] = null.Null{}
	}
	for k := 0; k < 2 && n > 0; k++ {
		i := sym.Choose("slot", n)
		f := sym.F32("value")
		arr[i] = f
		if i < 16 {
			vals[i] = &f
		}
	}
	bad := sym.Choose("refused", 2) == 1
	c.answer = gives(arr)
	if bad {
		c.answer = refuses
	}
	got, err := d.PointReadPriority(p)
	sym.Assert((err == refused) == bad && (bad || err == nil), "the error is returned")
	if !bad {
		slots(got, vals)
	}
	sym.Assert(len(c.calls) == 1, "one request")
	at(c.calls[0], false, p.ObjectType, p.ObjectID, 87, all)
	sym.Reach("end")
}

func slots(got *priority.Float32, vals []*float32) {
	sym.Assert(got != nil, "a priority array")
	for i, x := range []*float32{got.P1, got.P2, got.P3, got.P4, got.P5, got.P6, got.P7, got.P8, got.P9, got.P10, got.P11, got.P12, got.P13, got.P14, got.P15, got.P16} {
		sym.Assert((x == nil) == (vals[i] == nil), "the slots the device has")
		if x != nil {
			sym.Assert(same32(*x, *vals[i]), "with the values it has")
		}
	}
}

// Writes of a value, a name or a release.
func Writes() {
	p := point()
	p.WritePriority = sym.Byte("priority")
	c := &conn{}
	if sym.Choose("refused", 2) == 1 {
		c.failed = refused
	}
	d := device(c)
	f, u, s := sym.F32("real"), sym.U32("unsigned"), sym.Str("text", 3)
	typ, inst, prop, prio := p.ObjectType, p.ObjectID, btypes.PropertyType(85), p.WritePriority
	var err error
	op := sym.Choose("operation", 12)
	w := &network.Write{ObjectID: inst, ObjectType: typ, Prop: btypes.PropertyType(sym.U32("property")), WritePriority: prio}
	refusedHere := false
	mine := *p
	switch op {
	case 0:
		err = d.PointWriteAnalogue(p, f)
	case 1:
		err = d.PointWriteBool(p, u)
	case 2:
		err = d.PointWriteMultiState(p, u)
	case 3:
		prio = sym.Byte("release")
		err = d.PointReleasePriority(p, prio)
		refusedHere = prio < 1 || prio > 16
	case 4:
		prop, prio = 77, 0
		err = d.WritePointName(p, s)
	case 5:
		typ, prop, prio = 8, 77, 0
		err = d.WriteDeviceName(inst, s)
	case 6:
		w.WriteValue = f
	case 7:
		w.WriteValue = u
	case 8:
		w.WriteValue = s
	case 9:
		w.WriteValue = float64(2.5)
	case 10:
		w.WriteNull = true
		w.WriteValue = []interface{}{nil, f, s}[sym.Choose("with value", 3)]
	case 11:
		w.WriteValue = []interface{}{nil, true, 5, []byte{1}, btypes.ObjectID{}, int64(1), uint8(3)}[sym.Choose("unknown", 7)]
		refusedHere = true
	}
	if op >= 6 {
		prop = w.Prop
		err = d.Write(w)
	}
	sym.Assert(*p == mine, "the caller's point stays as it is")
	sym.Assert(w.ObjectID == mine.ObjectID && w.ObjectType == mine.ObjectType && w.WritePriority == mine.WritePriority && w.WriteNull == (op == 10), "the caller's request stays as it is")
	if refusedHere {
		sym.Assert(err != nil, "a refusal is an error")
		sym.Assert(len(c.calls) == 0, "and nothing is written")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == c.failed, "the error is returned")
	sym.Assert(len(c.calls) == 1, "one request")
	q := at(c.calls[0], true, typ, inst, prop, all)
	sym.Assert(byte(q.Priority) == prio, "the priority that was named")
	switch op {
	case 0, 6:
		x, ok := q.Data.(float32)
		sym.Assert(ok && same32(x, f), "the value that was given")
	case 1, 2, 7:
		x, ok := q.Data.(uint32)
		sym.Assert(ok && x == u, "the value that was given")
	case 4, 5, 8:
		x, ok := q.Data.(string)
		sym.Assert(ok && x == s, "the value that was given")
	case 9:
		x, ok := q.Data.(float64)
		sym.Assert(ok && x == 2.5, "the value that was given")
	case 3, 10:
		_, ok := q.Data.(null.Null)
		sym.Assert(ok, "a release writes Null")
	}
	sym.Reach("end")
}

// Nil: without a point or an object there is an error.
func Nil() {
	c := &conn{answer: refuses}
	d := device(c)
	_, err := d.Read(nil)
	sym.Assert(err != nil, "an error")
	sym.Assert(d.PointReleasePriority(nil, sym.Byte("priority")) != nil, "an error")
	sym.Assert(len(c.calls) == 0, "nothing is asked for")
	sym.Reach("end")
}

// props answers properties of a device by their number.
type props map[btypes.PropertyType]interface{}

func (m props) answer(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
	v, ok := m[p.Object.Properties[0].Type]
	if !ok {
		return btypes.PropertyData{}, refused
	}
	p.Object.Properties[0].Data = v
	return p, nil
}

// Details of a point: what the device refuses stays blank.
func Details() {
	typ := btypes.ObjectType([]uint16{0, 2, 3, 5, 13, 19, 300}[sym.Choose("type", 7)])
	p := &network.Point{ObjectType: typ, ObjectID: btypes.ObjectInstance(sym.U32("instance"))}
	binary := typ >= 3 && typ <= 5
	name := sym.Str("name", 2)
	which := sym.Choose("unit", 6)
	unit := []uint32{0, 62, 95, 98, 100000, 65536 + 62}[which]
	unitName := []string{"SquareMeters", "DegreesCelsius", "NoUnits", "Percent", "100000", "65598"}[which]
	m := props{}
	if sym.Choose("with name", 2) == 1 {
		m[77] = name
	} else {
		name = ""
	}
	if sym.Choose("with unit", 2) == 1 {
		m[117] = unit
	} else {
		unit, unitName = 0, "SquareMeters"
	}
	if binary {
		unit = 0
	}
	c := &conn{answer: m.answer}
	d := device(c)
	got, err := d.PointDetails(p)
	sym.Assert(err == nil && got != nil, "the details")
	sym.Assert(got.Name == name, "the name the device gave")
	sym.Assert(got.Unit == unit, "the units the device gave")
	if !binary {
		sym.Assert(strings.Contains(got.UnitString, unitName), "the name of these units")
	}
	sym.Assert(got.ObjectType == typ && got.ObjectID == p.ObjectID && got.PointType == typ.String(), "the point that was named")
	sym.Assert(len(c.calls) >= 1, "a name is asked for")
	at(c.calls[0], false, typ, p.ObjectID, 77, all)
	for _, x := range c.calls[1:] {
		at(x, false, typ, p.ObjectID, 117, all)
	}
	sym.Reach("end")
}

// DeviceDetails: the name, APDU size, vendor and segmentation of a device.
func DeviceDetails() {
	inst := sym.U32("instance")
	name, vendor, size, seg := sym.Str("name", 2), sym.Str("vendor", 3), sym.U32("max apdu"), uint32(sym.Byte("segmentation"))
	m := props{}
	if sym.Choose("name", 2) == 1 {
		m[77] = name
	} else {
		name = ""
	}
	if sym.Choose("vendor", 2) == 1 {
		m[121] = vendor
	} else {
		vendor = ""
	}
	if sym.Choose("size", 2) == 1 {
		m[62] = size
	} else {
		size = 0
	}
	if sym.Choose("segmentation", 2) == 1 {
		m[107] = seg
	} else {
		seg = 0
	}
	c := &conn{answer: m.answer}
	d := device(c)
	got, err := d.GetDeviceDetails(btypes.ObjectInstance(inst))
	sym.Assert(err == nil && got != nil, "the details")
	sym.Assert(got.Name == name && got.VendorName == vendor, "the names the device gave")
	sym.Assert(got.MaxApdu == size && got.Segmentation == seg, "the limits the device gave")
	for _, x := range c.calls {
		at(x, false, 8, btypes.ObjectInstance(inst), x.data.Object.Properties[0].Type, all)
	}
	sym.Reach("end")
}

func ids(n int) (l []btypes.ObjectID) {
	for i := 0; i < n; i++ {
		l = append(l, btypes.ObjectID{Type: btypes.ObjectType(sym.U16("type") & 1023), Instance: btypes.ObjectInstance(sym.U32("instance"))})
	}
	return
}

// lists answers the object list of a device: at once, or one by one.
func lists(l []btypes.ObjectID, whole bool, rest func(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error)) func(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error) {
	return func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
		q := &p.Object.Properties[0]
		if q.Type != 76 {
			return rest(d, p)
		}
		switch {
		case q.ArrayIndex == all && !whole:
			return btypes.PropertyData{}, refused
		case q.ArrayIndex == all && len(l) == 1:
			q.Data = l[0]
		case q.ArrayIndex == all:
			x := []interface{}{}
			for _, o := range l {
				x = append(x, o)
			}
			q.Data = x
		case q.ArrayIndex == 0:
			q.Data = uint32(len(l))
		default:
			sym.Assert(int(q.ArrayIndex) <= len(l), "an index of the list")
			q.Data = l[q.ArrayIndex-1]
		}
		return p, nil
	}
}

// Objects of a device, in one answer or index by index.
func Objects() {
	n := sym.Choose("objects", sym.Bound("objects", 6, 12))
	l := ids(n)
	whole := sym.Choose("list", 2) == 0
	inst := btypes.ObjectInstance(sym.U32("device"))
	c := &conn{answer: lists(l, whole, refuses)}
	d := device(c)
	check := sym.Choose("with Who-Is", 2) == 1
	size, seg := sym.U32("max apdu"), sym.Byte("segmentation")
	if check {
		sym.Assume(inst >= 1 && inst <= 4194302)
		c.found = []btypes.Device{{ID: btypes.ObjectID{Type: 8, Instance: inst}, MaxApdu: size, Segmentation: btypes.Enumerated(seg)}}
		if sym.Choose("Who-Is fails", 2) == 1 {
			c.whoErr, c.found = refused, nil
		}
	}
	got, err := d.DeviceObjects(inst, check)
	if c.whoErr != nil {
		sym.Assert(err != nil, "the error is returned")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == n, "the objects of the device")
	for i := range got {
		sym.Assert(got[i] == l[i], "the objects of the device")
	}
	for _, x := range c.calls {
		at(x, false, 8, inst, 76, x.data.Object.Properties[0].ArrayIndex)
	}
	if check {
		sym.Assert(len(c.whois) == 1 && c.whois[0].Low == int(inst) && c.whois[0].High == int(inst), "the device is looked for")
		sym.Assert(d.MaxApdu == size && d.Segmentation == uint32(seg), "what it announced is kept")
	}
	sym.Reach("end")
}

// ManyObjects: long lists, with two objects of any identifier.
func ManyObjects() {
	n := []int{20, 254, 255, 256, 300, 1030}[sym.Choose("objects", sym.Bound("long lists", 6, 6))]
	l := make([]btypes.ObjectID, n)
	for i := range l {
		l[i] = btypes.ObjectID{Type: btypes.ObjectType(i % 60), Instance: btypes.ObjectInstance(i)}
	}
	l[n-1] = btypes.ObjectID{Type: btypes.ObjectType(sym.U16("type") & 1023), Instance: btypes.ObjectInstance(sym.U32("instance"))}
	l[n/2] = btypes.ObjectID{Type: btypes.ObjectType(sym.U16("type") & 1023), Instance: btypes.ObjectInstance(sym.U32("instance"))}
	c := &conn{answer: lists(l, sym.Choose("list", 2) == 0, refuses)}
	got, err := device(c).DeviceObjects(77, false)
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == n, "the objects of the device")
	for i := range got {
		sym.Assert(got[i] == l[i], "the objects of the device")
	}
	sym.Reach("end")
}

// ObjectsFail: answers of other types, and errors at any point, are errors.
func ObjectsFail() {
	l := ids(3)
	whole := sym.Choose("list", 2) == 0
	bad := sym.Choose("failing", 4) // in the list answered at once; index 0..3 otherwise
	how := sym.Choose("answer", 6)
	var v interface{}
	switch how {
	case 1:
		v = sym.U32("unsigned")
	case 2:
		v = sym.F32("real")
	case 3:
		v = sym.Str("text", 1)
	case 4:
		v = null.Null{}
	case 5:
		v = []interface{}{sym.U32("unsigned")}
	}
	good := lists(l, whole, refuses)
	c := &conn{}
	c.answer = func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
		i := p.Object.Properties[0].ArrayIndex
		if whole && i == all && bad < 3 {
			x := []interface{}{l[0], l[1], l[2]}
			x[bad] = v
			p.Object.Properties[0].Data = x
			return p, nil
		}
		if whole && i == all || !whole && i == uint32(bad) {
			if how == 0 && !whole {
				return btypes.PropertyData{}, refused
			}
			p.Object.Properties[0].Data = v
			return p, nil
		}
		return good(d, p)
	}
	if !whole && bad == 0 {
		sym.Assume(how != 1) // a length
	}
	if whole && bad == 3 {
		sym.Assume(how != 0) // no value at all
	}
	d := device(c)
	got, err := d.DeviceObjects(77, false)
	sym.Assert(err != nil && got == nil, "the error is returned")
	sym.Reach("end")
}

// Points of a device: every object that is no device, with its own details.
func Points() {
	n := sym.Choose("objects", sym.Bound("objects with details", 4, 5))
	var l []btypes.ObjectID
	names := map[btypes.ObjectID]string{}
	base := []int{1, 76}[sym.Choose("instances", 2)] // 77 is the device's
	for i := 0; i < n; i++ {
		o := btypes.ObjectID{Type: btypes.ObjectType([]uint16{8, 0, 4, 300}[sym.Choose("type", 4)]), Instance: btypes.ObjectInstance(base + i)}
		l = append(l, o)
		names[o] = sym.Str("name", 1)
	}
	silent := sym.Choose("refused", 5)
	k := 0
	c := &conn{}
	c.answer = lists(l, sym.Choose("list", 2) == 0, func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
		if p.Object.Properties[0].Type == 77 {
			k++
			if k == silent {
				return btypes.PropertyData{}, refused
			}
			p.Object.Properties[0].Data = names[p.Object.ID]
		} else {
			p.Object.Properties[0].Data = uint32(60 + p.Object.ID.Instance)
		}
		return p, nil
	})
	d := device(c)
	got, err := d.GetDevicePoints(77)
	sym.Assert(err == nil, "no error")
	i := 0
	for _, o := range l {
		if o.Type == 8 {
			continue
		}
		sym.Assert(i < len(got), "every point of the device")
		x := got[i]
		i++
		sym.Assert(x.ObjectType == o.Type && x.ObjectID == o.Instance, "every point of the device")
		if i == silent {
			sym.Assert(x.Name == "", "no name of another point")
		} else {
			sym.Assert(x.Name == names[o], "with its name")
		}
		if o.Type != 4 {
			sym.Assert(x.Unit == 60+uint32(o.Instance), "with its units")
		}
	}
	sym.Assert(i == len(got), "no other point")
	sym.Reach("end")
}

// NoPoints: when the list of objects cannot be had there is an error, and no points of it.
func NoPoints() {
	l := []btypes.ObjectID{{Type: 2, Instance: 1}, {Type: 2, Instance: 2}}
	how := sym.Choose("how", 5)
	good := lists(l, how == 0, gives("name"))
	c := &conn{answer: good}
	d := device(c)
	switch how {
	case 1: // the Who-Is fails
		c.whoErr = refused
	case 2: // nothing is answered
		c.answer = refuses
	case 3, 4: // one object is refused, or no identifier
		bad := uint32(sym.Choose("at", 3))
		c.answer = func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
			if p.Object.Properties[0].Type == 76 && p.Object.Properties[0].ArrayIndex == bad {
				if how == 3 {
					return refuses(d, p)
				}
				p.Object.Properties[0].Data = "text"
				return p, nil
			}
			return good(d, p)
		}
	}
	got, err := d.GetDevicePoints(77)
	if how == 0 {
		sym.Assert(err == nil && len(got) == 2, "the points")
	} else {
		sym.Assert(err != nil && len(got) == 0, "the error is returned")
		sym.Assert(how > 2 || err == refused, "the error is returned")
	}
	sym.Reach("end")
}

// announced are devices that answered a Who-Is.
func announced(n int) (l []btypes.Device) {
	for i := 0; i < n; i++ {
		d := btypes.Device{
			DeviceID: i + 1,
			ID:       btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(i + 1)},
			MaxApdu:  sym.U32("max apdu"), Segmentation: btypes.Enumerated(sym.Byte("segmentation")), Vendor: sym.U32("vendor"),
			Addr: btypes.Address{Mac: []uint8{10, 0, 0, byte(20 + i), 0xBA, 0xC0}, MacLen: 6},
			Ip:   "10.0.0.2" + string(rune('0'+i)), Port: 47808,
		}
		if sym.Choose("routed", 2) == 1 {
			d.Addr.Net, d.Addr.Adr = sym.U16("net"), sym.Bytes("adr", 1)
			d.NetworkNumber, d.MacMSTP = int(d.Addr.Net), int(d.Addr.Adr[0])
		}
		l = append(l, d)
	}
	return
}

// own answers every device's details, refusing those of one.
func own(l []btypes.Device, names, vendors []string, sizes, segs []uint32, silent int) func(btypes.Device, btypes.PropertyData) (btypes.PropertyData, error) {
	return func(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
		for i, x := range l {
			if !ref.Same(d.Addr.Mac, x.Addr.Mac) {
				continue
			}
			sym.Assert(d.Addr.Net == x.Addr.Net && ref.Same(d.Addr.Adr, x.Addr.Adr), "the device is asked at its own address")
			sym.Assert(p.Object.ID == x.ID, "about itself")
			if i == silent {
				return btypes.PropertyData{}, refused
			}
			switch p.Object.Properties[0].Type {
			case 77:
				p.Object.Properties[0].Data = names[i]
			case 121:
				p.Object.Properties[0].Data = vendors[i]
			case 62:
				if sizes == nil {
					return btypes.PropertyData{}, refused
				}
				p.Object.Properties[0].Data = sizes[i]
			case 107:
				if segs == nil {
					return btypes.PropertyData{}, refused
				}
				p.Object.Properties[0].Data = segs[i]
			default:
				return btypes.PropertyData{}, refused
			}
			return p, nil
		}
		sym.Fail("a device that was found is asked")
		return p, nil
	}
}

// Discover through a device, or through the network.
func Discover() {
	n := sym.Choose("devices", sym.Bound("devices", 3, 4))
	l := announced(n)
	var names, vendors []string
	for i := 0; i < n; i++ {
		names = append(names, sym.Str("name", 1))
		vendors = append(vendors, sym.Str("vendor", 1))
	}
	silent := sym.Choose("refusing", n+1)
	var sizes, segs []uint32
	if sym.Choose("size is answered", 2) == 1 {
		for i := 0; i < n; i++ {
			sizes = append(sizes, sym.U32("max apdu"))
		}
	}
	if sym.Choose("segmentation is answered", 2) == 1 {
		for i := 0; i < n; i++ {
			segs = append(segs, uint32(sym.Byte("segmentation")))
		}
	}
	c := &conn{found: l, answer: own(l, names, vendors, sizes, segs, silent)}
	w := &bacnet.WhoIsOpts{Low: int(sym.Byte("low")), High: int(sym.Byte("high")), GlobalBroadcast: sym.Bool("global"), NetworkNumber: sym.U16("network")}
	if sym.Choose("Who-Is fails", 2) == 1 {
		c.whoErr, c.found = refused, nil
		l = nil
	}
	asked := *w
	name := func(i int, name, vendor string) {
		if i == silent {
			sym.Assert(name == "" && vendor == "", "no names of another device")
			return
		}
		sym.Assert(name == names[i] && vendor == vendors[i], "the device's names")
	}
	if sym.Choose("through", 2) == 0 {
		d := device(c)
		got, err := d.DeviceDiscover(w)
		sym.Assert(err == c.whoErr, "the error is returned")
		sym.Assert(len(got) == len(l), "every device that was found")
		for i, x := range got {
			for _, y := range got[:i] {
				sym.Assert(x != y, "distinct devices")
			}
			sym.Assert(x.DeviceID == i+1 && x.Ip == l[i].Ip && x.Port == l[i].Port, "the device's address")
			sym.Assert(x.NetworkNumber == int(l[i].Addr.Net) && x.MacMSTP == l[i].MacMSTP, "the device's network and MS/TP address")
			sym.Assert(x.MaxApdu == l[i].MaxApdu && x.Segmentation == uint32(l[i].Segmentation), "what it announced")
			name(i, x.DeviceName, x.VendorName)
		}
		if len(got) > 0 {
			// a device that was found can be used
			c.calls = nil
			c.answer = gives(sym.F32("value"))
			k := len(got) - 1
			_, err := got[k].PointReadFloat32(&network.Point{ObjectType: 2, ObjectID: 9})
			sym.Assert(err == nil && len(c.calls) == 1, "a read")
			sym.Assert(ref.Same(c.calls[0].dev.Addr.Mac, l[k].Addr.Mac) && c.calls[0].dev.Addr.Net == l[k].Addr.Net && ref.Same(c.calls[0].dev.Addr.Adr, l[k].Addr.Adr), "of that device")
		}
	} else {
		nw := (&network.Network{StoreID: "n", Store: network.NewStore()}).VerifClient(c)
		got, err := nw.NetworkDiscover(w)
		sym.Assert(err == c.whoErr, "the error is returned")
		sym.Assert(len(got) == len(l), "every device that was found")
		for i, x := range got {
			sym.Assert(x.ID == l[i].ID && ref.Same(x.Addr.Mac, l[i].Addr.Mac) && x.Addr.Net == l[i].Addr.Net && ref.Same(x.Addr.Adr, l[i].Addr.Adr), "the device's address")
			size, seg := l[i].MaxApdu, l[i].Segmentation
			if sizes != nil && i != silent {
				size = sizes[i]
			}
			if segs != nil && i != silent {
				seg = btypes.Enumerated(segs[i])
			}
			sym.Assert(x.MaxApdu == size && x.Segmentation == seg && x.Vendor == l[i].Vendor, "what it answered or else announced")
			name(i, x.DeviceName, x.VendorName)
		}
	}
	sym.Assert(len(c.whois) == 1 && c.whois[0] == asked, "the range that was asked for")
	sym.Reach("end")
}

// Whois is handed on.
func Whois() {
	c := &conn{found: announced(sym.Choose("devices", 3))}
	if sym.Choose("Who-Is fails", 2) == 1 {
		c.whoErr = refused
	}
	w := &bacnet.WhoIsOpts{Low: int(sym.I32("low")), High: int(sym.I32("high")), GlobalBroadcast: sym.Bool("global"), NetworkNumber: sym.U16("network")}
	asked := *w
	var got []btypes.Device
	var err error
	if sym.Choose("through", 2) == 0 {
		got, err = device(c).Whois(w)
	} else {
		got, err = (&network.Network{StoreID: "n", Store: network.NewStore()}).VerifClient(c).Whois(w)
	}
	sym.Assert(err == c.whoErr && len(got) == len(c.found), "what was found")
	for i := range got {
		sym.Assert(got[i].ID == c.found[i].ID && ref.Same(got[i].Addr.Mac, c.found[i].Addr.Mac), "what was found")
	}
	sym.Assert(len(c.whois) == 1 && c.whois[0] == asked, "the range that was asked for")
	sym.Reach("end")
}

// Stack: the operations over the real client, down to the octets.
func Stack() {
	l := fake.New()
	c := l.Client()
	typ := []uint16{0, 1, 2, 3, 4, 5, 13, 14, 19}[sym.Choose("type", 9)]
	inst := sym.U32("instance")
	sym.Assume(inst <= 0x3FFFFF)
	p := &network.Point{ObjectType: btypes.ObjectType(typ), ObjectID: btypes.ObjectInstance(inst)}
	f, u := sym.F32("real"), sym.U32("unsigned")
	prio := byte(sym.Choose("priority", 3)) * 8
	p.WritePriority = prio
	op := sym.Choose("operation", 7)
	var sent []byte
	l.OnSend = func(x fake.Frame) error {
		sym.Assert(ref.Same(x.Dest.Mac, []byte{10, 0, 0, 9, 0xBB, 0xFB}), "the caller's device")
		head := []byte{0x81, 0x0A, 0, byte(len(x.Data)), 1, 0x24, 0, 5, 1, 3, 255, 0, 5}
		sym.Assert(len(x.Data) > 15 && ref.Same(x.Data[:13], head), "the caller's device")
		sent = x.Data[14:]
		invoke, service := x.Data[13], sent[0]
		var a []byte
		if service == 12 {
			a = ref.Cat(ref.ComplexAck(invoke, 12), sent[1:])
			switch op {
			case 0:
				a = ref.Cat(a, ref.Open(3), ref.AppReal(f), ref.Close(3))
			case 1:
				a = ref.Cat(a, ref.Open(3), ref.AppEnum(u), ref.Close(3))
			case 2:
				a = ref.Cat(a, ref.Open(3), ref.AppUint(u), ref.Close(3))
			}
		} else {
			a = ref.SimpleAck(invoke, service)
		}
		l.Put(fake.Mac(10, 0, 0, 9, 0xBB, 0xFB), ref.Frame(0x0A, ref.Cat([]byte{1, 8, 0, 5, 1, 3}, a)))
		return nil
	}
	l.Run(c)
	d := device(c)
	object := ref.Ctx(0, ref.ID(typ, inst))
	write := func(v []byte) []byte {
		b := ref.Cat([]byte{15}, object, ref.Ctx(1, []byte{85}), ref.Open(3), v, ref.Close(3))
		if prio != 0 {
			b = ref.Cat(b, ref.Ctx(4, []byte{prio}))
		}
		return b
	}
	want := ref.Cat([]byte{12}, object, ref.Ctx(1, []byte{85}))
	var err error
	switch op {
	case 0:
		var x float32
		x, err = d.PointReadFloat32(p)
		sym.Assert(err == nil && val.SameF32(x, f), "the value the device gave")
	case 1:
		var x uint32
		x, err = d.PointReadBool(p)
		sym.Assert(err == nil && x == u, "the value the device gave")
	case 2:
		var x uint32
		x, err = d.PointReadMultiState(p)
		sym.Assert(err == nil && x == u, "the value the device gave")
	case 3:
		sym.Assume(typ < 3)
		err = d.PointWriteAnalogue(p, f)
		want = write(ref.AppReal(f))
	case 4:
		sym.Assume(typ >= 4 && typ <= 5)
		sym.Assume(u < 2)
		err = d.PointWriteBool(p, u)
		want = write(ref.AppEnum(u))
	case 5:
		sym.Assume(typ >= 13)
		err = d.PointWriteMultiState(p, u)
		want = write(ref.AppUint(u))
	case 6:
		sym.Assume(prio != 0)
		err = d.PointReleasePriority(p, prio)
		want = write(ref.AppNull())
	}
	sym.Assert(err == nil, "no error")
	sym.Assert(ref.Same(sent, want), "exactly the point and value that were named")
	l.Stop(c)
	sym.Reach("end")
}

// Again: an operation that is repeated accesses the device again, and gives what it then answers.
func Again() {
	p := point()
	p.WritePriority = sym.Byte("priority")
	c := &conn{}
	d := device(c)
	f, u := sym.F32("real"), sym.U32("unsigned")
	op := sym.Choose("operation", 15)
	run := func(round int) {
		v, n := sym.U32("value"), sym.Str("name", 2)
		g := sym.F32("float")
		m := props{85: v, 77: n, 117: v, 121: n, 62: v, 107: v, 87: []interface{}{null.Null{}, g}}
		var l []btypes.ObjectID
		if op == 8 || op == 9 {
			l = ids(1 + sym.Choose("objects", 2))
		}
		if op == 6 {
			v = uint32(62 + round)
			m[117] = v
		}
		c.answer = lists(l, op != 9, m.answer)
		c.calls = nil
		var err error
		switch op {
		case 0:
			m[85] = g
			var x float32
			x, err = d.PointReadFloat32(p)
			sym.Assert(same32(x, g), "the value the device gives now")
		case 1:
			var x uint32
			x, err = d.PointReadBool(p)
			sym.Assert(x == v, "the value the device gives now")
		case 2:
			var x uint32
			x, err = d.PointReadMultiState(p)
			sym.Assert(x == v, "the value the device gives now")
		case 3:
			var x string
			x, err = d.ReadPointName(p)
			sym.Assert(x == n, "the name the device gives now")
		case 4:
			var x string
			x, err = d.ReadDeviceName(77)
			sym.Assert(x == n, "the name the device gives now")
		case 5:
			var x *priority.Float32
			x, err = d.PointReadPriority(p)
			sym.Assert(x != nil && x.P1 == nil && x.P2 != nil && same32(*x.P2, g), "the priorities the device has now")
		case 6:
			var x *network.PointDetails
			q := &network.Point{ObjectType: 2, ObjectID: p.ObjectID}
			x, err = d.PointDetails(q)
			sym.Assert(err == nil && x.Name == n && x.Unit == v, "the details the device gives now")
		case 7:
			var x *network.DeviceDetails
			x, err = d.GetDeviceDetails(77)
			sym.Assert(err == nil && x.Name == n && x.VendorName == n && x.MaxApdu == v && x.Segmentation == v, "the details the device gives now")
		case 8, 9:
			var x []btypes.ObjectID
			x, err = d.DeviceObjects(77, false)
			sym.Assert(len(x) == len(l), "the objects the device has now")
			for i := range x {
				sym.Assert(x[i] == l[i], "the objects the device has now")
			}
		case 10:
			err = d.PointWriteAnalogue(p, f)
		case 11:
			err = d.PointWriteBool(p, u)
		case 12:
			err = d.PointWriteMultiState(p, u)
		case 13:
			err = d.PointReleasePriority(p, 8)
		case 14:
			err = d.WritePointName(p, "name")
		}
		sym.Assert(err == nil, "no error")
		if op < 10 {
			sym.Assert(len(c.calls) > 0 && !c.calls[0].write, "the device is asked again")
			return
		}
		sym.Assert(len(c.calls) == 1 && c.calls[0].write, "the value is written again")
		q := c.calls[0].data.Object.Properties[0]
		switch op {
		case 10:
			x, ok := q.Data.(float32)
			sym.Assert(ok && same32(x, f), "the value")
		case 11, 12:
			sym.Assert(q.Data == u, "the value")
		}
		sym.Assert(op > 12 || byte(q.Priority) == p.WritePriority, "at the priority")
	}
	run(0)
	if op != 6 && op != 7 && sym.Choose("a failure in between", 2) == 1 {
		// what was read or written before is no answer
		c.answer, c.failed = refuses, refused
		var err error
		switch op {
		case 0:
			_, err = d.PointReadFloat32(p)
		case 1:
			_, err = d.PointReadBool(p)
		case 2:
			_, err = d.PointReadMultiState(p)
		case 3:
			_, err = d.ReadPointName(p)
		case 4:
			_, err = d.ReadDeviceName(77)
		case 5:
			_, err = d.PointReadPriority(p)
		case 8, 9:
			_, err = d.DeviceObjects(77, false)
		case 10:
			err = d.PointWriteAnalogue(p, f)
		case 11:
			err = d.PointWriteBool(p, u)
		case 12:
			err = d.PointWriteMultiState(p, u)
		case 13:
			err = d.PointReleasePriority(p, 8)
		case 14:
			err = d.WritePointName(p, "name")
		}
		sym.Assert(err != nil, "what the device refuses now is an error")
		c.failed = nil
	}
	run(1)
	sym.Reach("end")
}
