// Package c43: the store of package network gives back what was put into it.
package c43

import (
	"errors"
	"syscall"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzverif/sym"
	_ "github.com/NubeDev/bacnet/zzverif/udp"
)

func busy(err error) bool {
	return errors.Is(err, syscall.EADDRINUSE) || errors.Is(err, syscall.EACCES)
}

// entry is what an id stands for.
type entry struct {
	net  *network.Network // nil with isNet: made by the store, seen first when it is got
	nets bool
	dev  *network.Device
	port int
}

const (
	storeNetwork = iota
	newNetwork
	newDevice
	updateDevice
	badNetwork
	badDevice
	badUpdate
	ops
)

type world struct {
	st    *network.Store
	home  *network.Network
	want  map[string]entry
	ids   []string
	port  int
	tries int
}

func (w *world) check() {
	for _, id := range w.ids {
		e, ok := w.want[id]
		n, err := w.st.GetNetwork(id)
		if ok && e.nets {
			sym.Assert(err == nil && n != nil, "a network that was put is found")
			sym.Assert(n.Port == e.port, "it is that network")
			if e.net == nil {
				e.net = n
				w.want[id] = e
			}
			sym.Assert(n == e.net, "it is that network")
		} else {
			sym.Assert(err != nil && n == nil, "what is no network is not found as one")
		}
		d, err := w.st.GetDevice(id)
		if ok && !e.nets {
			sym.Assert(err == nil && d == e.dev, "a device that was put is found")
		} else {
			sym.Assert(err != nil && d == nil, "what is no device is not found as one")
		}
	}
}

// try repeats what fails because another process has the port.
func try(f func() error) (err error) {
	for i := 0; i < 500; i++ {
		if err = f(); !busy(err) {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	return
}

func (w *world) do(op int, id string) {
	switch op {
	case storeNetwork:
		w.port++
		err := try(func() error { return w.st.NewNetwork(id, "", "127.0.0.1", w.port, 8) })
		sym.Assert(err == nil, "a network is made")
		w.want[id] = entry{nets: true, port: w.port}
	case newNetwork:
		w.port++
		n := &network.Network{Ip: "127.0.0.1", Port: w.port, SubnetCIDR: 8, StoreID: id, Store: w.st}
		var got *network.Network
		err := try(func() (err error) { got, err = network.New(n); return })
		sym.Assert(err == nil && got == n, "a network is made")
		w.want[id] = entry{nets: true, net: n, port: w.port}
	case newDevice:
		d := &network.Device{Ip: "127.0.0.1", DeviceID: 3, StoreID: id}
		got, err := network.NewDevice(w.home, d)
		sym.Assert(err == nil && got == d, "a device is made")
		w.want[id] = entry{dev: d}
	case updateDevice:
		d := &network.Device{Ip: "127.0.0.1", DeviceID: 4, StoreID: id}
		sym.Assert(w.st.UpdateDevice(id, w.home, d) == nil, "a device is changed")
		w.want[id] = entry{dev: d}
	case badNetwork:
		sym.Assert(w.st.NewNetwork(id, "", "127.0.0", w.port, 8) != nil, "a network at no address is refused")
		n, err := network.New(&network.Network{Ip: "127.0.0.1", Port: w.port, SubnetCIDR: 64, StoreID: id, Store: w.st})
		sym.Assert(err != nil && n == nil, "a network with no mask is refused")
	case badDevice:
		d, err := network.NewDevice(w.home, &network.Device{Ip: "fe80::1", StoreID: id})
		sym.Assert(err != nil && d == nil, "a device at no IPv4 address is refused")
	case badUpdate:
		sym.Assert(w.st.UpdateDevice(id, w.home, &network.Device{Ip: "", StoreID: id}) != nil, "a change to no address is refused")
	}
}

func (w *world) end() {
	for _, id := range w.ids {
		if n, err := w.st.GetNetwork(id); err == nil {
			n.NetworkClose(false)
		}
	}
	if w.home != nil {
		w.home.NetworkClose(false)
	}
}

func start(port int, ids ...string) *world {
	w := &world{st: network.NewStore(), want: map[string]entry{}, ids: ids, port: port}
	var err error
	err = try(func() (err error) {
		w.home, err = network.New(&network.Network{Ip: "127.0.0.1", Port: port, SubnetCIDR: 8, StoreID: "home", Store: w.st})
		return
	})
	sym.Assert(err == nil && w.home != nil, "a network is made")
	return w
}

// History: any sequence of successful and failing changes under two ids.
func History() {
	w := start(48100, "a", "b")
	n := sym.Bound("changes", 4, 5)
	for i := 0; i < n; i++ {
		w.do(sym.Choose("change", ops), w.ids[sym.Choose("id", 2)])
		w.check()
	}
	w.end()
	sym.Reach("end")
}

// Ids: different ids never stand for one another, equal ones do, whatever they are.
func Ids() {
	n, m := sym.Choose("octets of one id", 4), sym.Choose("octets of another id", 4)
	a, b := sym.Str("a", n), sym.Str("b", m)
	sym.Assume(a != "home" && b != "home")
	w := start(48120, a)
	w.do(newDevice, a)
	first := w.want[a].dev
	d := &network.Device{Ip: "127.0.0.1", DeviceID: 5, StoreID: b}
	got, err := network.NewDevice(w.home, d)
	sym.Assert(err == nil && got == d, "another device")
	got, err = w.st.GetDevice(b)
	sym.Assert(err == nil && got == d, "the device under its id")
	got, err = w.st.GetDevice(a)
	if a == b {
		sym.Reach("equal")
		first = d
	}
	sym.Assert(err == nil && got == first, "the device under the other id")
	w.end()
	sym.Reach("end")
}

// Time: nothing that was put is ever lost.
func Time() {
	w := start(48140, "a", "b")
	w.do(sym.Choose("change", updateDevice+1), "a")
	w.check()
	time.Sleep([]time.Duration{time.Minute, time.Hour, 25 * time.Hour, 40 * 24 * time.Hour, 24 * 365 * time.Hour}[sym.Choose("later", 5)])
	w.check()
	n, err := w.st.GetNetwork("home")
	sym.Assert(err == nil && n == w.home, "the first network is still there")
	w.end()
	sym.Reach("end")
}

// Usable: a network got from the store takes devices.
func Usable() {
	w := start(48160, "a", "d")
	w.do(sym.Choose("how", 2), "a")
	n, err := w.st.GetNetwork("a")
	sym.Assert(err == nil, "the network is found")
	d, err := network.NewDevice(n, &network.Device{Ip: "127.0.0.1", DeviceID: 5, StoreID: "d"})
	sym.Assert(err == nil && d != nil, "it takes a device")
	got, err := w.st.GetDevice("d")
	sym.Assert(err == nil && got == d, "which is in the same store")
	sym.Assert(n.StoreID == "a" && n.Store == w.st, "the network knows where it is")
	sym.Assert(n.Ip == "127.0.0.1" && n.SubnetCIDR == 8 && n.Interface == "", "the network knows what it is")
	w.end()
	sym.Reach("end")
}

// client stands for the client of a network: it records which devices are asked.
type client struct {
	bacnet.Client
	asked        []btypes.Device
	closed, runs int
	failure      error
}

// Closed: running and closing a network runs and closes its client, once, and a failure is reported.
func Closed() {
	st := network.NewStore()
	sym.Assert((&network.Network{StoreID: "n", Store: st}).NetworkClose(sym.Bool("logs")) == nil, "a network without a client is closed")
	c, other := &client{}, &client{}
	if sym.Choose("failing", 2) == 1 {
		c.failure = errors.New("not closed")
	}
	n := (&network.Network{StoreID: "n", Store: st}).VerifClient(c)
	(&network.Network{StoreID: "o", Store: st}).VerifClient(other)
	run := sym.Choose("run", 2)
	if run == 1 {
		n.NetworkRun()
	}
	sym.Assert(c.runs == run && c.closed == 0, "the client is running")
	sym.Assert(n.NetworkClose(sym.Bool("logs")) == c.failure, "the failure is reported")
	sym.Assert(c.closed == 1 && c.runs == run, "the client is closed")
	sym.Assert(other.closed == 0 && other.runs == 0, "another network is not")
	sym.Reach("end")
}

// Reopened: what is closed can be opened again at the same address.
func Reopened() {
	w := start(48200)
	if sym.Choose("run", 2) == 1 {
		go w.home.NetworkRun()
		sym.Settle()
	}
	for i := 0; i < 2; i++ {
		sym.Assert(w.home.NetworkClose(false) == nil, "a network is closed")
		w.home = start(48200).home
	}
	w.end()
	sym.Reach("end")
}

func (c *client) ClientClose(logs bool) error { c.closed++; return c.failure }
func (c *client) ClientRun()                  { c.runs++ }

func (c *client) ReadProperty(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
	c.asked = append(c.asked, d)
	return p, errors.New("no answer")
}

// Changed: a device works with the network and the address of the last change that was not refused.
func Changed() {
	st := network.NewStore()
	var cs [2]*client
	var ns [2]*network.Network
	for i := range cs {
		cs[i] = &client{}
		ns[i] = (&network.Network{StoreID: "n", Store: st}).VerifClient(cs[i])
	}
	d := &network.Device{Ip: "10.0.0.9", DeviceID: 77, StoreID: "d"}
	on, ip := sym.Choose("network", 2), byte(9)
	var mac byte
	got, err := network.NewDevice(ns[on], d)
	sym.Assert(err == nil && got == d, "a device is made")
	for i := sym.Bound("changes", 2, 3); i > 0; i-- {
		to := sym.Choose("network", 2)
		x := d
		if sym.Choose("another device", 2) == 1 {
			x = &network.Device{DeviceID: 77, StoreID: "d"}
		}
		m := sym.Byte("MS/TP address")
		oldIP, oldMac := x.Ip, x.MacMSTP
		x.MacMSTP = int(m)
		refused := sym.Choose("refused", 2) == 1
		if refused {
			x.Ip = "10.0.0"
		} else {
			x.Ip = []string{"10.0.0.9", "10.0.0.8"}[sym.Choose("ip", 2)]
		}
		if sym.Choose("how", 2) == 0 {
			err = st.UpdateDevice("d", ns[to], x)
		} else {
			_, err = network.NewDevice(ns[to], x)
		}
		sym.Assert((err != nil) == refused, "a change to no address is refused")
		if refused {
			x.Ip, x.MacMSTP = oldIP, oldMac
		} else {
			d, on, mac = x, to, m
			ip = x.Ip[len(x.Ip)-1] - '0'
		}
	}
	got, err = st.GetDevice("d")
	sym.Assert(err == nil && got == d, "the device of the last change")
	got.PointReadFloat32(&network.Point{ObjectType: 2, ObjectID: 9})
	sym.Assert(len(cs[1-on].asked) == 0 && len(cs[on].asked) == 1, "the network of the last change is asked")
	a := cs[on].asked[0].Addr
	sym.Assert(a.Mac[3] == ip, "the device's address of the last change")
	sym.Assert(len(a.Adr) == 1 && a.Adr[0] == mac, "the device's MS/TP address of the last change")
	sym.Reach("end")
}

// Together: devices put and got at the same time.
func Together() {
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	w := start(48180, "a", "b")
	a := &network.Device{Ip: "127.0.0.1", DeviceID: 5, StoreID: "a"}
	b := &network.Device{Ip: "127.0.0.1", DeviceID: 6, StoreID: "b"}
	done := make(chan bool, 3)
	for _, d := range []*network.Device{a, b} {
		d := d
		go func() {
			_, err := network.NewDevice(w.home, d)
			sym.Assert(err == nil, "a device is made")
			got, err := w.st.GetDevice(d.StoreID)
			sym.Assert(err == nil && got == d, "and found")
			done <- true
		}()
	}
	go func() {
		got, err := w.st.GetDevice("a")
		sym.Assert(err != nil && got == nil || got == a, "found or not")
		done <- true
	}()
	<-done
	<-done
	<-done
	w.end()
	sym.Reach("end")
}
