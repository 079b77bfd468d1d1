// Package c42: the BACnet/IP data link is where it was told to be and carries datagrams unchanged.
package c42

import (
	"errors"
	"os"
	"syscall"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	_ "github.com/NubeDev/bacnet/zzverif/udp"
)

// digits appends v in decimal.
func digits(s []byte, v byte) []byte {
	if v >= 100 {
		s = append(s, '0'+v/100)
	}
	if v >= 10 {
		s = append(s, '0'+v/10%10)
	}
	return append(s, '0'+v%10)
}

func quad(q []byte) []byte {
	var s []byte
	for i, b := range q {
		if i > 0 {
			s = append(s, '.')
		}
		s = digits(s, b)
	}
	return s
}

// busy tells that the port is somebody else's.
func busy(err error) bool {
	return errors.Is(err, syscall.EADDRINUSE) || errors.Is(err, syscall.EACCES)
}

// open makes a data link, waiting for a port that another process has.
func open(f func() (datalink.DataLink, error)) (l datalink.DataLink, err error) {
	for i := 0; ; i++ {
		if l, err = f(); !busy(err) || i == 500 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// station is where a data link is to be.
func station(a *btypes.Address, q []byte, port int, what string) {
	sym.Assert(a != nil, what+" is known")
	sym.Assert(a.Net == 0 && len(a.Adr) == 0 && a.Len == 0, what+" is on this network")
	sym.Assert(a.MacLen == 6 && len(a.Mac) == 6, what+" has address and port")
	sym.Assert(ref.Same(a.Mac[:4], q), what)
	sym.Assert(int(a.Mac[4])<<8|int(a.Mac[5]) == port, what+" has the port")
}

// Addresses: own and broadcast address for every address, mask length and port.
func Addresses() {
	q := sym.Bytes("ip", 4)
	mask := sym.Choose("mask", 33)
	port := sym.Int("port", 0, 65535)
	way := sym.Choose("way", 2)
	l, err := open(func() (datalink.DataLink, error) {
		if way == 0 {
			return datalink.NewUDPDataLinkFromIP(string(quad(q)), mask, port)
		}
		return datalink.NewUDPDataLink(string(digits(append(quad(q), '/'), byte(mask))), port)
	})
	if busy(err) {
		return
	}
	sym.Assert(err == nil && l != nil, "an address, a mask and a port make a data link")
	if port == 0 {
		port = 0xBAC0
	}
	station(l.GetMyAddress(), q, port, "own address")
	b := make([]byte, 4)
	bits := uint32(0xFFFFFFFF)
	if mask > 0 {
		bits = uint32(1)<<uint(32-mask) - 1
	}
	for i := range b {
		b[i] = q[i] | byte(bits>>uint(24-8*i))
	}
	station(l.GetBroadcastAddress(), b, 0xBAC0, "broadcast address")
	sym.Assert(l.Close() == nil, "it can be closed")
	sym.Reach("end")
}

// Interface: a data link by the name of a network interface.
func Interface() {
	port := []int{0, 47910, 47911}[sym.Choose("port", 3)]
	l, err := open(func() (datalink.DataLink, error) { return datalink.NewUDPDataLink("lo", port) })
	if busy(err) {
		return
	}
	sym.Assert(err == nil && l != nil, "an interface with an address makes a data link")
	if port == 0 {
		port = 0xBAC0
	}
	station(l.GetMyAddress(), []byte{127, 0, 0, 1}, port, "own address")
	station(l.GetBroadcastAddress(), []byte{127, 255, 255, 255}, 0xBAC0, "broadcast address")
	sym.Assert(l.Close() == nil, "it can be closed")
	name := sym.Str("name", sym.Choose("letters", 5))
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] >= 'p' && name[i] <= 'q')
	}
	l, err = datalink.NewUDPDataLink(name, port)
	sym.Assert(err != nil && l == nil, "an unknown interface is refused")
	sym.Reach("end")
}

// Refused: what is no address, mask or port makes no data link.
func Refused() {
	ip, mask, port := "10.0.0.2", 24, 0xBAC0
	switch sym.Choose("what", 5) {
	case 0:
		ip = []string{"", "10.0.0", "10.0.0.256", "10.0.0.2.1", "10.0.0.2/24", "host", "fe80::1", "10.0.0.-1", "10.0.0.2 "}[sym.Choose("text", 9)]
	case 1:
		mask = 33 + int(sym.Byte("long mask"))
	case 2:
		mask = -1 - int(sym.Byte("negative mask"))
	case 3:
		port = []int{65536, 65536 + 47808, 99900, 1 << 31, 1 << 32}[sym.Choose("port", 5)] + int(sym.Byte("large port"))
	case 4:
		port = -1 - int(sym.Byte("negative port"))
	}
	l, err := datalink.NewUDPDataLinkFromIP(ip, mask, port)
	sym.Assert(err != nil, "it is refused")
	sym.Assert(l == nil, "there is no data link")
	sym.Reach("end")
}

// onCast is a data link on the port of broadcasts, other one on another port.
func onCast() (l datalink.DataLink) {
	l, err := open(func() (datalink.DataLink, error) { return datalink.NewUDPDataLink("127.0.0.1/8", 0) })
	sym.Assert(err == nil || busy(err), "a data link")
	return
}

func other() (l datalink.DataLink) {
	l, err := open(func() (datalink.DataLink, error) { return datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, 47909) })
	sym.Assert(err == nil || busy(err), "another data link")
	return
}

// pair makes two data links of this computer, always in the same order.
func pair() (a, b datalink.DataLink) {
	if b = onCast(); b != nil {
		if a = other(); a == nil {
			b.Close()
			b = nil
		}
	}
	return
}

var home = []byte{127, 0, 0, 1}

// Transfer: octets arrive as they were sent, with the address of their sender.
func Transfer() {
	a, b := pair()
	if b == nil {
		return
	}
	rounds := 2
	for i := 0; i < rounds; i++ {
		n := sym.Choose("octets", sym.Bound("octets of a datagram", 6, 12)) + 1
		data := sym.Bytes("data", n)
		from, to, port := a, b, 47909
		if i == 1 {
			from, to, port = b, a, 0xBAC0
		}
		dest := to.GetMyAddress()
		if i == 0 && sym.Choose("broadcast", 2) == 1 {
			dest = a.GetBroadcastAddress() // b is on the port of broadcasts
		}
		before := append([]byte(nil), data...)
		sent, err := from.Send(data, nil, dest)
		sym.Assert(err == nil && sent == n, "it is sent")
		buf := make([]byte, 64)
		src, got, err := to.Receive(buf)
		sym.Assert(err == nil && got == n, "it arrives complete")
		sym.Assert(ref.Same(buf[:n], before), "it arrives unchanged")
		station(src, home, port, "the sender")
		sym.Observe("data", buf[:n])
	}
	sym.Assert(a.Close() == nil && b.Close() == nil, "they can be closed")
	sym.Reach("end")
}

// Senders: what one Receive returned stays as it is when others follow, on this link and others.
func Senders() {
	a, b := pair()
	if b == nil {
		return
	}
	c, err := open(func() (datalink.DataLink, error) { return datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, 47910) })
	if c == nil {
		a.Close()
		b.Close()
		sym.Assert(busy(err), "a third data link")
		return
	}
	n := sym.Bound("datagrams", 3, 4)
	links := []datalink.DataLink{a, b, c}
	ports := []int{47909, 0xBAC0, 47910}
	srcs, from, bufs, data := make([]*btypes.Address, n), make([]int, n), make([][]byte, n), make([][]byte, n)
	for i := 0; i < n; i++ {
		f := sym.Choose("from", 3)
		to := sym.Choose("to", 3)
		if f == to {
			a.Close()
			b.Close()
			c.Close()
			return
		}
		data[i] = sym.Bytes("data", i+1)
		_, err := links[f].Send(data[i], nil, links[to].GetMyAddress())
		sym.Assert(err == nil, "it is sent")
		bufs[i] = make([]byte, 8)
		src, got, err := links[to].Receive(bufs[i])
		sym.Assert(err == nil && got == i+1, "it arrives complete")
		srcs[i], from[i] = src, f
	}
	for i := 0; i < n; i++ {
		station(srcs[i], home, ports[from[i]], "the sender of each")
		sym.Assert(ref.Same(bufs[i][:i+1], data[i]), "each arrives unchanged")
		for j := range links {
			station(links[j].GetMyAddress(), home, ports[j], "the own address")
		}
	}
	a.Close()
	b.Close()
	c.Close()
	sym.Reach("end")
}

// Large datagrams, up to what UDP carries.
func Large() {
	sym.Steps(40_000_000)
	a, b := pair()
	if b == nil {
		return
	}
	n := []int{60, 255, 256, 257, 512, 1024, 1400, 1473, 1476, 1498, 1501, 4097, 9001, 65507}[sym.Choose("octets", 14)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	copy(data[n/2:], sym.Bytes("middle", 2))
	copy(data[n-2:], sym.Bytes("last", 2))
	before := append([]byte(nil), data...)
	sent, err := a.Send(data, nil, b.GetMyAddress())
	sym.Assert(err == nil && sent == n, "it is sent")
	buf := make([]byte, []int{n, n + 1, 65536}[sym.Choose("room", 3)])
	src, got, err := b.Receive(buf)
	sym.Assert(err == nil && got == n, "it arrives complete")
	sym.Assert(ref.Same(buf[:n], before), "it arrives unchanged")
	station(src, home, 47909, "the sender")
	sym.Assert(a.Close() == nil && b.Close() == nil, "they can be closed")
	sym.Reach("end")
}

// Unaddressed: nothing is sent to what is no station address.
func Unaddressed() {
	a, b := pair()
	if b == nil {
		return
	}
	n := sym.Choose("octets", 9)
	if n == 6 {
		n = 255
	}
	d := &btypes.Address{Mac: sym.Bytes("mac", n), MacLen: byte(n)}
	_, err := a.Send([]byte{1}, nil, d)
	sym.Assert(err != nil, "no station address is an error")
	a.Close()
	b.Close()
	sym.Reach("end")
}

// Closing ends a Receive that waits, and those that follow.
func Closing() {
	a, b := pair()
	if b == nil {
		return
	}
	done := make(chan error, 1)
	go func() {
		_, _, err := a.Receive(make([]byte, 16))
		done <- err
	}()
	if sym.Choose("waiting", 2) == 1 {
		sym.Settle()
	}
	sym.Assert(a.Close() == nil, "it can be closed")
	sym.Assert(<-done != nil, "a closed data link receives nothing")
	_, _, err := a.Receive(make([]byte, 16))
	sym.Assert(err != nil, "a closed data link receives nothing later")
	_, err = a.Send([]byte{1}, nil, b.GetMyAddress())
	sym.Assert(err != nil, "a closed data link sends nothing")
	a.Close()
	b.Close()
	sym.Reach("end")
}

// Client: a client on an address and port reads from a station and finds devices with a broadcast.
func Client() {
	peer := onCast()
	if peer == nil {
		return
	}
	cb := &bacnet.ClientBuilder{Port: 47909}
	if sym.Choose("interface", 2) == 0 {
		cb.Ip, cb.SubnetCIDR = "127.0.0.1", 8
	} else {
		cb.Interface = "127.0.0.1/8"
	}
	c, err := bacnet.NewClient(cb)
	for i := 0; i < 500 && busy(err); i++ {
		time.Sleep(20 * time.Millisecond)
		c, err = bacnet.NewClient(cb)
	}
	sym.Assert(err == nil, "a client")
	find := sym.Choose("find", 2) == 1
	value := sym.U32("value")
	instance := sym.U32("instance")
	sym.Assume(instance < 1<<22-1)
	ended := make(chan bool)
	go func() {
		c.ClientRun()
		close(ended)
	}()
	asked := make(chan bool, 1)
	go func() {
		buf := make([]byte, 1500)
		src, n, err := peer.Receive(buf)
		sym.Assert(err == nil, "a request")
		station(src, home, 47909, "the client")
		var reply []byte
		if find {
			want := ref.Frame(0x0B, ref.Cat([]byte{1, 0}, []byte{0x10, 8}))
			if n > 6 && buf[5] != 0 { // with a destination of all networks
				want = ref.Frame(0x0B, ref.Cat([]byte{1, 0x20, 0xFF, 0xFF, 0, 255}, []byte{0x10, 8}))
			}
			sym.Assert(ref.Same(buf[:n], want), "a Who-Is")
			reply = ref.Cat([]byte{0x10, 0}, ref.AppID(8, instance), ref.AppUint(1476), ref.AppEnum(3), ref.AppUint(7))
		} else {
			sym.Assert(n == 17 && ref.Same(buf[9:n], ref.Cat([]byte{12}, ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}))), "the request")
			reply = ref.Cat(ref.ComplexAck(buf[8], 12), ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), ref.App(ref.Unsigned, ref.U32(value|1<<31)), ref.Close(3))
		}
		_, err = peer.Send(ref.Frame(0x0A, ref.Cat([]byte{1, 0}, reply)), nil, src)
		sym.Assert(err == nil, "an answer")
		asked <- true
	}()
	t := time.Now()
	if find {
		ds, err := c.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1})
		sym.Assert(err == nil && len(ds) == 1, "a device is found")
		sym.Assert(uint32(ds[0].ID.Instance) == instance, "it is the one")
		station(&ds[0].Addr, home, 0xBAC0, "its address")
	} else {
		d := btypes.Device{Addr: *peer.GetMyAddress(), MaxApdu: 1476}
		p, err := c.ReadProperty(d, btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 7}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}})
		sym.Assert(err == nil, "the answer arrives")
		v, ok := p.Object.Properties[0].Data.(uint32)
		sym.Assert(ok && v == value|1<<31, "it is the answer")
		sym.Assert(time.Since(t) < 5*time.Second, "at once")
	}
	<-asked
	sym.Assert(c.Close() == nil, "the client can be closed")
	<-ended
	peer.Close()
	sym.Reach("end")
}

// quiet keeps the real standard error open when a client closes its log.
func quiet() func() {
	if sym.Symbolic() {
		return func() {}
	}
	old := os.Stderr
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	return func() { os.Stderr = old }
}

// Closed: a closed client has stopped, its port is free and its requests fail.
func Closed() {
	sym.Preempt(sym.Bound("preemptions", 1, 2), 0)
	cb := &bacnet.ClientBuilder{Port: 47909, Ip: "127.0.0.1", SubnetCIDR: 8}
	undo := quiet()
	c, err := bacnet.NewClient(cb)
	for i := 0; i < 500 && busy(err); i++ {
		time.Sleep(20 * time.Millisecond)
		c, err = bacnet.NewClient(cb)
	}
	undo()
	sym.Assert(err == nil, "a client")
	ended := make(chan bool)
	go func() {
		c.ClientRun()
		close(ended)
	}()
	read := func() error {
		peer := btypes.Device{Addr: btypes.Address{Mac: []byte{127, 0, 0, 1, 0xBB, 0x00}, MacLen: 6}, MaxApdu: 1476}
		_, err := c.ReadProperty(peer, btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 2, Instance: 7}, Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll}}}})
		return err
	}
	pending := make(chan error, 1)
	waits := sym.Choose("a request waits", 2) == 1
	if waits {
		go func() { pending <- read() }()
	}
	switch sym.Choose("close", 3) {
	case 0:
		err = c.Close()
	case 1:
		err = c.ClientClose(false)
	case 2:
		err = c.ClientClose(true)
	}
	sym.Assert(err == nil, "it can be closed")
	<-ended
	t := time.Now()
	sym.Assert(read() != nil, "a closed client reads nothing")
	sym.Assert(time.Since(t) < 12*time.Second, "and returns")
	if waits {
		sym.Assert(<-pending != nil, "what was asked is not answered")
	}
	l := other()
	sym.Assert(l != nil, "the port is free")
	l.Close()
	sym.Reach("end")
}
