// Package c20: device addresses convert between forms without loss.
package c20

import (
	"net"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

func ip(name string) []byte {
	if sym.Choose("form", 2) == 1 {
		return append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, sym.Bytes(name, 4)...)
	}
	return sym.Bytes(name, 4)
}

func mac(q []byte, port uint16) []byte {
	return []byte{q[0], q[1], q[2], q[3], byte(port >> 8), byte(port)}
}

// RoundTrip: an IPv4 address and port, in either of its forms, as a BACnet address and back.
func RoundTrip() {
	i, port := ip("ip"), sym.U16("port")
	q := append([]byte(nil), i[len(i)-4:]...)
	given := append([]byte(nil), i...)
	// it may be a part of something larger
	room := append(append([]byte(nil), i...), 0xA5, 0xA5, 0xA5, 0xA5)
	i = room[:len(i)]
	var a *btypes.Address
	if sym.Choose("way", 2) == 0 {
		a = datalink.IPPortToAddress(net.IP(i), int(port))
	} else {
		a = datalink.UDPToAddress(&net.UDPAddr{IP: net.IP(i), Port: int(port)})
	}
	sym.Assert(a != nil && ref.Same(a.Mac, mac(q, port)), "address and port make up the station address")
	sym.Assert(a.MacLen == 6 && a.Net == 0 && len(a.Adr) == 0 && a.Len == 0, "and nothing else")
	sym.Assert(a.IsUnicast() && !a.IsBroadcast() && !a.IsSubBroadcast(), "it is a unicast address")
	back, err := a.UDPAddr()
	sym.Assert(err == nil, "it converts back")
	b := back.IP.To4()
	sym.Assert(b != nil && ref.Same(b, q), "to the same address")
	sym.Assert(back.Port == int(port), "and the same port")
	sym.Assert(ref.Same(i, given) && ref.Same(room[len(i):], []byte{0xA5, 0xA5, 0xA5, 0xA5}), "the given address stays as it is")
	for k := range b {
		b[k] ^= 0xFF
	}
	sym.Assert(ref.Same(a.Mac, mac(q, port)), "the station address stays as it is")
	for k := range i {
		i[k] ^= 0xFF
	}
	sym.Assert(ref.Same(a.Mac, mac(q, port)), "the station address stays as it is")
	sym.Observe("mac", a.Mac)
	sym.Reach("end")
}

// Foreign: what is no IPv4 address makes no crash and no address.
func Foreign() {
	n := sym.Choose("n", 18)
	i := sym.Bytes("ip", n)
	if n == 4 {
		return
	}
	if n == 16 {
		var x byte
		for k := 0; k < 10; k++ {
			x |= i[k]
		}
		sym.Assume(x|^i[10]|^i[11] != 0)
	}
	a := datalink.UDPToAddress(&net.UDPAddr{IP: net.IP(i), Port: int(sym.U16("port"))})
	sym.Assert(a != nil, "an address value")
	_, err := a.UDPAddr()
	sym.Assert(err != nil, "that names no station")
	datalink.IPPortToAddress(net.IP(i), 1)
	sym.Reach("end")
}

// Malformed: a station address that is not 6 octets has no UDP form.
func Malformed() {
	n := sym.Choose("n", sym.Bound("station address octets", 12, 20))
	a := &btypes.Address{Net: sym.U16("net"), Len: sym.Byte("len"), MacLen: sym.Byte("maclen"), Mac: sym.Bytes("mac", n), Adr: sym.Bytes("adr", sym.Choose("adrlen", 4))}
	u, err := a.UDPAddr()
	sym.Assert((err == nil) == (n == 6), "exactly six octets are an IPv4 address and port")
	if err == nil {
		q := u.IP.To4()
		sym.Assert(q != nil && ref.Same(q, a.Mac[:4]) && u.Port == int(a.Mac[4])<<8+int(a.Mac[5]), "which are these")
	}
	sym.Reach("end")
}

// Kinds: broadcast, network-specific broadcast and unicast.
func Kinds() {
	a := &btypes.Address{Net: sym.U16("net"), Len: sym.Byte("len"), MacLen: sym.Byte("maclen"), Mac: sym.Bytes("mac", sym.Choose("n", 8)), Adr: sym.Bytes("adr", sym.Choose("adrlen", 4))}
	sym.Assert(a.IsBroadcast() == (a.Net == 0xFFFF || a.MacLen == 0), "broadcast")
	sym.Assert(a.IsSubBroadcast() == (a.Net != 0 && a.Len == 0), "network-specific broadcast")
	sym.Assert(a.IsUnicast() == (a.MacLen == 6), "unicast")
	net, l, m, n, k := a.Net, a.Len, a.MacLen, len(a.Mac), len(a.Adr)
	a.SetLength()
	if k == 0 {
		sym.Assert(a.Len == l, "without hardware address the length stays")
	} else {
		sym.Assert(int(a.Len) == k, "length of the hardware address")
	}
	sym.Assert(a.Net == net && a.MacLen == m && len(a.Mac) == n && len(a.Adr) == k, "nothing else changes")
	a.SetBroadcast(true)
	sym.Assert(a.IsBroadcast(), "made a broadcast")
	a.SetBroadcast(false)
	sym.Assert(int(a.MacLen) == n, "made a unicast again")
	sym.Assert(a.IsBroadcast() == (net == 0xFFFF || n == 0), "made a unicast again")
	sym.Reach("end")
}

// digits appends v in decimal.
func digits(s []byte, v byte) []byte {
	if v >= 100 {
		s = append(s, '0'+v/100)
	}
	if v >= 10 {
		s = append(s, '0'+v/10%10)
	}
	return append(s, '0'+v%10)
}

func quad(q []byte) string {
	var s []byte
	for i, b := range q {
		if i > 0 {
			s = append(s, '.')
		}
		s = digits(s, b)
	}
	return string(s)
}

// Text: every dotted quad and port.
func Text() {
	q, port := sym.Bytes("ip", 4), sym.U16("port")
	b, err := ip2bytes.New(quad(q), port)
	sym.Assert(err == nil, "a dotted quad is an address")
	sym.Assert(ref.Same(b, mac(q, port)), "address and port, most significant octet first")
	sym.Observe("b", b)
	sym.Reach("end")
}

// dotted is the reference: four decimal numbers up to 255 without leading zeros.
func dotted(s string) ([]byte, bool) {
	var q []byte
	v, n := 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if n == 0 {
				return nil, false
			}
			q = append(q, byte(v))
			v, n = 0, 0
			continue
		}
		c := s[i]
		if c < '0' || c > '9' || n > 0 && v == 0 {
			return nil, false
		}
		v, n = v*10+int(c-'0'), n+1
		if v > 255 {
			return nil, false
		}
	}
	return q, len(q) == 4
}

// Garbage: text that is no address is refused.
func Garbage() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("text octets", 8, 9)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '.' && s[i] <= '9' || s[i] == ' ')
	}
	port := sym.U16("port")
	b, err := ip2bytes.New(s, port)
	q, ok := dotted(s)
	if !ok {
		sym.Assert(err != nil, "text that is no address is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && ref.Same(b, mac(q, port)), "an address")
	sym.Reach("end")
}

// Names: host names and IPv6 addresses are no IPv4 addresses.
func Names() {
	s := []string{"", "localhost", "::1", "fe80::1%eth0", "1.2.3.4/24", "1.2.3.4:47808", "1.2.3", "1.2.3.4.5", "01.2.3.4", "2001:db8::1.2.3.4", "-1.2.3.4", "+1.2.3.4", "1..3.4", "1.2.3.", "0x1.2.3.4", "٣.2.3.4"}
	_, err := ip2bytes.New(s[sym.Choose("s", 16)], sym.U16("port"))
	sym.Assert(err != nil, "no IPv4 address")
	d := &network.Device{Ip: s[sym.Choose("s", 16)], Port: 1, DeviceID: 1}
	_, err = network.NewDevice((&network.Network{Store: network.NewStore()}).VerifClient(conn{}), d)
	sym.Assert(err != nil, "no device without an IPv4 address")
	sym.Reach("end")
}

func carries(d *btypes.Device, q []byte, port, nn int, mstp byte) {
	if port == 0 {
		port = 0xBAC0
	}
	sym.Assert(ref.Same(d.Addr.Mac, mac(q, uint16(port))), "the device's IP address and port")
	sym.Assert(int(d.Addr.Net) == nn, "the device's network number")
	sym.Assert(len(d.Addr.Adr) == 1 && d.Addr.Adr[0] == mstp, "the device's MS/TP address")
	u, err := d.Addr.UDPAddr()
	sym.Assert(err == nil && u.Port == port && ref.Same(u.IP.To4(), q), "its datagrams' destination")
}

// Device: a device built from an IP, port, network number and MS/TP address.
func Device() {
	q := []byte{10, sym.Byte("ip"), 0, sym.Byte("ip")}
	port, nn, mstp := int(sym.U16("port")), int(sym.U16("net")), sym.Byte("mstp")
	inst := sym.U32("instance")
	sym.Assume(inst <= 4194303)
	in := &btypes.Device{Ip: quad(q), Port: port, NetworkNumber: nn, MacMSTP: int(mstp), MaxApdu: sym.U32("max apdu"), Segmentation: btypes.Enumerated(sym.Byte("segmentation")), Vendor: sym.U32("vendor")}
	size, seg, ven := in.MaxApdu, in.Segmentation, in.Vendor
	if sym.Choose("identified by", 2) == 0 {
		in.ID = btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(inst)}
	} else {
		in.DeviceID = int(inst)
	}
	d, err := btypes.NewDevice(in)
	sym.Assert(err == nil && d != nil, "a device")
	carries(d, q, port, nn, mstp)
	sym.Assert(d.ID.Type == btypes.DeviceType && uint32(d.ID.Instance) == inst, "the device's identifier")
	sym.Assert(d.MaxApdu == size && d.Segmentation == seg && d.Vendor == ven, "what is known about the device")
	sym.Reach("end")
}

// conn stands for the client of a network: it shows the device that operations are given.
type conn struct {
	bacnet.Client
	dev *btypes.Device
}

func (c conn) ReadProperty(d btypes.Device, p btypes.PropertyData) (btypes.PropertyData, error) {
	*c.dev = d
	return p, nil
}

// Network: the same for a device of the network package, new or changed.
func Network() {
	q := []byte{192, sym.Byte("ip"), 1, 7}
	port, nn, mstp := int(sym.U16("port")), int(sym.U16("net")), sym.Byte("mstp")
	inst := sym.U32("instance")
	sym.Assume(inst <= 4194303)
	size, seg := sym.U32("max apdu"), uint32(sym.Byte("segmentation"))
	fill := func(d *network.Device) *network.Device {
		d.Ip, d.Port, d.NetworkNumber, d.MacMSTP, d.DeviceID, d.StoreID = quad(q), port, nn, int(mstp), int(inst), "d"
		d.MaxApdu, d.Segmentation = size, seg
		return d
	}
	var got btypes.Device
	st := network.NewStore()
	nw := (&network.Network{StoreID: "n", Store: st}).VerifClient(conn{dev: &got})
	check := func(d *network.Device) {
		_, err := d.Read(&network.Object{Prop: btypes.PropObjectName})
		sym.Assert(err == nil, "the read reaches the client")
		carries(&got, q, port, nn, mstp)
		sym.Assert(got.ID.Type == btypes.DeviceType && uint32(got.ID.Instance) == inst, "the device's identifier")
		sym.Assert(got.MaxApdu == size && uint32(got.Segmentation) == seg, "what is known about the device")
	}
	d, err := network.NewDevice(nw, fill(&network.Device{}))
	sym.Assert(err == nil && d != nil, "a device")
	check(d)
	s, err := st.GetDevice("d")
	sym.Assert(err == nil && s == d, "the stored device")
	// the same values as a change of another device
	o, err := network.NewDevice(nw, &network.Device{Ip: "10.0.0.1", Port: 9, DeviceID: 3, NetworkNumber: 5, MacMSTP: 2, MaxApdu: 7, StoreID: "o"})
	sym.Assert(err == nil && o != nil, "another device")
	check(d)
	err = st.UpdateDevice("o", nw, fill(o))
	sym.Assert(err == nil, "the change of a device")
	got = btypes.Device{}
	check(o)
	s, err = st.GetDevice("o")
	sym.Assert(err == nil && s == o, "the changed device")
	sym.Reach("end")
}

// Impossible: a port, network number, MS/TP address or identifier that there is not is refused, not replaced by another one.
func Impossible() {
	q := []byte{10, 0, 0, 9}
	port, nn, mstp, inst := 47809, 5, 7, 9
	wide := func(name string, most int) (int, bool) {
		v := int(int64(sym.U64(name)))
		return v, v >= 0 && v <= most
	}
	ok := true
	switch sym.Choose("wide", 4) {
	case 0:
		port, ok = wide("port", 65535)
	case 1:
		nn, ok = wide("net", 65535)
	case 2:
		mstp, ok = wide("mstp", 255)
	default:
		inst, ok = wide("instance", 4194303)
	}
	if sym.Choose("made by", 2) == 0 {
		d, err := btypes.NewDevice(&btypes.Device{Ip: quad(q), Port: port, NetworkNumber: nn, MacMSTP: mstp, DeviceID: inst})
		sym.Assert((err == nil) == ok, "exactly the impossible is refused")
		if ok {
			carries(d, q, port, nn, byte(mstp))
			sym.Assert(int(d.ID.Instance) == inst, "the device's identifier")
		}
		sym.Reach("plain")
		return
	}
	st := network.NewStore()
	var got btypes.Device
	nw := (&network.Network{StoreID: "n", Store: st}).VerifClient(conn{dev: &got})
	d, err := network.NewDevice(nw, &network.Device{Ip: quad(q), Port: port, NetworkNumber: nn, MacMSTP: mstp, DeviceID: inst, StoreID: "d"})
	sym.Assert((err == nil) == ok, "exactly the impossible is refused")
	if !ok {
		_, err = st.GetDevice("d")
		sym.Assert(err != nil, "what is refused is not stored")
		sym.Reach("refused")
		return
	}
	_, err = d.Read(&network.Object{Prop: btypes.PropObjectName})
	sym.Assert(err == nil, "the read reaches the client")
	carries(&got, q, port, nn, byte(mstp))
	sym.Assert(int(got.ID.Instance) == inst, "the device's identifier")
	sym.Reach("network")
}
