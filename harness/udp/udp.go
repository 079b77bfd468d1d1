// Package udp stands for the loopback UDP network, 127.255.255.255 included as its broadcast address, while a harness is executed symbolically: the
// engine calls it in place of the functions of package net.  Natively the real ones are used.
package udp

import (
	"context"
	"errors"
	"net"
	"net/netip"
	"strconv"
	"sync"
)

type datagram struct {
	from net.UDPAddr
	data []byte
}

type socket struct {
	port   int
	v4     bool
	in     chan datagram
	closed bool
}

var (
	mu      sync.Mutex
	sockets = map[*byte]*socket{}
	ports   = map[int]*socket{}
	next    = 40000
)

// key identifies a connection (by the part of it that its promoted methods receive); the engine has it.
func key(c *net.UDPConn) *byte { return nil }

// Listen is net.ListenUDP.
func Listen(network string, at *net.UDPAddr) (*net.UDPConn, error) {
	mu.Lock()
	defer mu.Unlock()
	port := 0
	if at != nil {
		port = at.Port
	}
	if port < 0 || port > 65535 {
		return nil, errors.New("invalid port")
	}
	if port == 0 {
		next++
		port = next
	}
	if ports[port] != nil {
		return nil, errors.New("address already in use")
	}
	c := new(net.UDPConn)
	s := &socket{port: port, v4: network == "udp4", in: make(chan datagram, 64)}
	ports[port] = s
	sockets[key(c)] = s
	return c, nil
}

func find(c *byte) *socket {
	mu.Lock()
	defer mu.Unlock()
	return sockets[c]
}

// ReadFromUDP is that of net.UDPConn.
func ReadFromUDP(c *byte, b []byte) (int, *net.UDPAddr, error) {
	s := find(c)
	if s == nil {
		return 0, nil, errors.New("invalid argument")
	}
	d, ok := <-s.in
	if !ok {
		return 0, nil, net.ErrClosed
	}
	return copy(b, d.data), &d.from, nil
}

// ReadFrom is that of net.UDPConn.
func ReadFrom(c *byte, b []byte) (int, net.Addr, error) {
	n, a, err := ReadFromUDP(c, b)
	if err != nil {
		return n, nil, err
	}
	return n, a, nil
}

func (d datagram) addrPort(s *socket) netip.AddrPort {
	ip, _ := netip.AddrFromSlice(d.from.IP.To4())
	if !s.v4 { // a socket for both versions has IPv4 addresses mapped
		ip = netip.AddrFrom16(ip.As16())
	}
	return netip.AddrPortFrom(ip, uint16(d.from.Port))
}

// ReadFromUDPAddrPort is that of net.UDPConn.
func ReadFromUDPAddrPort(c *byte, b []byte) (int, netip.AddrPort, error) {
	n, a, err := ReadFromUDP(c, b)
	if err != nil {
		return n, netip.AddrPort{}, err
	}
	return n, datagram{from: *a}.addrPort(find(c)), nil
}

// ReadMsgUDP is that of net.UDPConn.
func ReadMsgUDP(c *byte, b, oob []byte) (int, int, int, *net.UDPAddr, error) {
	n, a, err := ReadFromUDP(c, b)
	return n, 0, 0, a, err
}

// ReadMsgUDPAddrPort is that of net.UDPConn.
func ReadMsgUDPAddrPort(c *byte, b, oob []byte) (int, int, int, netip.AddrPort, error) {
	n, a, err := ReadFromUDPAddrPort(c, b)
	return n, 0, 0, a, err
}

// WriteToUDPAddrPort is that of net.UDPConn.
func WriteToUDPAddrPort(c *byte, b []byte, to netip.AddrPort) (int, error) {
	return WriteToUDP(c, b, net.UDPAddrFromAddrPort(to))
}

// WriteMsgUDP is that of net.UDPConn.
func WriteMsgUDP(c *byte, b, oob []byte, to *net.UDPAddr) (int, int, error) {
	n, err := WriteToUDP(c, b, to)
	return n, 0, err
}

// WriteMsgUDPAddrPort is that of net.UDPConn.
func WriteMsgUDPAddrPort(c *byte, b, oob []byte, to netip.AddrPort) (int, int, error) {
	n, err := WriteToUDPAddrPort(c, b, to)
	return n, 0, err
}

// SetBuffer is SetReadBuffer or SetWriteBuffer of net.UDPConn.
func SetBuffer(c *byte, n int) error { return nil }

// ResolveUDPAddr is net.ResolveUDPAddr without any names.
func ResolveUDPAddr(network, at string) (*net.UDPAddr, error) {
	host, port, err := net.SplitHostPort(at)
	if err != nil {
		return nil, err
	}
	n, err := strconv.ParseUint(port, 10, 16)
	if err != nil {
		return nil, err
	}
	a := &net.UDPAddr{Port: int(n)}
	if host != "" {
		if a.IP = net.ParseIP(host); a.IP == nil {
			return nil, errors.New("no such host")
		}
		if x := a.IP.To4(); x != nil {
			a.IP = x
		} else if network == "udp4" {
			return nil, errors.New("no suitable address")
		}
	}
	return a, nil
}

// ListenPacket is net.ListenPacket for UDP.
func ListenPacket(network, at string) (net.PacketConn, error) {
	a, err := ResolveUDPAddr(network, at)
	if err != nil {
		return nil, err
	}
	c, err := Listen(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// ListenConfigPacket is that of net.ListenConfig.
func ListenConfigPacket(l *net.ListenConfig, ctx context.Context, network, at string) (net.PacketConn, error) {
	return ListenPacket(network, at)
}

// WriteToUDP is that of net.UDPConn.
func WriteToUDP(c *byte, b []byte, to *net.UDPAddr) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	s := sockets[c]
	if s == nil || s.closed {
		return 0, net.ErrClosed
	}
	if to == nil {
		return 0, errors.New("missing address")
	}
	ip := to.IP.To4()
	if ip == nil {
		return 0, errors.New("no IPv4 address")
	}
	if t := ports[to.Port]; t != nil && (ip.Equal(net.IPv4(127, 0, 0, 1)) || ip.Equal(net.IPv4(127, 255, 255, 255))) && len(t.in) < cap(t.in) {
		t.in <- datagram{net.UDPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: s.port}, append([]byte(nil), b...)}
	}
	return len(b), nil
}

// WriteTo is that of net.UDPConn.
func WriteTo(c *byte, b []byte, to net.Addr) (int, error) {
	a, ok := to.(*net.UDPAddr)
	if !ok {
		return 0, errors.New("no UDP address")
	}
	return WriteToUDP(c, b, a)
}

// Close is that of net.UDPConn.
func Close(c *byte) error {
	mu.Lock()
	defer mu.Unlock()
	s := sockets[c]
	if s == nil {
		return errors.New("invalid argument")
	}
	if s.closed {
		return net.ErrClosed
	}
	s.closed = true
	delete(ports, s.port)
	close(s.in)
	return nil
}

// LocalAddr is that of net.UDPConn.
func LocalAddr(c *byte) net.Addr {
	if s := find(c); s != nil {
		return &net.UDPAddr{IP: net.IPv4zero.To4(), Port: s.port}
	}
	return nil
}

// InterfaceByName is net.InterfaceByName on a host that has the loopback interface only.
func InterfaceByName(name string) (*net.Interface, error) {
	if name != "lo" {
		return nil, errors.New("no such network interface")
	}
	return &net.Interface{Index: 1, MTU: 65536, Name: "lo", Flags: net.FlagUp | net.FlagLoopback}, nil
}

// Addrs is that of net.Interface.
func Addrs(i *net.Interface) ([]net.Addr, error) {
	return []net.Addr{
		&net.IPNet{IP: net.IP{127, 0, 0, 1}, Mask: net.IPMask{255, 0, 0, 0}},
		&net.IPNet{IP: net.IPv6loopback, Mask: net.CIDRMask(128, 128)},
	}, nil
}

// InterfaceByIndex is net.InterfaceByIndex on that host.
func InterfaceByIndex(n int) (*net.Interface, error) {
	if n != 1 {
		return nil, errors.New("no such network interface")
	}
	return InterfaceByName("lo")
}

// Interfaces is net.Interfaces on that host.
func Interfaces() ([]net.Interface, error) {
	i, err := InterfaceByName("lo")
	return []net.Interface{*i}, err
}

// InterfaceAddrs is net.InterfaceAddrs on that host.
func InterfaceAddrs() ([]net.Addr, error) { return Addrs(nil) }
