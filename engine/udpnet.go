package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The UDP sockets of package net are replaced by those of the harness package udp, which is
// interpreted like any other code (so that blocking and closing are seen by the scheduler).
var udpFns = map[string]string{
	"net.ListenUDP":              "Listen",
	"(*net.UDPConn).ReadFromUDP": "ReadFromUDP",
	"(*net.UDPConn).ReadFrom":    "ReadFrom",
	"(*net.UDPConn).WriteTo":     "WriteTo",
	"(*net.UDPConn).WriteToUDP":  "WriteToUDP",

	"(*net.UDPConn).ReadFromUDPAddrPort": "ReadFromUDPAddrPort",
	"(*net.UDPConn).ReadMsgUDP":          "ReadMsgUDP",
	"(*net.UDPConn).ReadMsgUDPAddrPort":  "ReadMsgUDPAddrPort",
	"(*net.UDPConn).WriteToUDPAddrPort":  "WriteToUDPAddrPort",
	"(*net.UDPConn).WriteMsgUDP":         "WriteMsgUDP",
	"(*net.UDPConn).WriteMsgUDPAddrPort": "WriteMsgUDPAddrPort",

	"net.ListenPacket":                 "ListenPacket",
	"(*net.ListenConfig).ListenPacket": "ListenConfigPacket",
	"net.ResolveUDPAddr":               "ResolveUDPAddr",
	"net.Interfaces":                   "Interfaces",
	"net.InterfaceAddrs":               "InterfaceAddrs",
	"net.InterfaceByIndex":             "InterfaceByIndex",
	"(*net.conn).SetReadBuffer":        "SetBuffer",
	"(*net.conn).SetWriteBuffer":       "SetBuffer",
	"(*net.conn).Close":          "Close",
	"(*net.conn).LocalAddr":      "LocalAddr",
	"net.InterfaceByName":        "InterfaceByName",
	"(*net.Interface).Addrs":     "Addrs",
}

// connKey is the address of the part of a UDPConn that its promoted methods receive.
func connKey(f *frame, v Value) Value {
	st, ok := (*f.ptr(v)).(Struct)
	if !ok {
		return unsupported("connection of type %T", v)
	}
	return &st[0]
}

func udpIntrinsic(p *Program, name string) natFn {
	if name == zz+"/udp.key" {
		return func(f *frame, a []Value) Value { return connKey(f, a[0]) }
	}
	to, ok := udpFns[name]
	if !ok {
		for _, t := range []string{"(*net.UDPConn).", "(*net.conn).", "(*net.netFD).", "(*net.IPConn).", "(*net.TCPConn).", "(*net.Resolver).", "(*net.Dialer).", "(*net.ListenConfig).", "net.Listen", "net.Dial", "net.Lookup", "net.FilePacketConn", "net.FileConn"} {
			if strings.HasPrefix(name, t) {
				return func(f *frame, a []Value) Value { return unsupported("network function %s", name) }
			}
		}
		return nil
	}
	var fn *ssa.Function
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == zz+"/udp" {
			fn = pk.Func(to)
		}
	}
	if fn == nil {
		return nil
	}
	method := strings.HasPrefix(name, "(*net.UDPConn)")
	return func(f *frame, a []Value) Value {
		if method {
			a = append([]Value{connKey(f, a[0])}, a[1:]...)
		}
		return f.g.call(f, f.g.r.e.prog.compile(fn), a, nil)
	}
}
