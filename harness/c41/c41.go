// Package c41: network discovery returns exactly the announced networks.
package c41

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// alien is the message type that answers the other question.
var alien byte

func router(i int) btypes.Address { return fake.Mac(10, 0, 0, byte(100+i), 0xBA, 0xC0) }

// message is a network layer message, sent locally or through another router.
func message(typ byte, contents []byte) []byte {
	switch sym.Choose("header", 3) {
	case 1:
		return ref.Frame(0x0B, ref.Cat([]byte{1, 0xA0, 0xFF, 0xFF, 0, 255, typ}, contents))
	case 2:
		return ref.Frame(0x0B, ref.Cat([]byte{1, 0x88}, ref.U16(sym.U16("source net")), []byte{1, sym.Byte("source")}, []byte{typ}, contents))
	}
	return ref.Frame(0x0B, ref.Cat([]byte{1, 0x80, typ}, contents))
}

func network() uint16 {
	n := sym.U16("network")
	sym.Assume(n >= 1 && n <= 65534)
	return n
}

// ask makes the packets arrive after the question.
func ask(run func(c bacnet.Client), ps [][]byte) {
	l := fake.New()
	c := l.Client()
	l.OnSend = func(fake.Frame) error {
		for i, p := range ps {
			l.Put(router(i), p)
			sym.Settle()
		}
		return nil
	}
	l.Run(c)
	run(c)
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	l.Stop(c)
	sym.Reach("end")
}

// other messages that arrive, too.
func other() []byte {
	switch sym.Choose("other", 6) {
	case 5:
		return ref.Frame(0x0B, ref.Cat([]byte{1, 0x80, alien}, ref.U16(network())))
	case 0:
		return ref.Frame(0x0B, ref.Cat([]byte{1, 0, 0x10, 0}, ref.AppID(8, sym.U32("instance")&0x3FFFFF), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(1)))
	case 1:
		return ref.Frame(0x0B, []byte{1, 0x80, 0x12})
	case 2:
		return ref.Frame(0x0B, []byte{1, 0x80, 0x00, sym.Byte("a"), sym.Byte("b")})
	case 3:
		return ref.Frame(0x0B, []byte{1, 0x80, []byte{2, 3, 4, 5, 6, 7, 8, 9}[sym.Choose("type", 8)], sym.Byte("a"), sym.Byte("b")})
	}
	return ref.Frame(0x0B, []byte{1, 0x80, 0x13, sym.Byte("a")})
}

// with puts another message between, before or after the packets, or none.
func with(ps [][]byte) [][]byte {
	at := sym.Choose("something else", len(ps)+2)
	if at > len(ps) {
		return ps
	}
	var all [][]byte
	all = append(all, ps[:at]...)
	return append(append(all, other()), ps[at:]...)
}

// Numbers: Network-Number-Is answers to What-Is-Network-Number.
func Numbers() {
	alien = 0x01
	n := sym.Choose("answers", sym.Bound("answers", 3, 4))
	var nets []uint16
	var ps [][]byte
	for i := 0; i < n; i++ {
		v := network()
		nets = append(nets, v)
		contents := ref.U16(v)
		if sym.Choose("with flag", 2) == 1 {
			contents = append(contents, sym.Byte("flag")&1)
		}
		ps = append(ps, message(0x13, contents))
	}
	ps = with(ps)
	ask(func(c bacnet.Client) {
		got := c.WhatIsNetworkNumber()
		sym.Assert(len(got) == n, "as many as were announced")
		for i, a := range got {
			sym.Assert(a != nil && a.Net == nets[i], "the network numbers that were announced")
		}
	}, ps)
}

// Routers: I-Am-Router-To-Network answers to Who-Is-Router-To-Network.
func Routers() {
	alien = 0x13
	n := sym.Choose("answers", sym.Bound("routers", 3, 3))
	var all [][]uint16
	var ps [][]byte
	for i := 0; i < n; i++ {
		var nets []uint16
		var contents []byte
		for k := 1 + sym.Choose("networks", sym.Bound("networks of a router", 2, 3)); k > 0; k-- {
			v := network()
			nets = append(nets, v)
			contents = ref.Cat(contents, ref.U16(v))
		}
		all = append(all, nets)
		ps = append(ps, message(0x01, contents))
	}
	ps = with(ps)
	ask(func(c bacnet.Client) {
		got := *c.WhoIsRouterToNetwork()
		// every network of every router, once for each router
		k := 0
		for _, nets := range all {
			for j, v := range nets {
				dup := false
				for _, w := range nets[:j] {
					if w == v {
						dup = true
					}
				}
				if dup {
					continue
				}
				sym.Assert(k < len(got), "every network that was announced")
				sym.Assert(got[k].Net == v, "the networks that were announced")
				sym.Assert(len(got[k].Adr) == 0 && got[k].Len == 0, "a network, not a device on it")
				k++
			}
		}
		sym.Assert(k == len(got), "no other network")
	}, ps)
}

// Many networks behind one router.
func Many() {
	sym.Steps(20_000_000)
	n := []int{10, 60, 64, 65, 128, 255, 256, 257, 500, 730}[sym.Choose("networks", sym.Bound("numbers of networks", 10, 10))]
	base := uint16(63000)
	if n < 100 {
		base = sym.U16("first")
		sym.Assume(base >= 1 && base < 60000)
	}
	var contents []byte
	for i := 0; i < n; i++ {
		contents = ref.Cat(contents, ref.U16(base+uint16(i)))
	}
	ask(func(c bacnet.Client) {
		got := *c.WhoIsRouterToNetwork()
		sym.Assert(len(got) == n, "every network that was announced")
		for i, a := range got {
			sym.Assert(a.Net == base+uint16(i), "in order")
		}
	}, [][]byte{ref.Frame(0x0B, ref.Cat([]byte{1, 0x80, 1}, contents))})
}

// Again: the same client asks more than once, one after the other or at the same time, and what a
// question returned stays as it is.
func Again() {
	sym.Race()
	l := fake.New()
	c := l.Client()
	rounds := sym.Bound("questions", 2, 3)
	together := sym.Choose("together", 2) == 1
	if together {
		rounds = 2
	}
	type question struct {
		routers bool
		nets    []uint16
		got     []btypes.Address
		ended   chan bool
	}
	qs := make([]*question, rounds)
	for i := range qs {
		q := &question{routers: sym.Choose("routers", 2) == 1, ended: make(chan bool, 1)}
		for n := sym.Choose("answers", 3); n > 0; n-- {
			q.nets = append(q.nets, network())
		}
		qs[i] = q
	}
	put := func(i int, q *question) {
		for _, v := range q.nets {
			typ := byte(0x13)
			if q.routers {
				typ = 0x01
			}
			l.Put(router(i), ref.Frame(0x0B, ref.Cat([]byte{1, 0x80, typ}, ref.U16(v))))
			sym.Settle()
		}
	}
	sends := 0
	l.OnSend = func(fake.Frame) error {
		sends++
		if !together {
			put(sends, qs[sends-1])
		} else if sends == 2 {
			put(0, qs[0])
			put(1, qs[1])
		}
		return nil
	}
	run := func(q *question) {
		if q.routers {
			q.got = *c.WhoIsRouterToNetwork()
		} else {
			for _, a := range c.WhatIsNetworkNumber() {
				q.got = append(q.got, *a)
			}
		}
		q.ended <- true
	}
	l.Run(c)
	for _, q := range qs {
		if together {
			go run(q)
		} else {
			run(q)
		}
	}
	for _, q := range qs {
		<-q.ended
	}
	for _, q := range qs {
		want := q.nets
		if together { // each hears the answers to the other
			want = nil
			for _, p := range qs {
				if p.routers == q.routers {
					want = append(want, p.nets...)
				}
			}
		}
		sym.Assert(len(q.got) == len(want), "as many as were announced meanwhile")
		for i, a := range q.got {
			sym.Assert(a.Net == want[i], "the networks that were announced meanwhile")
		}
	}
	l.Stop(c)
	sym.Reach("end")
}
