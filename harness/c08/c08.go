// Package c08: router announcements deliver every announced network number.
package c08

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

func header(msg byte) []byte {
	if sym.Bool("routed") {
		return ref.Cat([]byte{1, 0x88}, sym.Bytes("snet", 2), []byte{1}, sym.Bytes("sadr", 1), []byte{msg})
	}
	return []byte{1, 0x80, msg}
}

func list(nets []uint16) {
	b := header(1)
	for _, n := range nets {
		b = ref.Cat(b, ref.U16(n))
	}
	d := encoding.NewDecoder(b)
	var h btypes.NPDU
	got, err := d.NPDU(&h)
	sym.Assert(err == nil && d.Error() == nil, "an announcement is decoded")
	// what is expected: first appearances, in order
	var want []uint16
	for i, n := range nets {
		first := true
		for _, m := range nets[:i] {
			if m == n {
				first = false
			}
		}
		if first {
			want = append(want, n)
		}
	}
	sym.Assert(len(got) == len(want), "every network once")
	for i := range want {
		sym.Assert(got[i].Net == want[i], "in order of first appearance")
		sym.Assert(len(got[i].Adr) == 0 && got[i].Len == 0, "a network, not a device on it")
	}
	sym.Assert(h.IsNetworkLayerMessage && byte(h.NetworkLayerMessageType) == 1, "the message is recognised")
	sym.Reach("end")
}

// Routers: any networks, repetitions included.
func Routers() {
	n := 1 + sym.Choose("n", sym.Bound("networks", 5, 6))
	var nets []uint16
	for i := 0; i < n; i++ {
		nets = append(nets, sym.U16("net"))
	}
	list(nets)
}

// ManyRouters: long lists with one variable entry.
func ManyRouters() {
	sym.Steps(60_000_000)
	n := []int{20, 33, 100, 129, 257, 513, 700}[sym.Choose("n", sym.Bound("long lists", 6, 7))]
	nets := make([]uint16, n)
	for i := range nets {
		nets[i] = uint16(3*i + 1)
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	v := sym.U16("net")
	sym.Assume(v%3 != 1 || v == 1 || v == uint16(3*at+1) || int(v) > 3*n)
	nets[at] = v
	list(nets)
}

// NetworkNumber: the answer to What-Is-Network-Number.
func NetworkNumber() {
	n := sym.U16("net")
	tail := sym.Bytes("configured", sym.Choose("tail", 2))
	d := encoding.NewDecoder(ref.Cat(header(0x13), ref.U16(n), tail))
	var h btypes.NPDU
	_, err := d.NPDU(&h)
	sym.Assert(err == nil && d.Error() == nil, "the answer is decoded")
	sym.Assert(h.IsNetworkLayerMessage && byte(h.NetworkLayerMessageType) == 0x13, "the message is recognised")
	sym.Assert(h.Source != nil && h.Source.Net == n, "the network number is the announced one")
	sym.Reach("end")
}

// Again: an announcement does not depend on those before it.
func Again() {
	list([]uint16{sym.U16("net"), sym.U16("net")})
	NetworkNumber()
	list([]uint16{sym.U16("net"), sym.U16("net"), sym.U16("net")})
	sym.Reach("again")
}
