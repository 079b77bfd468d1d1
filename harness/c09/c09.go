// Package c09: APDU headers are encoded to standard and decoded faithfully.
package c09

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

var segCap = []uint{1, 2, 4, 8, 16, 32, 64, 65} // what the codes 0..7 stand for; 65: more than 64
var apduCap = []uint{50, 128, 206, 480, 1024, 1476}

func bit(b bool, m byte) byte {
	if b {
		return m
	}
	return 0
}

func flags(a *btypes.APDU) byte {
	return bit(a.SegmentedMessage, 8) | bit(a.MoreFollows, 4) | bit(a.SegmentedResponseAccepted, 2)
}

func encode(a btypes.APDU, want []byte) {
	e := encoding.NewEncoder()
	err := e.APDU(a)
	sym.Assert(err == nil && e.Error() == nil, "the header is encoded")
	b := e.Bytes()
	sym.Observe("bytes", b)
	sym.Assert(len(b) == len(want) && ref.Same(b, want), "the octets are the standard's")
}

// decode reads the header, with a payload behind it.
func decode(b []byte) (btypes.APDU, []byte, []byte) {
	payload := sym.Bytes("payload", sym.Choose("payload length", 4))
	d := encoding.NewDecoder(ref.Cat(b, payload))
	var a btypes.APDU
	err := d.APDU(&a)
	sym.Assert(err == nil && d.Error() == nil, "a standard header is accepted")
	sym.Assert(a.Error.Class == 0 && a.Error.Code == 0, "no error is made up")
	return a, d.Bytes(), payload
}

func confirmed() btypes.APDU {
	return btypes.APDU{DataType: btypes.ConfirmedServiceRequest, SegmentedMessage: sym.Bool("segmented"), MoreFollows: sym.Bool("more"),
		SegmentedResponseAccepted: sym.Bool("accepted"), InvokeId: sym.Byte("invoke"), Sequence: sym.Byte("sequence"), WindowNumber: sym.Byte("window"),
		Service: btypes.ServiceConfirmed(sym.Byte("service"))}
}

// octets of a confirmed request with the given capacity codes.
func octets(a *btypes.APDU, codes byte) []byte {
	b := []byte{flags(a), codes, a.InvokeId}
	if a.SegmentedMessage {
		b = append(b, a.Sequence, a.WindowNumber)
	}
	return append(b, byte(a.Service))
}

// EncodeConfirmed: every header whose capacities the standard can express.
func EncodeConfirmed() {
	a := confirmed()
	s, p := sym.Choose("segments", 8), sym.Choose("apdu", 6)
	a.MaxSegs, a.MaxApdu = segCap[s], apduCap[p]
	encode(a, octets(&a, byte(s<<4|p)))
	sym.Reach("end")
}

// MoreThan64 segments, and no capacity at all.
func CapacityLimits() {
	a := confirmed()
	a.SegmentedMessage = false
	n := sym.Int("segments", 0, 1<<20)
	a.MaxSegs, a.MaxApdu = uint(n), 50
	e := encoding.NewEncoder()
	sym.Assert(e.APDU(a) == nil, "the header is encoded")
	b := e.Bytes()
	sym.Assert(len(b) == 4 && b[1]&0x8F == 0, "only the segments code")
	code := b[1] >> 4
	c := segCap[code]
	if n > 64 {
		sym.Assert(code == 7, "more than 64 segments")
	} else if n >= 1 {
		sym.Assert(c <= uint(n), "never more segments than given")
		sym.Assert(code == 6 || segCap[code+1] > uint(n), "and no fewer than can be expressed")
	} else {
		sym.Assert(code == 0, "unspecified")
	}
	sym.Reach("end")
}

// DecodeConfirmed: requests as another device sends them.
func DecodeConfirmed() {
	a := confirmed()
	codes := sym.Byte("codes")
	g, rest, payload := decode(octets(&a, codes))
	sym.Assert(g.DataType == btypes.ConfirmedServiceRequest, "type")
	sym.Assert(g.SegmentedMessage == a.SegmentedMessage && g.MoreFollows == a.MoreFollows && g.SegmentedResponseAccepted == a.SegmentedResponseAccepted, "flags")
	sym.Assert(g.InvokeId == a.InvokeId && g.Service == a.Service, "invoke id and service")
	if a.SegmentedMessage {
		sym.Assert(g.Sequence == a.Sequence && g.WindowNumber == a.WindowNumber, "sequence and window")
	}
	if codes>>4 <= 7 {
		sym.Assert(g.MaxSegs == segCap[codes>>4], "segments accepted")
	}
	if codes&15 <= 5 {
		sym.Assert(g.MaxApdu == apduCap[codes&15], "APDU length accepted")
	}
	sym.Assert(ref.Same(g.RawData, payload) && len(rest) == 0 || len(payload) == 0, "the payload is complete")
	sym.Reach("end")
}

func Unconfirmed() {
	s := sym.Byte("service")
	a := btypes.APDU{DataType: btypes.UnconfirmedServiceRequest, UnconfirmedService: btypes.ServiceUnconfirmed(s)}
	encode(a, []byte{0x10, s})
	g, rest, payload := decode([]byte{0x10, s})
	sym.Assert(g.DataType == btypes.UnconfirmedServiceRequest && byte(g.UnconfirmedService) == s, "type and service")
	sym.Assert(ref.Same(g.RawData, payload) && len(rest) == 0, "the payload is complete")
	sym.Reach("end")
}

func SimpleAck() {
	i, s := sym.Byte("invoke"), sym.Byte("service")
	g, rest, payload := decode(ref.SimpleAck(i, s))
	sym.Assert(g.DataType == btypes.SimpleAck && g.InvokeId == i && byte(g.Service) == s, "type, invoke id and service")
	sym.Assert(ref.Same(rest, payload), "what follows is left alone")
	sym.Reach("end")
}

func ComplexAck() {
	a := confirmed()
	a.DataType = btypes.ComplexAck
	a.SegmentedResponseAccepted = false
	b := []byte{0x30 | flags(&a), a.InvokeId}
	if a.SegmentedMessage {
		b = append(b, a.Sequence, a.WindowNumber)
	}
	b = append(b, byte(a.Service))
	encode(a, b)
	g, rest, payload := decode(b)
	sym.Assert(g.DataType == btypes.ComplexAck && g.InvokeId == a.InvokeId && g.Service == a.Service, "type, invoke id and service")
	sym.Assert(g.SegmentedMessage == a.SegmentedMessage && g.MoreFollows == a.MoreFollows, "flags")
	if a.SegmentedMessage {
		sym.Assert(g.Sequence == a.Sequence && g.WindowNumber == a.WindowNumber, "sequence and window")
	}
	sym.Assert(ref.Same(rest, payload), "the payload is complete")
	sym.Reach("end")
}

// Refused: the PDU types a client cannot use are errors.
func Refused() {
	b := sym.Bytes("b", sym.Choose("n", 5)+1)
	t := b[0] >> 4
	sym.Assume(t == 4 || t >= 6)
	d := encoding.NewDecoder(b)
	var a btypes.APDU
	err := d.APDU(&a)
	sym.Assert(err != nil, "segment ack, reject, abort and unknown types are errors")
	sym.Reach("end")
}

// RefusedEncode: neither are they encoded without an error.
func RefusedEncode() {
	t := sym.Byte("type")
	sym.Assume(t>>4 >= 4)
	e := encoding.NewEncoder()
	sym.Assert(e.APDU(btypes.APDU{DataType: btypes.PDUType(t & 0xF0)}) != nil, "refused")
	sym.Reach("end")
}

// IsConfirmed recognises confirmed requests.
func IsConfirmed() {
	t := sym.Byte("type")
	a := btypes.APDU{DataType: btypes.PDUType(t)}
	sym.Assert(a.IsConfirmedServiceRequest() == (t>>4 == 0), "confirmed requests are recognised")
	sym.Reach("end")
}

// Again: a header does not depend on those before it.
func Again() {
	ComplexAck()
	SimpleAck()
	Unconfirmed()
	ComplexAck()
	sym.Reach("again")
}

// Kept: headers and payloads stay as they are when others are decoded or encoded.
func Kept() {
	a, b := confirmed(), confirmed()
	first := encoding.NewEncoder()
	first.APDU(a)
	was := append([]byte(nil), first.Bytes()...)
	g, _, p := decode(octets(&a, 5))
	h, _, q := decode(octets(&b, 5))
	second := encoding.NewEncoder()
	second.APDU(b)
	sym.Assert(ref.Same(first.Bytes(), was), "the octets of the first")
	for _, x := range []struct {
		g, a btypes.APDU
		p    []byte
	}{{g, a, p}, {h, b, q}} {
		sym.Assert(x.g.InvokeId == x.a.InvokeId && x.g.Service == x.a.Service && x.g.SegmentedMessage == x.a.SegmentedMessage, "its own header")
		sym.Assert(len(x.p) == 0 || ref.Same(x.g.RawData, x.p), "its own payload")
	}
	sym.Reach("end")
}
