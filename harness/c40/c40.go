// Package c40: every request gives its transaction back.
package c40

import (
	"errors"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const (
	read = iota
	readMulti
	write
	writeMulti
	kinds
)

var service = []byte{12, 14, 15, 16}

// slots is the number of requests of a client that can be outstanding; ids the number of invoke ids.
const (
	slots = 20
	ids   = 254
	limit = 25 * time.Second
)

var peer = fake.Mac(10, 0, 0, 9, 0xBA, 0xC0)

func device() btypes.Device { return btypes.Device{Addr: peer, MaxApdu: 1476} }

func target() btypes.Object {
	return btypes.Object{
		ID:         btypes.ObjectID{Type: 2, Instance: 7},
		Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll, Data: float32(1)}},
	}
}

func do(c bacnet.Client, kind int, d btypes.Device, o btypes.Object) error {
	t := time.Now()
	var err error
	switch kind {
	case read:
		_, err = c.ReadProperty(d, btypes.PropertyData{Object: o})
	case readMulti:
		_, err = c.ReadMultiProperty(d, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	case write:
		err = c.WriteProperty(d, btypes.PropertyData{Object: o})
	case writeMulti:
		err = c.WriteMultiProperty(d, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	}
	sym.Assert(time.Since(t) < limit, "a request returns within its timeout")
	return err
}

func positive(kind int, invoke byte) []byte {
	switch kind {
	case read:
		return ref.Cat(ref.ComplexAck(invoke, 12), ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), ref.AppReal(1), ref.Close(3))
	case readMulti:
		return ref.Cat(ref.ComplexAck(invoke, 14), ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), ref.AppReal(1), ref.Close(4), ref.Close(1))
	}
	return ref.SimpleAck(invoke, service[kind])
}

func packet(apdu []byte) []byte { return ref.Frame(0x0A, ref.Cat([]byte{1, 0}, apdu)) }

// What happens to a request.
const (
	success = iota
	sendFailure
	failure  // an error answer
	negative // reject, abort or a foreign acknowledgement, then nothing
	garbage
	silence
	refusedTarget // the request cannot be expressed
	refusedValue
	refusedSize
	outcomes
)

var errSend = errors.New("cannot send")

// req is one request and its outcome.
type req struct {
	kind, how int
	d         btypes.Device
	o         btypes.Object
	answer    []byte // without the invoke id
}

func request() req {
	return of(sym.Choose("request", kinds), sym.Choose("outcome", outcomes))
}

func of(kind, how int) req {
	r := req{kind: kind, how: how, d: device(), o: target()}
	switch how {
	case failure:
		class := []uint32{0, 2, 77}[sym.Choose("class", 3)]
		r.answer = ref.Error(0, service[kind], class, class+32)
	case negative:
		switch sym.Choose("answer", 3) {
		case 0:
			r.answer = []byte{0x60, 0, sym.Byte("reason")}
		case 1:
			r.answer = []byte{0x71, 0, sym.Byte("reason")}
		default:
			r.answer = positive(kind, 0)
			r.answer[2] = sym.Byte("other service")
			sym.Assume(r.answer[2] != service[kind])
		}
	case garbage:
		r.answer = ref.Cat([]byte{0x30, 0, service[kind]}, sym.Bytes("contents", 4))
		if kind >= write {
			r.answer[0] = 0x40 | sym.Byte("first")&0x3F
		}
	case refusedTarget:
		switch sym.Choose("target", 3) {
		case 0:
			r.o.ID.Type = btypes.ObjectType(sym.U16("type"))
			sym.Assume(r.o.ID.Type > 1023)
		case 1:
			n := sym.U32("instance")
			sym.Assume(n > 0x3FFFFF)
			r.o.ID.Instance = btypes.ObjectInstance(n)
		default:
			n := sym.U32("property")
			sym.Assume(n > 0x3FFFFF)
			r.o.Properties[0].Type = btypes.PropertyType(n)
		}
	case refusedValue:
		sym.Assume(kind >= write)
		if sym.Choose("value", 2) == 0 {
			r.o.Properties[0].Data = struct{ X int }{sym.Int("x", 0, 9)}
		} else {
			sym.Assume(kind == write)
			r.o.Properties = nil
		}
	case refusedSize:
		sym.Assume(kind == readMulti || kind == writeMulti)
		r.d.MaxApdu = sym.U32("max apdu")
		sym.Assume(r.d.MaxApdu < 12)
	}
	return r
}

// on is what happens to a datagram of the request.
func (r *req) on(l *fake.Link, f fake.Frame) error {
	invoke := f.Data[8]
	switch r.how {
	case success:
		l.Put(peer, packet(positive(r.kind, invoke)))
	case sendFailure:
		return errSend
	case failure, negative, garbage:
		a := append([]byte(nil), r.answer...)
		a[1] = invoke
		l.Put(peer, packet(a))
	case silence:
	default:
		sym.Assert(len(f.Data) == 0, "a refused request is not sent")
	}
	return nil
}

// full: as many requests as there are slots can still be outstanding at the same time.
func full(c bacnet.Client, l *fake.Link) {
	hold := make(chan bool)
	begun, done := 0, make(chan error, slots)
	var used [256]bool
	l.OnSend = func(f fake.Frame) error {
		if begun < slots {
			invoke := f.Data[8]
			sym.Assert(invoke >= 1 && invoke <= ids, "an invoke id of the client")
			sym.Assert(!used[invoke], "no invoke id twice at the same time")
			used[invoke] = true
			begun++
			<-hold
		}
		return errSend
	}
	for i := 0; i < slots; i++ {
		go func() { done <- do(c, write, device(), target()) }()
		sym.Settle()
		sym.Assert(begun == i+1, "the transaction of every earlier request is free again")
	}
	for i := 0; i < slots; i++ {
		hold <- true
		sym.Settle()
		sym.Assert(<-done != nil, "a request that could not be sent fails")
	}
}

// Outcomes: requests of all kinds with any outcome one after the other.
func Outcomes() {
	n := sym.Bound("requests one after the other", 1, 2)
	if n > 1 {
		sym.Preempt(-1, 0)
	}
	l := fake.New()
	c := l.Client()
	l.Run(c)
	for i := 0; i < n; i++ {
		r := request()
		l.OnSend = func(f fake.Frame) error { return r.on(l, f) }
		err := do(c, r.kind, r.d, r.o)
		if r.how == success {
			sym.Assert(err == nil, "a request that is answered succeeds")
		} else if r.how != garbage {
			sym.Assert(err != nil, "a request that was not answered or sent fails")
		}
	}
	full(c, l)
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	l.Stop(c)
	sym.Reach("end")
}

// Heavy: requests of any size up to the largest, once more than there are slots, with any outcome.
func Heavy() {
	sym.Preempt(-1, 0)
	kind := sym.Choose("request", kinds)
	n := []int{100, 1100, 1400, 5000, 70000}[sym.Choose("octets", 5)]
	r := of(kind, []int{success, sendFailure, failure, silence}[sym.Choose("outcome", 4)])
	text := make([]byte, n)
	for i := range text {
		text[i] = 'x'
	}
	r.o.Properties[0].Data = string(text)
	if kind <= readMulti { // many properties
		for len(r.o.Properties) < n/3 && len(r.o.Properties) < 1500 {
			r.o.Properties = append(r.o.Properties, r.o.Properties[0])
		}
		sym.Assume(n < 5000)
	}
	l := fake.New()
	c := l.Client()
	l.Run(c)
	l.OnSend = func(f fake.Frame) error { return r.on(l, f) }
	for i := 0; i < slots+1; i++ {
		do(c, r.kind, r.d, r.o)
	}
	full(c, l)
	l.Stop(c)
	sym.Reach("end")
}

// Many: more requests with the same outcome than there are invoke ids.
func Many() {
	sym.Preempt(-1, 0)
	sym.Steps(2000000000)
	r := of(sym.Choose("request", kinds), []int{success, sendFailure, failure, silence, refusedTarget, refusedValue}[sym.Choose("outcome", 6)])
	l := fake.New()
	c := l.Client()
	l.Run(c)
	l.OnSend = func(f fake.Frame) error { return r.on(l, f) }
	for i := 0; i < ids+2; i++ {
		err := do(c, r.kind, r.d, r.o)
		sym.Assert((err == nil) == (r.how == success), "every request ends like the first")
	}
	full(c, l)
	l.Stop(c)
	sym.Reach("end")
}

// Late: answers that come when the request has been given up, or twice, free nothing twice.
func Late() {
	kind := sym.Choose("request", kinds)
	copies := 1 + sym.Choose("copies", 3)
	late := sym.Choose("late", 2) == 1
	l := fake.New()
	c := l.Client()
	l.Run(c)
	var invoke byte
	l.OnSend = func(f fake.Frame) error {
		invoke = f.Data[8]
		for i := 0; i < copies && !late; i++ {
			l.Put(peer, packet(positive(kind, invoke)))
		}
		return nil
	}
	err := do(c, kind, device(), target())
	sym.Assert((err == nil) == !late, "answered in time")
	for i := 0; i < copies && late; i++ {
		l.Put(peer, packet(positive(kind, invoke)))
	}
	sym.Settle()
	full(c, l)
	l.Stop(c)
	sym.Reach("end")
}

// Together: as many requests as there are slots time out at the same time, three times.
func Together() {
	sym.Preempt(-1, 0)
	kind := sym.Choose("request", kinds)
	l := fake.New()
	c := l.Client()
	l.Run(c)
	for round := 0; round < sym.Bound("rounds", 2, 4); round++ {
		done := make(chan error, slots)
		l.OnSend = func(fake.Frame) error { return nil }
		for i := 0; i < slots; i++ {
			go func() { done <- do(c, kind, device(), target()) }()
			sym.Settle()
		}
		// one more has to wait for a slot, in vain
		sym.Assert(do(c, write, device(), target()) != nil, "no request beyond the slots")
		for i := 0; i < slots; i++ {
			sym.Assert(<-done != nil, "a request without an answer fails")
		}
	}
	full(c, l)
	l.Stop(c)
	sym.Reach("end")
}
