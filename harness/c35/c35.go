// Package c35: a request succeeds only on the device's own positive answer.
package c35

import (
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/fake"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

const (
	read = iota
	readMulti
	write
	writeMulti
	kinds
)

// limit is longer than any request waits: two tries of five seconds and the wait for an id.
const limit = 25 * time.Second

var service = []byte{12, 14, 15, 16}

// peer is where the client's requests go to.
var peer = fake.Mac(10, 0, 0, 9, 0xBA, 0xC0)

func device() btypes.Device { return btypes.Device{Addr: peer, MaxApdu: 1476} }

func target() btypes.Object {
	return btypes.Object{
		ID:         btypes.ObjectID{Type: 2, Instance: 7},
		Properties: []btypes.Property{{Type: 85, ArrayIndex: btypes.ArrayAll, Data: float32(1)}},
	}
}

// shape stands for the values of an answer with another number of objects or properties.
type shape struct{ objects int }

// do makes one request; values are those a read delivers.
func do(c bacnet.Client, kind int) (values interface{}, err error) {
	switch kind {
	case read:
		var got btypes.PropertyData
		if got, err = c.ReadProperty(device(), btypes.PropertyData{Object: target()}); err == nil {
			sym.Assert(len(got.Object.Properties) == 1, "one property")
			values = got.Object.Properties[0].Data
			sym.Assert(values != nil, "a read that succeeds has a value")
		}
	case readMulti:
		var got btypes.MultiplePropertyData
		if got, err = c.ReadMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{target()}}); err == nil && len(got.Objects) == 1 && len(got.Objects[0].Properties) == 1 {
			values = got.Objects[0].Properties[0].Data
		} else if err == nil {
			values = shape{len(got.Objects)}
		}
	case write:
		err = c.WriteProperty(device(), btypes.PropertyData{Object: target()})
	case writeMulti:
		err = c.WriteMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{target()}})
	}
	return
}

// positive is the acknowledgement of a request.
func positive(kind int, invoke byte, value []byte) []byte {
	switch kind {
	case read:
		return ref.Cat(ref.ComplexAck(invoke, 12), ref.Ctx(0, ref.ID(2, 7)), ref.Ctx(1, []byte{85}), ref.Open(3), value, ref.Close(3))
	case readMulti:
		return ref.Cat(ref.ComplexAck(invoke, 14), ref.Ctx(0, ref.ID(2, 7)), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), value, ref.Close(4), ref.Close(1))
	}
	return ref.SimpleAck(invoke, service[kind])
}

func invokeOf(f fake.Frame) byte { return f.Data[8] }

func packet(apdu []byte) []byte { return ref.Frame(0x0A, ref.Cat([]byte{1, 0}, apdu)) }

func timed(c bacnet.Client, kind int) (interface{}, error) {
	t := time.Now()
	v, err := do(c, kind)
	sym.Assert(time.Since(t) < limit, "the call returns within its timeout")
	return v, err
}

// Any answer of arbitrary octets.
func Any() {
	kind := sym.Choose("request", kinds)
	n := sym.Choose("octets", sym.Bound("octets of an answer", 12, 18))
	apdu := sym.Bytes("apdu", n)
	if n > 5 {
		sym.Assume(apdu[0]>>4 != 5) // Failure is about longer error answers
	}
	l := fake.New()
	c := l.Client()
	first := true
	var invoke byte
	l.OnSend = func(f fake.Frame) error {
		if first {
			invoke = invokeOf(f)
			l.Put(peer, packet(apdu))
		}
		first = false
		return nil
	}
	l.Run(c)
	_, err := timed(c, kind)
	if err == nil {
		sym.Reach("accepted")
		ack := byte(3)
		if kind >= write {
			ack = 2
		}
		sym.Assert(n >= 3 && apdu[0]>>4 == ack, "accepted is an acknowledgement of the right kind")
		sym.Assert(ack == 2 || apdu[0]&8 == 0, "a part of an answer is not accepted")
		sym.Assert(apdu[1] == invoke, "accepted is an answer to this request")
		sym.Assert(apdu[2] == service[kind], "accepted is an answer to this service")
	}
	l.Stop(c)
	sym.Reach("end")
}

// Contents of the acknowledgement are arbitrary octets.
func Contents() {
	kind := sym.Choose("request", readMulti+1)
	n := sym.Choose("octets", sym.Bound("octets of contents", 12, 15))
	contents := sym.Bytes("contents", n)
	l := fake.New()
	c := l.Client()
	first := true
	l.OnSend = func(f fake.Frame) error {
		if first {
			l.Put(peer, packet(ref.Cat(ref.ComplexAck(invokeOf(f), service[kind]), contents)))
		}
		first = false
		return nil
	}
	l.Run(c)
	_, err := timed(c, kind)
	if err == nil {
		sym.Reach("accepted")
	}
	l.Stop(c)
	sym.Reach("end")
}

// Positive answers deliver exactly their data.
func Positive() {
	kind := sym.Choose("request", kinds)
	v := val.Any("v", val.Kinds)
	l := fake.New()
	c := l.Client()
	n := 0
	l.OnSend = func(f fake.Frame) error {
		n++
		l.Put(peer, packet(positive(kind, invokeOf(f), v.Wire)))
		return nil
	}
	l.Run(c)
	got, err := timed(c, kind)
	sym.Assert(err == nil, "a positive answer is a success")
	if kind <= readMulti {
		val.Data(got, []val.V{v}, "the data of the answer")
	}
	sym.Assert(n == 1, "one request")
	l.Stop(c)
	sym.Reach("end")
}

const (
	right     = iota
	foreign   // a positive answer to another request
	failure   // an error answer
	service_  // a positive answer to another service
	otherType // the other kind of acknowledgement
	truncated // a positive answer that ends too early
	segment   // a part of an answer
	reject
	garbage
	request // a confirmed request of somebody with the same invoke id
	network // a network layer message that goes on like an answer
	answers
)

func answer(how, kind int, invoke byte, value float32) []byte {
	good := positive(kind, invoke, ref.AppReal(value))
	switch how {
	case right:
		return good
	case foreign:
		good[1] = sym.Byte("other id")
		sym.Assume(good[1] != invoke)
		return good
	case failure:
		class := []uint32{0, 2, 77}[sym.Choose("class", 3)]
		return ref.Error(invoke, service[kind], class, class*16)
	case service_:
		good[2] = sym.Byte("other service")
		sym.Assume(good[2] != service[kind])
		return good
	case otherType:
		if kind >= write {
			return ref.Cat(ref.ComplexAck(invoke, service[kind]), ref.AppReal(value))
		}
		return ref.SimpleAck(invoke, service[kind])
	case truncated:
		return good[:len(good)-1]
	case segment:
		if kind >= write {
			return good[:2]
		}
		return ref.Cat([]byte{0x38 | byte(sym.Choose("more", 2))<<2, invoke, sym.Byte("sequence"), sym.Byte("window"), service[kind]}, good[3:])
	case reject:
		return []byte{[]byte{0x60, 0x70}[sym.Choose("abort", 2)], invoke, sym.Byte("reason")}
	case request:
		return ref.Cat(ref.Confirmed(0x05, invoke, service[kind]), good[3:])
	}
	return []byte{0x90 | sym.Byte("low")&15, invoke, service[kind]}
}

// Full: answers as large as the client says it takes them, with all that may stand in front of them.
func Full() {
	kind := sym.Choose("request", 2)
	short := sym.Choose("octets below the limit", 3)
	frame := positive(kind, 0, ref.App(7, ref.Cat([]byte{0}, make([]byte, 300))))
	n := 1476 - short - (len(frame) - 301)
	s := make([]byte, n)
	for i := range s {
		s[i] = byte('a' + i%26)
	}
	last := sym.Byte("last octet")
	sym.Assume(last < 0x80 && last != 0)
	s[0], s[n-1] = 0, last
	// addresses in front
	npdu := []byte{1, 0}
	if sym.Choose("destination", 2) == 1 {
		npdu[1] |= 0x20
		npdu = ref.Cat(npdu, []byte{0xFF, 0xFF}, adr(sym.Choose("destination octets", 8)))
	}
	if sym.Choose("source", 2) == 1 {
		npdu[1] |= 0x08
		npdu = ref.Cat(npdu, []byte{0, 9}, adr(1+sym.Choose("source octets", 7)))
	}
	if npdu[1]&0x20 != 0 {
		npdu = append(npdu, 255)
	}
	forwarded := sym.Choose("forwarded", 2) == 1
	l := fake.New()
	c := l.Client()
	l.OnSend = func(f fake.Frame) error {
		apdu := positive(kind, invokeOf(f), ref.App(7, s))
		sym.Assert(len(apdu) == 1476-short, "the size of the answer")
		if forwarded {
			l.Put(peer, ref.Frame(0x04, ref.Cat(peer.Mac, npdu, apdu)))
		} else {
			l.Put(peer, ref.Frame(0x0A, ref.Cat(npdu, apdu)))
		}
		return nil
	}
	l.Run(c)
	got, err := timed(c, kind)
	sym.Assert(err == nil, "a positive answer is a success")
	v, ok := got.(string)
	sym.Assert(ok && v == string(s[1:]), "the data of the answer")
	l.Stop(c)
	sym.Reach("end")
}

// adr is an address with its length.
func adr(n int) []byte { return ref.Cat([]byte{byte(n)}, make([]byte, n)) }

// Sequence of answers of all kinds to one request.
func Sequence() {
	kind := sym.Choose("request", kinds)
	n := 1 + sym.Choose("answers", sym.Bound("answers to a request", 2, 3))
	l := fake.New()
	c := l.Client()
	var good []float32
	bad, sent := false, false
	l.OnSend = func(f fake.Frame) error {
		if sent {
			return nil // a second try is not answered
		}
		sent = true
		for i := 0; i < n; i++ {
			how, v := sym.Choose("answer", answers), sym.F32("value")
			if how == right {
				good = append(good, v)
			} else if how != foreign && how != request && how != network {
				bad = true
			}
			if how == network {
				l.Put(peer, ref.Frame(0x0A, ref.Cat([]byte{1, 0x80, []byte{0x02, 0x30, 0x80}[sym.Choose("message", 3)]}, answer(sym.Choose("like", 3)*2, kind, invokeOf(f), v))))
				continue
			}
			l.Put(peer, packet(answer(how, kind, invokeOf(f), v)))
		}
		return nil
	}
	l.Run(c)
	got, err := timed(c, kind)
	if err == nil {
		sym.Reach("success")
		sym.Assert(len(good) > 0, "a success needs a positive answer")
		if kind <= readMulti {
			v, ok := got.(float32)
			sym.Assert(ok, "the data of the answer")
			same := false
			for _, g := range good {
				same = same || val.SameF32(v, g)
			}
			sym.Assert(same, "the data of a positive answer")
		}
	} else {
		sym.Assert(len(good) == 0 || bad, "a positive answer is a success")
	}
	sym.Assert(sym.Quiesce() == 0, "nothing is left waiting")
	l.Stop(c)
	sym.Reach("end")
}

// Failure: a device that answers with an error makes the request fail with that error at once.
func Failure() {
	kind := sym.Choose("request", kinds)
	var class, code uint32
	if kind >= sym.Bound("requests whose every error is tried", 1, kinds) {
		class, code = []uint32{0, 2, 7, 65}[sym.Choose("class", 4)], []uint32{0, 31, 300, 65536}[sym.Choose("code", 4)]
	} else if sym.Choose("vary", 2) == 0 {
		class, code = uint32(sym.Byte("class")), []uint32{0, 31, 300, 65536}[sym.Choose("code", sym.Bound("codes", 2, 4))]
	} else {
		class, code = []uint32{0, 2, 7, 65}[sym.Choose("class", sym.Bound("classes", 2, 4))], uint32(sym.Byte("code"))
	}
	l := fake.New()
	c := l.Client()
	tries := 0
	l.OnSend = func(f fake.Frame) error {
		tries++
		l.Put(peer, packet(ref.Error(invokeOf(f), service[kind], class, code)))
		return nil
	}
	l.Run(c)
	t := time.Now()
	_, err := do(c, kind)
	sym.Assert(err != nil, "an error answer is an error")
	sym.Assert(time.Since(t) < 4*time.Second, "which is not waited for in vain")
	sym.Assert(tries == 1 || kind == readMulti || kind == writeMulti, "it ends a single read or write")
	l.Stop(c)
	sym.Reach("end")
}

// Silence makes a request fail in time; the answer to it, coming late, does not serve the next one.
func Silence() {
	kind := sym.Choose("request", kinds)
	next := sym.Choose("next request", kinds)
	late := sym.F32("late")
	value := sym.F32("value")
	answered := sym.Choose("next is answered", 2) == 1
	l := fake.New()
	c := l.Client()
	var first byte
	second := false
	l.OnSend = func(f fake.Frame) error {
		if !second {
			first = invokeOf(f)
			return nil
		}
		l.Put(peer, packet(positive(kind, first, ref.AppReal(late))))
		if answered {
			l.Put(peer, packet(positive(next, invokeOf(f), ref.AppReal(value))))
		}
		return nil
	}
	l.Run(c)
	_, err := timed(c, kind)
	sym.Assert(err != nil, "no answer is an error")
	second = true
	got, err := timed(c, next)
	sym.Assert((err == nil) == answered, "a late answer is not that to the next request")
	if answered && next <= readMulti {
		v, ok := got.(float32)
		sym.Assert(ok && val.SameF32(v, value), "the data of the answer")
	}
	l.Stop(c)
	sym.Reach("end")
}

// Retry: a failed first try does not spoil the second.
func Retry() {
	kind := readMulti + sym.Choose("request", 3)
	how := sym.Choose("first answer", 6)
	sym.Assume(how != 5 || kind == readMulti)
	value := sym.F32("value")
	l := fake.New()
	c := l.Client()
	tries := 0
	l.OnSend = func(f fake.Frame) error {
		tries++
		if tries == 1 {
			switch how {
			case 1:
				l.Put(peer, packet(answer(foreign, kind, invokeOf(f), 0)))
			case 2:
				l.Put(peer, packet(answer(service_, kind, invokeOf(f), 0)))
			case 3:
				l.Put(peer, packet(answer(failure, kind, invokeOf(f), 0)))
			case 4:
				l.Put(peer, packet(answer(truncated, kind, invokeOf(f), 3)))
			case 5: // one whole object, a part of another
				good := positive(readMulti, invokeOf(f), ref.AppReal(3))
				l.Put(peer, packet(ref.Cat(good, good[3:len(good)-1-sym.Choose("missing", 3)])))
			}
			return nil
		}
		l.Put(peer, packet(positive(kind, invokeOf(f), ref.AppReal(value))))
		return nil
	}
	l.Run(c)
	got, err := timed(c, kind)
	if tries > 1 {
		sym.Assert(err == nil, "the answer to the second try is a success")
		if kind <= readMulti {
			v, ok := got.(float32)
			sym.Assert(ok && val.SameF32(v, value), "the data of the answer")
		}
	} else {
		sym.Assert(err != nil, "no positive answer, no success")
	}
	l.Stop(c)
	sym.Reach("end")
}

// Heavy: large requests, and answers that are not positive until the given try.
func Heavy() {
	kind := sym.Choose("request", kinds)
	n := []int{5, 40, 80}[sym.Choose("size", 3)]
	good := sym.Choose("positive answer to try", 4)
	how := []int{failure, truncated, reject}[sym.Choose("other answers", 3)]
	value := sym.F32("value")
	o := target()
	text := make([]byte, n*12)
	for i := range text {
		text[i] = 'x'
	}
	o.Properties[0].Data = string(text)
	l := fake.New()
	c := l.Client()
	tries := 0
	l.OnSend = func(f fake.Frame) error {
		if tries == good {
			values := ref.AppReal(value)
			a := positive(kind, invokeOf(f), values)
			if kind == readMulti {
				a = ref.Cat(ref.ComplexAck(invokeOf(f), 14))
				for i := 0; i < n; i++ {
					a = ref.Cat(a, ref.Ctx(0, ref.ID(2, uint32(i))), ref.Open(1), ref.Ctx(2, []byte{85}), ref.Open(4), values, ref.Close(4), ref.Close(1))
				}
			}
			l.Put(peer, packet(a))
		} else {
			l.Put(peer, packet(answer(how, kind, invokeOf(f), value)))
		}
		tries++
		return nil
	}
	l.Run(c)
	t := time.Now()
	var err error
	switch kind {
	case read:
		_, err = c.ReadProperty(device(), btypes.PropertyData{Object: o})
	case readMulti:
		rp := btypes.MultiplePropertyData{}
		for i := 0; i < n; i++ {
			o := target()
			o.ID.Instance = btypes.ObjectInstance(i)
			rp.Objects = append(rp.Objects, o)
		}
		_, err = c.ReadMultiProperty(device(), rp)
	case write:
		err = c.WriteProperty(device(), btypes.PropertyData{Object: o})
	case writeMulti:
		err = c.WriteMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	}
	sym.Assert(time.Since(t) < limit, "the call returns within its timeout")
	sym.Assert((err == nil) == (tries > good), "a success if and only if there was a positive answer")
	sym.Assert(tries > 0, "the request was sent")
	l.Stop(c)
	sym.Reach("end")
}

// Crossed: two requests at a time, the answers in any order, mixed with one of nobody.
func Crossed() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 0, 1), 0)
	kind := [2]int{sym.Choose("request", kinds), sym.Choose("request", kinds)}
	value := [2]float32{sym.F32("value"), sym.F32("value")}
	order := sym.Choose("order", 2)
	slow := sym.Choose("slow link", 2) == 1
	l := fake.New()
	c := l.Client()
	var seen []fake.Frame
	both := make(chan bool, 1)
	l.OnSend = func(f fake.Frame) error {
		for _, s := range seen {
			sym.Assert(invokeOf(s) != invokeOf(f), "different invoke ids")
		}
		seen = append(seen, f)
		if len(seen) == 2 {
			both <- true
		} else if slow && len(seen) == 1 {
			sym.Settle() // the other request is made in the meantime
		}
		return nil
	}
	l.Run(c)
	done := make(chan bool, 2)
	for i := range kind {
		i := i
		go func() {
			got, err := do(c, kind[i])
			sym.Assert(err == nil, "a positive answer is a success")
			if kind[i] <= readMulti {
				v, ok := got.(float32)
				sym.Assert(ok, "the data of the answer")
				sym.Assert(val.SameF32(v, value[0]) || val.SameF32(v, value[1]), "the data of the answer")
			}
			done <- true
		}()
	}
	<-both
	for i := range seen {
		f := seen[(i+order)%2]
		// the answer carries the value of the request that has this service
		k := 0
		if f.Data[9] != service[kind[0]] {
			k = 1
		}
		l.Put(peer, packet(positive(kind[k], invokeOf(f), ref.AppReal(value[k]))))
	}
	<-done
	<-done
	l.Stop(c)
	sym.Reach("end")
}

// Buffers: datagrams that come after an answer do not alter it while it is decoded.
func Buffers() {
	sym.Race()
	sym.Preempt(0, 0)
	kind := sym.Choose("request", kinds)
	value := sym.F32("value")
	l := fake.New()
	c := l.Client()
	done := make(chan bool, 1)
	first := true
	l.OnSend = func(f fake.Frame) error {
		if !first {
			return nil
		}
		first = false
		go func() {
			l.Put(peer, packet(positive(kind, invokeOf(f), ref.AppReal(value))))
			for i := 0; i < sym.Bound("datagrams after the answer", 4, 6); i++ {
				sym.Settle()
				l.Put(peer, packet(positive(kind, 200+byte(i), ref.AppReal(77))))
			}
			done <- true
		}()
		return nil
	}
	l.Run(c)
	got, err := timed(c, kind)
	sym.Assert(err == nil, "a positive answer is a success")
	if kind <= readMulti {
		v, ok := got.(float32)
		sym.Assert(ok && val.SameF32(v, value), "the data of the answer")
	}
	<-done
	l.Stop(c)
	sym.Reach("end")
}

// Repeated: the caller uses the same request value again; it stays as it is, and so does what
// earlier calls returned, whatever the answers are.
func Repeated() {
	kind := sym.Choose("request", kinds)
	rounds := sym.Bound("requests", 3, 3)
	l := fake.New()
	c := l.Client()
	o := target()
	o.Name = "mine"
	objs := []btypes.Object{o}
	dev := device()
	dev.Addr.Mac = append([]byte(nil), peer.Mac...)
	var vs []val.V
	var fails []bool
	l.OnSend = func(f fake.Frame) error {
		i := len(vs) - 1
		if fails[i] {
			l.Put(peer, packet(ref.Cat([]byte{0x50, invokeOf(f), service[kind]}, ref.AppEnum(2), ref.AppEnum(31))))
		} else {
			l.Put(peer, packet(positive(kind, invokeOf(f), vs[i].Wire)))
		}
		return nil
	}
	l.Run(c)
	var got [3]interface{}
	for i := 0; i < rounds; i++ {
		v := val.Among("v", []int{val.Real, val.String, val.Octets})
		vs, fails = append(vs, v), append(fails, i < 2 && sym.Choose("error", 2) == 1)
		var err error
		switch kind {
		case read:
			var g btypes.PropertyData
			g, err = c.ReadProperty(dev, btypes.PropertyData{Object: objs[0]})
			if err == nil {
				sym.Assert(len(g.Object.Properties) == 1, "one property")
				got[i] = g
			}
		case readMulti:
			var g btypes.MultiplePropertyData
			g, err = c.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: objs})
			if err == nil {
				sym.Assert(len(g.Objects) == 1 && len(g.Objects[0].Properties) == 1, "one property")
				got[i] = btypes.PropertyData{Object: g.Objects[0]}
			}
		case write:
			err = c.WriteProperty(dev, btypes.PropertyData{Object: objs[0]})
		case writeMulti:
			err = c.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: objs})
		}
		sym.Assert((err != nil) == fails[i], "an error is an error, a positive answer a success")
		p := objs[0].Properties
		var x interface{}
		if len(p) == 1 {
			x = p[0].Data
		}
		d, ok := x.(float32)
		sym.Assert(len(objs) == 1 && objs[0].ID == o.ID && objs[0].Name == "mine" && len(p) == 1 && p[0].Type == 85 && p[0].ArrayIndex == btypes.ArrayAll && p[0].Priority == 0 && ok && d == 1, "the caller's request stays as it is")
		sym.Assert(ref.Same(dev.Addr.Mac, peer.Mac), "the device's address stays as it is")
	}
	for i := range got {
		if g, ok := got[i].(btypes.PropertyData); ok {
			val.Data(g.Object.Properties[0].Data, []val.V{vs[i]}, "the data of its own answer")
		}
	}
	l.Stop(c)
	sym.Reach("end")
}
