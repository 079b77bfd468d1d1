// Package c31: a reply reaches only the transaction it belongs to, and nothing crashes.
package c31

import (
	"context"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const tick = 100 * time.Millisecond

type reply struct {
	id   int
	data uint32
}

// get receives once and checks that what comes is a reply to this very transaction.
func get(t *tsm.TSM, id int, mine func(uint32) bool) bool {
	v, err := t.Receive(id, tick)
	if err != nil {
		return false
	}
	r, ok := v.(reply)
	sym.Assert(ok, "no empty result without an error")
	sym.Assert(r.id == id, "a reply reaches only the transaction it belongs to")
	sym.Assert(mine(r.data), "the data are unaltered")
	return true
}

// Exchange: two transactions, a reply for each, duplicates of one.
func Exchange() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 1, 2), 0)
	t := tsm.New(2)
	sym.Idle()
	done := make(chan bool, 8)
	var data [3]uint32
	sent, got := 0, 0
	var ids [2]int
	for i := range ids {
		id, err := t.ID(context.Background())
		sym.Assert(err == nil, "an id")
		ids[i] = id
		data[i] = sym.U32("data")
	}
	sym.Assert(ids[0] != ids[1], "different ids")
	for i := range ids {
		i := i
		go func() {
			if get(t, ids[i], func(d uint32) bool { return d == data[i] }) {
				got++
			}
			sym.Assert(t.Put(ids[i]) == nil, "the id can be returned")
			done <- true
		}()
		go func() {
			if t.Send(ids[i], reply{ids[i], data[i]}) == nil {
				sent++
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	sym.Assert(got <= sent, "what is sent is received at most once")
	sym.Assert(sym.Quiesce() == 0, "no sender is blocked")
	sym.Reach("end")
}

// Duplicates: several replies to one transaction, which is released at any moment.
func Duplicates() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 2), sym.Bound("early timers", 1, 1))
	t := tsm.New(1)
	sym.Idle()
	done := make(chan bool, 8)
	id, err := t.ID(context.Background())
	sym.Assert(err == nil, "an id")
	data := [2]uint32{sym.U32("data"), sym.U32("data")}
	sent, got := 0, 0
	for i := range data {
		i := i
		go func() {
			if t.Send(id, reply{id, data[i]}) == nil {
				sent++
			}
			done <- true
		}()
	}
	var seen [2]bool
	receives := sym.Choose("receives", 3)
	for k := 0; k < receives; k++ {
		if get(t, id, func(d uint32) bool {
			for i := range data {
				if d == data[i] && !seen[i] {
					seen[i] = true
					return true
				}
			}
			return false
		}) {
			got++
		}
	}
	sym.Assert(t.Put(id) == nil, "the id can be returned")
	sym.Assert(t.Put(id) != nil, "but only once")
	<-done
	<-done
	sym.Assert(got <= sent, "what is sent is received at most once")
	sym.Assert(sym.Quiesce() == 0, "no sender is blocked")
	_, err = t.Receive(id, tick)
	sym.Assert(err != nil, "nothing to receive afterwards")
	sym.Assert(t.Send(id, reply{id, 1}) != nil, "nobody to send to afterwards")
	sym.Reach("end")
}

// Reuse: replies that wait for a transaction that ends, its id being in use again.
func Reuse() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	t := tsm.New(254)
	sym.Idle()
	done := make(chan bool, 8)
	var all []int
	for i := 0; i < 254; i++ {
		id, err := t.ID(context.Background())
		sym.Assert(err == nil, "an id")
		all = append(all, id)
	}
	id := all[sym.Choose("id", 2)*253]
	young := sym.U32("data")
	late := 1 + sym.Choose("late replies", 2)
	if sym.Choose("waits", 2) == 1 {
		sym.Assert(!get(t, id, func(uint32) bool { return false }), "nothing in time")
	}
	for i := 0; i < late; i++ {
		go func() {
			t.Send(id, reply{-1, 0})
			done <- true
		}()
	}
	time.Sleep(tick / 2) // by now they wait
	sym.Assert(t.Put(id) == nil, "the id can be returned")
	// All other ids are taken: this is the one that comes again.
	second, err := t.ID(context.Background())
	sym.Assert(err == nil && second == id, "the returned id")
	go func() {
		t.Send(id, reply{id, young})
		done <- true
	}()
	get(t, id, func(d uint32) bool { return d == young })
	sym.Assert(t.Put(id) == nil, "the id can be returned")
	for i := 0; i <= late; i++ {
		<-done
	}
	sym.Assert(sym.Quiesce() == 0, "no sender is blocked")
	sym.Reach("end")
}

// Ends: the transaction is released while somebody waits on it and somebody sends.
func Ends() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), sym.Bound("early timers", 1, 1))
	t := tsm.New(2)
	sym.Idle()
	done := make(chan bool, 8)
	id, err := t.ID(context.Background())
	sym.Assert(err == nil, "an id")
	data := sym.U32("data")
	sent, got := 0, 0
	go func() {
		if get(t, id, func(d uint32) bool { return d == data }) {
			got++
		}
		done <- true
	}()
	go func() {
		if t.Send(id, reply{id, data}) == nil {
			sent++
		}
		done <- true
	}()
	sym.Assert(t.Put(id) == nil, "the id can be returned")
	<-done
	<-done
	sym.Assert(got <= sent, "what is sent is received at most once")
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Unknown: ids nobody uses, any number.
func Unknown() {
	t := tsm.New(3)
	sym.Idle()
	id, err := t.ID(context.Background())
	sym.Assert(err == nil, "an id")
	k := int(sym.I32("other id"))
	sym.Assume(k != id)
	switch sym.Choose("operation", 3) {
	case 0:
		sym.Assert(t.Send(k, reply{k, 1}) != nil, "nobody to send to")
	case 1:
		v, err := t.Receive(k, tick)
		sym.Assert(err != nil && v == nil, "nothing to receive")
	case 2:
		sym.Assert(t.Put(k) != nil, "nothing to return")
	}
	v, err := t.Receive(id, tick)
	sym.Assert(err != nil && v == nil, "a timeout is an error")
	sym.Assert(t.Put(id) == nil, "the id can be returned")
	sym.Reach("end")
}

// Values: whatever the data are, they arrive as they were sent.
func Values() {
	t := tsm.New(1)
	sym.Idle()
	id, err := t.ID(context.Background())
	sym.Assert(err == nil, "an id")
	var in interface{}
	switch sym.Choose("kind", 4) {
	case 0:
		in = sym.U64("data")
	case 1:
		in = sym.Str("data", 3)
	case 2:
		in = &reply{id, sym.U32("data")}
	case 3:
		in = context.Canceled // an error as an answer
	}
	done := make(chan bool, 1)
	go func() {
		sym.Assert(t.Send(id, in) == nil, "the receiver is there")
		done <- true
	}()
	v, err := t.Receive(id, time.Hour)
	sym.Assert(err == nil, "the data arrive")
	sym.Assert(v == in, "as they were sent")
	<-done
	sym.Reach("end")
}
