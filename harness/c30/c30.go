// Package c30: concurrent requests never share a transaction id and respect the limit.
package c30

import (
	"context"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// tick is what a caller waits for an id.
const tick = 100 * time.Millisecond

// book is what the callers can see of a manager: the ids they hold.
type book struct {
	size, held int
	used       [256]bool
}

func (b *book) take(id int) {
	sym.Assert(id >= 1 && id <= 254, "ids lie in 1..254")
	sym.Assert(!b.used[id], "no two outstanding transactions have the same id")
	b.used[id] = true
	b.held++
	sym.Assert(b.held <= b.size, "never more outstanding transactions than the configured size")
}

func (b *book) drop(id int) {
	b.used[id] = false
	b.held--
}

// all: when everything has been returned, size transactions can start again and no more.
func all(t *tsm.TSM, size int) {
	b := &book{size: size}
	var ids []int
	for i := 0; i < size; i++ {
		id, err := t.ID(context.Background())
		sym.Assert(err == nil, "every returned id becomes available again")
		b.take(id)
		ids = append(ids, id)
	}
	c, cancel := context.WithTimeout(context.Background(), tick)
	_, err := t.ID(c)
	cancel()
	sym.Assert(err != nil, "no id beyond the configured size")
	for _, id := range ids {
		sym.Assert(t.Put(id) == nil, "every id can be returned")
	}
}

func worker(t *tsm.TSM, b *book, rounds int, wait time.Duration, done chan bool) {
	for i := 0; i < rounds; i++ {
		c, cancel := context.WithTimeout(context.Background(), wait)
		id, err := t.ID(c)
		if err == nil {
			b.take(id)
			b.drop(id)
			sym.Assert(t.Put(id) == nil, "an id can be returned")
		} else {
			sym.Assert(id == 0, "an error gives no id")
		}
		cancel()
	}
	done <- true
}

func workers(n int) {
	size := 1 + sym.Choose("size", 2)
	t := tsm.New(size)
	sym.Idle()
	b := &book{size: size}
	done := make(chan bool, 8)
	for i := 0; i < n; i++ {
		go worker(t, b, 1, tick, done)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Assert(sym.Quiesce() == 0, "nothing stays blocked")
	all(t, size)
	sym.Reach("end")
}

// Two: callers start and finish transactions, their contexts may end at any moment.
func Two() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 3, 4), 1)
	workers(2)
}

// Three: more callers than a manager has room for.
func Three() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	workers(3)
}

// Four callers, switching where they block.
func Four() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 0, 1), 0)
	workers(4)
}

// Rounds: two callers do so repeatedly.
func Rounds() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	size := 1 + sym.Choose("size", 2)
	t := tsm.New(size)
	sym.Idle()
	b := &book{size: size}
	done := make(chan bool, 8)
	for i := 0; i < 2; i++ {
		go worker(t, b, 2, tick, done)
	}
	<-done
	<-done
	all(t, size)
	sym.Reach("end")
}

// Holders: transactions that use their time to wait for an answer, which may come.
func Holders() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 1), sym.Bound("early timers", 0, 1))
	size := 1 + sym.Choose("size", 2)
	t := tsm.New(size)
	sym.Idle()
	b := &book{size: size}
	done := make(chan bool, 8)
	var sent int
	for i := 0; i < 2; i++ {
		go func() {
			c, cancel := context.WithTimeout(context.Background(), tick)
			defer cancel()
			id, err := t.ID(c)
			if err == nil {
				b.take(id)
				t.Receive(id, 3*tick)
				b.drop(id)
				sym.Assert(t.Put(id) == nil, "an id can be returned")
			}
			done <- true
		}()
	}
	go func() {
		sent = 1 + sym.Choose("answered id", 2)
		t.Send(sent, sym.U32("data"))
		done <- true
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	sym.Assert(sym.Quiesce() == 0, "nothing stays blocked")
	all(t, size)
	sym.Reach("end")
}

// Reused: when all other ids are in use a returned id is at once that of the next transaction.
func Reused() {
	t := tsm.New(255)
	sym.Idle()
	b := &book{size: 255}
	for i := 0; i < 253; i++ {
		id, err := t.ID(context.Background())
		sym.Assert(err == nil, "as many transactions as configured and as there are ids")
		b.take(id)
	}
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	done := make(chan bool, 8)
	for i := 0; i < 2; i++ {
		go worker(t, b, sym.Bound("rounds", 1, 2), tick, done)
	}
	<-done
	<-done
	sym.Assert(sym.Quiesce() == 0, "nothing stays blocked")
	c, cancel := context.WithTimeout(context.Background(), tick)
	id, err := t.ID(c)
	cancel()
	sym.Assert(err == nil, "the last id is available again")
	b.take(id)
	sym.Reach("end")
}

// Cancelled: a context that is over already.
func Cancelled() {
	sym.Race()
	sym.Preempt(2, 1)
	t := tsm.New(1)
	sym.Idle()
	b := &book{size: 1}
	done := make(chan bool, 8)
	c, cancel := context.WithCancel(context.Background())
	go func() {
		id, err := t.ID(c)
		if err == nil {
			b.take(id)
			b.drop(id)
			sym.Assert(t.Put(id) == nil, "an id can be returned")
		}
		done <- true
	}()
	go worker(t, b, 1, tick, done)
	cancel()
	<-done
	<-done
	all(t, 1)
	sym.Reach("end")
}

// Sizes: every configured size, also beyond the number of ids there are.
func Sizes() {
	size := []int{0, 1, 2, 20, 253, 254, 255, 256, 300}[sym.Choose("size", 9)]
	t := tsm.New(size)
	sym.Idle()
	b := &book{size: size}
	var ids []int
	for i := 0; i < size && i < 254; i++ {
		c, cancel := context.WithTimeout(context.Background(), tick)
		id, err := t.ID(c)
		cancel()
		sym.Assert(err == nil, "as many transactions as configured and as there are ids")
		b.take(id)
		ids = append(ids, id)
	}
	c, cancel := context.WithTimeout(context.Background(), tick)
	_, err := t.ID(c)
	cancel()
	sym.Assert(err != nil, "no more than that")
	sym.Settle()
	sym.Assert(t.Put(0) != nil && t.Put(255) != nil && t.Put(-1) != nil, "ids that are not in use cannot be returned")
	// every id that is returned can be had again
	if len(ids) > 0 {
		k := ids[sym.Choose("returned", 3)%len(ids)]
		b.drop(k)
		sym.Assert(t.Put(k) == nil, "an id can be returned")
		sym.Assert(t.Put(k) != nil, "but not twice")
		c, cancel := context.WithTimeout(context.Background(), tick)
		id, err := t.ID(c)
		cancel()
		sym.Assert(err == nil, "it is available again")
		b.take(id)
	}
	sym.Reach("end")
}

// Never: an id is not lost in any number of transactions that end in turn.
func Never() {
	t := tsm.New(1)
	sym.Idle()
	b := &book{size: 1}
	for i := 0; i < sym.Bound("transactions in a row", 1100, 3000); i++ {
		c, cancel := context.WithTimeout(context.Background(), tick)
		id, err := t.ID(c)
		cancel()
		sym.Assert(err == nil, "every id that is returned becomes available again")
		b.take(id)
		b.drop(id)
		sym.Assert(t.Put(id) == nil, "an id can be returned")
	}
	sym.Reach("end")
}
