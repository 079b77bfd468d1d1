// Package c33: subscribers get exactly the announcements in their range; no deadlock.
package c33

import (
	"errors"
	"time"

	"github.com/NubeDev/bacnet/utsm"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const (
	ms      = time.Millisecond
	overall = 100 * ms
	last    = 20 * ms
)

type item struct {
	publisher, n int
	data         uint32
}

func manager() *utsm.Manager {
	m := utsm.NewManager(utsm.DefaultSubscriberTimeout(overall), utsm.DefaultSubscriberLastReceivedTimeout(last))
	sym.Idle()
	return m
}

// Ranges: every range, every announced id.
func Ranges() {
	m := manager()
	lo, hi := int(sym.I32("start")), int(sym.I32("end"))
	n := sym.Choose("announcements", sym.Bound("announcements", 5, 6))
	ids := make([]int, n)
	data := make([]uint32, n)
	for i := range ids {
		ids[i], data[i] = int(sym.I32("id")), sym.U32("data")
	}
	got, err := m.Request(func() error {
		for i := range ids {
			m.Publish(ids[i], item{0, i, data[i]})
		}
		return nil
	}, lo, hi)
	sym.Assert(err == nil, "no error")
	k := 0
	for i := range ids {
		if ids[i] < lo || ids[i] > hi {
			continue
		}
		sym.Assert(k < len(got), "every announcement in the range is received")
		x, ok := got[k].(item)
		sym.Assert(ok && x.n == i && x.data == data[i], "in publication order, unaltered")
		k++
	}
	sym.Assert(k == len(got), "nothing else is received")
	sym.Reach("end")
}

// Refused: when sending fails there is an error and no subscription is left.
func Refused() {
	m := manager()
	lo, hi := int(sym.I32("start")), int(sym.I32("end"))
	e := errors.New("not sent")
	got, err := m.Request(func() error { return e }, lo, hi)
	sym.Assert(err == e && len(got) == 0, "the error is returned")
	m.Publish(int(sym.I32("id")), item{})
	got, err = m.Request(func() error { return nil }, lo, hi)
	sym.Assert(err == nil && len(got) == 0, "nothing from before the subscription")
	sym.Reach("end")
}

// Left: subscriptions that have ended leave nothing behind, however they ended.
func Left() {
	m := manager()
	n := sym.Bound("subscriptions", 20, 40)
	e := errors.New("not sent")
	for i := 0; i < n; i++ {
		switch sym.Choose("end", 2) {
		case 0:
			_, err := m.Request(func() error { return e }, 0, 9)
			sym.Assert(err == e, "the error is returned")
		case 1:
			i = n // all the others time out
			for k := 0; k < n; k++ {
				got, err := m.Subscribe(0, 9)
				sym.Assert(err == nil && len(got) == 0, "nothing is announced")
			}
		}
	}
	x := item{}
	sym.AllocLimit("nothing is kept for those that have ended", 30000)
	for i := 0; i < 100; i++ {
		m.Publish(3, x)
	}
	sym.AllocEnd()
	sym.Reach("end")
}

// Burst: as many announcements as may be, before any is taken.
func Burst() {
	sym.Steps(50000000)
	m := manager()
	n := []int{16, 33, 64, 65, 128, 129, 256, 257, 1025}[sym.Choose("announcements", 9)]
	many := sym.Choose("subscriptions", 2) == 1
	done := make(chan bool, 8)
	if many {
		go func() {
			got, err := m.Subscribe(0, n)
			sym.Assert(err == nil, "no error")
			check(got, 0, n-1, 1, n, true)
			done <- true
		}()
		sym.Settle()
	}
	got, err := m.Request(func() error {
		for i := 0; i < n; i++ {
			m.Publish(i, item{0, i, 0})
		}
		return nil
	}, 0, n)
	sym.Assert(err == nil, "no error")
	check(got, 0, n-1, 1, n, true)
	if many {
		<-done
	}
	sym.Reach("end")
}

// Crowd: as many subscribers as there may be.
func Crowd() {
	sym.Preempt(-1, 0)
	sym.Steps(50000000)
	m := manager()
	n := []int{5, 9, 17, 33, 65, 129, 260}[sym.Choose("subscriptions", 7)]
	var at int
	if n < 20 {
		at = int(sym.Byte("announced"))
		sym.Assume(at <= n)
	} else {
		at = []int{0, 16, n / 2, n - 1}[sym.Choose("announced", 4)]
	}
	done := make(chan bool, n)
	for s := 0; s < n; s++ {
		s := s
		go func() {
			got, err := m.Subscribe(s, n)
			sym.Assert(err == nil, "no error")
			if at < s {
				sym.Assert(len(got) == 1, "exactly what is in the range is received")
			} else {
				sym.Assert(len(got) == 2 && got[1].(item).n == 1, "exactly what is in the range is received")
			}
			sym.Assert(got[0].(item).n == 0, "in publication order")
			done <- true
		}()
	}
	time.Sleep(last / 2)
	m.Publish(n, item{0, 0, 0})
	m.Publish(at, item{0, 1, 0})
	for s := 0; s < n; s++ {
		<-done
	}
	sym.Reach("end")
}

// check: what a subscriber to lo..hi got of the publishers' items, which have ids base+n.
func check(got []interface{}, lo, hi, publishers, items int, complete bool) {
	next := make([]int, publishers)
	for p := range next {
		next[p] = lo
	}
	for _, g := range got {
		x, ok := g.(item)
		sym.Assert(ok, "what is received has been published")
		sym.Assert(x.n >= lo && x.n <= hi, "nothing from outside the range")
		sym.Assert(x.n == next[x.publisher], "everything once and in the publisher's order")
		next[x.publisher]++
	}
	if complete {
		end := hi + 1
		if end > items {
			end = items
		}
		for p := range next {
			sym.Assert(next[p] >= end, "every announcement in the range is received")
		}
	}
}

func publish(m *utsm.Manager, p, items int, done chan bool) {
	for n := 0; n < items; n++ {
		m.Publish(n, item{p, n, 0})
	}
	done <- true
}

// Publishers: several publish at once after the request was sent.
func Publishers() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	m := manager()
	done := make(chan bool, 8)
	lo := sym.Choose("start", 2)
	hi := lo + sym.Choose("size", 2)
	got, err := m.Request(func() error {
		go publish(m, 0, 2, done)
		go publish(m, 1, 2, done)
		return nil
	}, lo, hi)
	sym.Assert(err == nil, "no error")
	check(got, lo, hi, 2, 2, true)
	<-done
	<-done
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Leaving: subscribers time out at any moment while announcements are published.
func Leaving() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 1, 2), sym.Bound("early timers", 2, 2))
	m := manager()
	done := make(chan bool, 8)
	lo := sym.Choose("start", 2)
	begin := time.Now()
	var at [3]time.Duration
	got, err := m.Request(func() error {
		go func() {
			for n := range at {
				m.Publish(n, item{0, n, 0})
				at[n] = time.Since(begin)
			}
			done <- true
		}()
		return nil
	}, lo, 2)
	sym.Assert(err == nil, "no error")
	check(got, lo, 2, 1, 3, false)
	<-done
	for n := lo; n < len(at); n++ {
		if at[n] < last { // no timeout can have ended the subscription before
			sym.Reach("in time")
			sym.Assert(n-lo < len(got), "what is published before the timeouts is received")
		}
	}
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Subscribers come and go, each with a range of its own, while others publish.
func Subscribers() {
	sym.Race()
	sym.Preempt(1, sym.Bound("early timers", 0, 1))
	m := manager()
	done := make(chan bool, 8)
	for s := 0; s < 2; s++ {
		s := s
		go func() {
			got, err := m.Request(func() error { return nil }, s, s+1)
			sym.Assert(err == nil, "no error")
			for _, g := range got {
				x := g.(item)
				sym.Assert(x.n >= s && x.n <= s+1, "nothing from outside the range")
			}
			if len(got) > 1 {
				sym.Assert(got[0].(item).n < got[1].(item).n, "in publication order, once")
			}
			sym.Assert(len(got) <= 2, "everything once")
			done <- true
		}()
	}
	go publish(m, 0, 3, done)
	for i := 0; i < 3; i++ {
		<-done
	}
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Nested: a subscription in place gets everything although another one ends or begins meanwhile.
func Nested() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	m := manager()
	done := make(chan bool, 8)
	short := sym.Choose("other", 2) == 1
	got, err := m.Request(func() error {
		go func() {
			var err error
			if short {
				_, err = m.Request(func() error { return errors.New("not sent") }, 0, 9)
				sym.Assert(err != nil, "the error is returned")
			} else {
				_, err = m.Subscribe(5, 9)
				sym.Assert(err == nil, "no error")
			}
			done <- true
		}()
		go publish(m, 0, 2, done)
		return nil
	}, 0, 1)
	sym.Assert(err == nil, "no error")
	check(got, 0, 1, 1, 2, true)
	<-done
	<-done
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Order: subscriptions made one after the other are taken out in every order.
func Order() {
	m := manager()
	done := make(chan bool, 8)
	n := 3
	gone := sym.Choose("first to leave", n)
	equal := sym.Choose("equal ranges", 2) == 1
	sent := false
	for s := 0; s < n; s++ {
		s := s
		go func() {
			lo, hi := s*10, s*10+10
			if equal {
				lo, hi = 15, 25
			}
			got, err := m.Request(func() error {
				if s == gone {
					time.Sleep(last / 4)
					return errors.New("not sent")
				}
				return nil
			}, lo, hi)
			sym.Assert((err != nil) == (s == gone), "only the one whose request was not sent fails")
			if s != gone && equal {
				sym.Assert(sent, "the others wait")
				sym.Assert(len(got) == 1 && got[0].(item).n == 20, "and get what is in their range")
			} else if s != gone {
				sym.Assert(sent, "the others wait")
				sym.Assert(len(got) == 2, "and get what is in their range")
				a, b := got[0].(item), got[1].(item)
				sym.Assert(a.n == s*10 && b.n == s*10+10, "and get what is in their range")
			}
			done <- true
		}()
	}
	time.Sleep(last / 2)
	for i := 0; i <= n; i++ {
		m.Publish(i*10, item{0, i * 10, 0})
	}
	sent = true
	for s := 0; s < n; s++ {
		<-done
	}
	sym.Reach("end")
}

// Times: a subscription ends after its overall timeout, or when nothing is published for its other timeout.
func Times() {
	m := manager()
	done := make(chan bool, 8)
	gap := []time.Duration{5 * ms, 19 * ms, 50 * ms}[sym.Choose("gap", 3)]
	items := []int{1, 2, 3, 5, 15, 30, 60}[sym.Choose("items", 7)]
	start := time.Now()
	got, err := m.Request(func() error {
		go func() {
			for n := 0; n < items; n++ {
				time.Sleep(gap)
				m.Publish(n, item{0, n, 0})
			}
			done <- true
		}()
		return nil
	}, 0, 1000)
	took := time.Since(start)
	sym.Assert(err == nil, "no error")
	check(got, 0, 1000, 1, items, false)
	slack := time.Duration(0) // with the engine's clock the times are exact
	if !sym.Symbolic() {
		slack = 5 * ms
	}
	sym.Assert(took <= overall+slack, "no longer than the overall timeout")
	want := 0
	if gap < last {
		want = items
		if limit := int((overall - 1) / gap); want > limit {
			want = limit
		}
	}
	sym.Assert(len(got) >= want, "everything published before the timeouts is received")
	if time.Duration(items)*gap+last < overall {
		sym.Assert(took <= time.Duration(items)*gap+last+slack, "no longer than the time after the last announcement")
	}
	if gap >= last {
		sym.Assert(took >= last, "no shorter than the time for an answer")
	}
	<-done
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}

// Nobody listens: publishing goes on.
func Nobody() {
	m := manager()
	m.Publish(int(sym.I32("id")), item{})
	got, err := m.Subscribe(int(sym.I32("start")), int(sym.I32("end")))
	sym.Assert(err == nil && len(got) == 0, "nothing from before the subscription")
	m.Publish(int(sym.I32("id")), item{})
	sym.Reach("end")
}

// Plain: subscriptions that are in place when publishing starts.
func Plain() {
	sym.Race()
	sym.Preempt(sym.Bound("preemptions", 2, 3), 0)
	m := manager()
	done := make(chan bool, 8)
	for s := 0; s < 2; s++ {
		s := s
		go func() {
			got, err := m.Subscribe(s, 1)
			sym.Assert(err == nil, "no error")
			check(got, s, 1, 1, 2, true)
			done <- true
		}()
	}
	time.Sleep(last / 4)
	go publish(m, 0, 2, done)
	for i := 0; i < 3; i++ {
		<-done
	}
	sym.Assert(sym.Quiesce() == 0, "nobody is blocked")
	sym.Reach("end")
}
