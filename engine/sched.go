package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDone
	gQuiesce // waiting until nothing else can happen
	gSettle  // waiting until nothing else can happen before the clock advances
)

type G struct {
	r      *Run
	id     int
	name   string
	state  gstate
	wake   chan struct{}
	top    *frame
	why    string
	whyPos string
	vc     []uint32
	daemon bool
	start  func()
	sleepT *Timer
}

type Sched struct {
	many      bool
	gs        []*G
	cur       *G
	multi     bool
	log       []string
	lastStack string
	nopreempt int
	preempts  int
	early     int
	killed    bool
	done      chan any
	wg        sync.WaitGroup
	timers    []*Timer
	tseq      int
	chans     int
	exitOK    bool
	yieldsOff bool
	ntimers   int
	idle      int
	quietFrom int64
}

// Timer models runtime timers; f is run in a goroutine of its own when it fires.
type Timer struct {
	when   int64
	period int64
	seq    int
	fire   func(g *G)
	active bool
	vc     []uint32
	name   string
}

func (r *Run) execMain(c *cfn, args []Value) {
	s := &r.sch
	s.done = make(chan any, 1)
	g := r.newG("main")
	s.cur = g
	r.counting = true
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		res := r.guard(g, func() { g.call(nil, c, args, nil) })
		s.done <- res
	}()
	res := <-s.done
	// stop every other goroutine
	s.killed = true
	for _, o := range s.gs {
		if o != g && o.state != gDone {
			select {
			case o.wake <- struct{}{}:
			default:
			}
		}
	}
	select {
	case g.wake <- struct{}{}:
	default:
	}
	s.wg.Wait()
	if res != nil {
		if e, ok := res.(engineErr); ok {
			panic(fmt.Sprintf("%v\n%s", e.v, e.stack))
		}
		panic(res)
	}
}

type engineErr struct {
	v     any
	stack string
}

// guard runs fn as the body of goroutine g and turns an uncaught target panic into a violation.
func (r *Run) guard(g *G, fn func()) (res any) {
	defer func() {
		if x := recover(); x != nil {
			switch p := x.(type) {
			case *targetPanic:
				res = r.uncaught(g, p)
			case abortPath, pathEnd:
				res = x
			case unsupportedErr:
				if !r.sch.killed {
					r.sch.lastStack = g.stackString()
				}
				res = x
			default:
				res = engineErr{x, g.stackString()}
				if verbose {
					logf("engine panic: %v\n%s\n%s", x, g.stackString(), debug.Stack())
				}
			}
		}
	}()
	fn()
	return nil
}

func (r *Run) uncaught(g *G, p *targetPanic) (res any) {
	msg := r.panicText(p)
	r.outcome = "panic: " + msg
	if r.replayOK() {
		saved := g.top
		g.top = nil
		r.panicStack = p.stack
		r.violation("panic", msg)
		g.top = saved
	}
	return pathEnd{}
}

func (r *Run) newG(name string) *G {
	g := &G{r: r, id: len(r.sch.gs), name: name, wake: make(chan struct{}, 1)}
	r.sch.gs = append(r.sch.gs, g)
	if r.race != nil {
		g.vc = make([]uint32, g.id+1)
		g.vc[g.id] = 1
	}
	return g
}

// spawn creates a goroutine that runs body when scheduled.
func (r *Run) spawn(parent *G, name string, body func(g *G)) *G {
	s := &r.sch
	s.multi = true
	g := r.newG(name)
	if len(s.gs) > 400 && len(s.gs)%100 == 0 {
		live := 0
		for _, o := range s.gs {
			if o.state != gDone {
				live++
			}
		}
		s.many = live > 400 || len(s.gs) > 8000
	}
	if s.many {
		r.e.incomplete("more than 400 goroutines on a path")
		r.abort("too many goroutines")
	}
	if r.race != nil && parent != nil {
		g.vc = joinVC(g.vc, parent.vc)
		parent.tick()
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-g.wake
		if s.killed {
			g.state = gDone
			return
		}
		res := r.guard(g, func() { body(g) })
		g.state = gDone
		if s.killed {
			return
		}
		if res != nil {
			s.done <- res
			return
		}
		// hand over to somebody else
		res = r.guard(g, func() { s.next(r, g, "exit") })
		if res != nil && !s.killed {
			s.done <- res
		}
	}()
	return g
}

func (r *Run) goStart(f *frame, fn *cfn, args, env []Value) {
	if r.sch.yieldsOff {
		unsupported("go statement in a sequential section")
	}
	name := shortFn(fn.name)
	r.spawn(f.g, name, func(g *G) { g.call(nil, fn, args, env) })
	r.yield(f, "go "+name)
}

// yield is a scheduling point before a visible operation of the running goroutine.
func (r *Run) yield(f *frame, what string) {
	s := &r.sch
	if !s.multi && len(s.timers) == 0 {
		return
	}
	if s.nopreempt > 0 || f.noyield() {
		return
	}
	g := f.g
	var others []*G
	if s.preempts < r.maxPreempt {
		for _, o := range s.gs {
			if o != g && o.state == gRunnable {
				others = append(others, o)
			}
		}
	}
	nt := 0
	if s.early < r.maxEarly && r.earliest() != nil {
		nt = 1
	}
	n := 1 + len(others) + nt
	if n == 1 {
		return
	}
	k := r.choose(n, 's')
	if k == 0 {
		return
	}
	r.e.st.Switches.Add(1)
	if k <= len(others) {
		s.preempts++
		o := others[k-1]
		s.note("g%d preempted before %s, run g%d (%s)", g.id, what, o.id, o.name)
		s.switchTo(g, o)
		return
	}
	s.early++
	t := r.earliest()
	s.note("timer %s fires early, g%d was before %s", t.name, g.id, what)
	r.fireTimer(g, t)
}

func (f *frame) noyield() bool {
	if f.fn.native != nil && f.caller != nil {
		return f.caller.fn.noyield
	}
	return f.fn.noyield
}

func (s *Sched) note(format string, a ...any) {
	if len(s.log) < 400 {
		s.log = append(s.log, fmt.Sprintf(format, a...))
	}
}

func (s *Sched) switchTo(from, to *G) {
	s.cur = to
	to.wake <- struct{}{}
	<-from.wake
	if s.killed {
		panic(pathEnd{})
	}
	s.cur = from
}

// block parks g until another goroutine makes it runnable.
func (r *Run) block(g *G, why string) {
	g.state = gBlocked
	g.why = why
	if g.top != nil {
		g.whyPos = g.top.posString()
	}
	s := &r.sch
	o := s.pickNext(r, g, why)
	if o == g {
		return
	}
	s.switchTo(g, o)
}

// next hands the processor over when g has ended.
func (s *Sched) next(r *Run, g *G, why string) {
	o := s.pickNext(r, g, why)
	s.cur = o
	o.wake <- struct{}{}
}

// pickNext chooses who runs now that g cannot.
func (s *Sched) pickNext(r *Run, g *G, why string) *G {
	for {
		var run []*G
		for _, o := range s.gs {
			if o.state == gRunnable {
				run = append(run, o)
			}
		}
		t := r.earliest()
		nt := 0
		if t != nil && len(run) > 0 && s.early < r.maxEarly {
			nt = 1
		}
		if len(run) > 0 {
			k := 0
			n := len(run) + nt
			if r.maxPreempt < 0 {
				// one fixed schedule: in turn
				for k < len(run)-1 && run[k].id <= g.id {
					k++
				}
				if run[k].id <= g.id {
					k = 0
				}
				n = 1
			} else if n > 1 {
				k = r.choose(n, 's')
			}
			if k < len(run) {
				if n > 1 {
					s.note("g%d %s, run g%d (%s)", g.id, why, run[k].id, run[k].name)
				}
				r.e.st.Switches.Add(1)
				return run[k]
			}
			s.early++
			s.note("timer %s fires early while g%d %s", t.name, g.id, why)
			r.fireTimer(g, t)
			continue
		}
		for _, o := range s.gs {
			if o.state == gSettle {
				o.state = gRunnable
				return o
			}
		}
		if t != nil && !(r.quieting() && (t.period > 0 && t.when > s.quietFrom+int64(time.Minute) || t.when > s.quietFrom+int64(20*time.Minute))) {
			ts := r.sameDeadline(t)
			k := 0
			if len(ts) > 1 && !s.yieldsOff {
				k = r.choose(len(ts), 's')
			}
			s.note("timer %s fires", ts[k].name)
			r.fireTimer(g, ts[k])
			continue
		}
		for _, o := range s.gs {
			if o.state == gQuiesce {
				o.state = gRunnable
				return o
			}
		}
		r.deadlock(g)
	}
}

// quieting: somebody waits for nothing more to happen; what happens again and again is nothing then.
func (r *Run) quieting() bool {
	for _, o := range r.sch.gs {
		if o.state == gQuiesce {
			return true
		}
	}
	return false
}

func (r *Run) deadlock(g *G) {
	msg := "all goroutines are blocked"
	var l []string
	for _, o := range r.sch.gs {
		if o.state == gBlocked {
			l = append(l, fmt.Sprintf("g%d %s: %s at %s", o.id, o.name, o.why, o.whyPos))
		}
	}
	sort.Strings(l)
	r.trace = append(r.trace, l...)
	m := r.sch.gs[0]
	if m.state == gBlocked {
		msg += ": main " + m.why
	}
	r.outcome = "deadlock"
	if r.replayOK() {
		r.violation("deadlock", msg)
	}
	panic(pathEnd{})
}

// quiesce lets everything else run until nothing can happen any more.
func (r *Run) quiesce(g *G) (blocked int) {
	s := &r.sch
	g.state = gQuiesce
	s.quietFrom = r.now
	o := s.pickNext(r, g, "quiesce")
	if o != g {
		s.switchTo(g, o)
	}
	g.state = gRunnable
	return max(0, r.blocked(g)-s.idle)
}

// idle takes the goroutines that wait now for the background of what is under test.
func (r *Run) idle(g *G) {
	r.settle(g)
	r.sch.idle = r.blocked(g)
}

func (r *Run) blocked(g *G) (n int) {
	for _, o := range r.sch.gs {
		if o != g && o.state == gBlocked && !o.daemon {
			n++
		}
	}
	return
}

// settle lets everything else run until only the advance of the clock could make more happen.
func (r *Run) settle(g *G) {
	s := &r.sch
	g.state = gSettle
	o := s.pickNext(r, g, "settle")
	if o != g {
		s.switchTo(g, o)
	}
	g.state = gRunnable
}

func (r *Run) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
	}
}

// ---- timers

func (r *Run) earliest() *Timer {
	var b *Timer
	for _, t := range r.sch.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	return b
}

func (r *Run) sameDeadline(t *Timer) []*Timer {
	var l []*Timer
	for _, o := range r.sch.timers {
		if o.when == t.when {
			l = append(l, o)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	return l
}

func (r *Run) addTimer(g *G, d int64, name string, fire func(g *G)) *Timer {
	t := &Timer{fire: fire, name: name}
	r.startTimer(g, t, r.now+max(d, 0))
	return t
}

func (r *Run) startTimer(g *G, t *Timer, when int64) {
	if when < 0 || when < r.now {
		when = r.now
	}
	t.when = when
	t.seq = r.sch.tseq
	r.sch.tseq++
	t.active = true
	if r.race != nil {
		t.vc = append([]uint32(nil), g.vc...)
		g.tick()
	}
	r.sch.timers = append(r.sch.timers, t)
}

func (r *Run) stopTimer(t *Timer) bool {
	was := t.active
	t.active = false
	for i, o := range r.sch.timers {
		if o == t {
			r.sch.timers = append(r.sch.timers[:i:i], r.sch.timers[i+1:]...)
			break
		}
	}
	return was
}

// fireTimer runs the timer's action on behalf of a goroutine of its own, atomically.
func (r *Run) fireTimer(g *G, t *Timer) {
	r.stopTimer(t)
	if t.when > r.now {
		r.now = t.when
	}
	r.sch.ntimers++
	if r.sch.ntimers > 20000 {
		r.e.incomplete("more than 20000 timer events on a path")
		r.abort("too many timer events")
	}
	if t.period > 0 {
		r.startTimer(g, t, t.when+t.period)
	}
	tg := &G{r: r, id: 0, name: "timer", wake: make(chan struct{}, 1)}
	if r.race != nil {
		// a pseudo goroutine: its own slot is shared by all timers, ordered by firing
		tg.vc = joinVC(append([]uint32(nil), t.vc...), r.race.timerVC)
	}
	r.sch.nopreempt++
	t.fire(tg)
	r.sch.nopreempt--
	if r.race != nil {
		r.race.timerVC = joinVC(r.race.timerVC, tg.vc)
	}
}

// ---- channels

type waiter struct {
	g    *G
	c    *Chan
	v    Value
	send bool
	idx  int
	sel  *selState
}

type selState struct {
	fired       bool
	idx         int
	v           Value
	ok          bool
	vc          []uint32
	panicClosed bool
}

type chanItem struct {
	v  Value
	vc []uint32
}

type Chan struct {
	id      int
	cap     int
	buf     []chanItem
	closed  bool
	closeVC []uint32
	recvVC  [][]uint32
	recvq   []*waiter
	sendq   []*waiter
	et      types.Type
	nrecv   int
}

func (r *Run) newChan(n int, et types.Type) *Chan {
	r.sch.chans++
	return &Chan{id: r.sch.chans, cap: n, et: et}
}

type selCase struct {
	send bool
	ch   *Chan
	v    Value
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasLive(c.recvq) }
func (c *Chan) canRecv() bool { return c.closed || len(c.buf) > 0 || hasLive(c.sendq) }

func (r *Run) doSend(f *frame, c *Chan, v Value) {
	g := f.g
	if c.closed {
		f.plainErr("send on closed channel")
	}
	if w := deq(&c.recvq); w != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.v = v
		w.sel.ok = true
		if r.race != nil {
			w.sel.vc = append([]uint32(nil), g.vc...)
			if c.cap == 0 {
				g.vc = joinVC(g.vc, w.g.vc)
			}
			g.tick()
		}
		r.ready(w.g)
		return
	}
	it := chanItem{v: v}
	if r.race != nil {
		if c.cap > 0 && c.nrecv > 0 && len(c.recvVC) > 0 {
			g.vc = joinVC(g.vc, c.recvVC[0])
			c.recvVC = c.recvVC[1:]
		}
		it.vc = append([]uint32(nil), g.vc...)
		g.tick()
	}
	c.buf = append(c.buf, it)
}

func (r *Run) doRecv(f *frame, c *Chan) (Value, bool) {
	g := f.g
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem(nil), c.buf[1:]...)
		c.nrecv++
		if r.race != nil {
			g.vc = joinVC(g.vc, it.vc)
			c.recvVC = append(c.recvVC, append([]uint32(nil), g.vc...))
			g.tick()
		}
		if w := deq(&c.sendq); w != nil {
			n := chanItem{v: w.v}
			if r.race != nil {
				w.sel.vc = append([]uint32(nil), c.recvVC[0]...)
				c.recvVC = c.recvVC[1:]
				n.vc = append([]uint32(nil), w.g.vc...)
			}
			c.buf = append(c.buf, n)
			w.sel.fired = true
			w.sel.idx = w.idx
			r.ready(w.g)
		}
		return it.v, true
	}
	if w := deq(&c.sendq); w != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		if r.race != nil {
			w.sel.vc = append([]uint32(nil), g.vc...)
			g.vc = joinVC(g.vc, w.g.vc)
			g.tick()
		}
		r.ready(w.g)
		return w.v, true
	}
	// closed
	if r.race != nil {
		g.vc = joinVC(g.vc, c.closeVC)
	}
	return zero(c.et), false
}

func (f *frame) plainErr(msg string) {
	p := f.g.r.e.prog
	t := p.plainErr
	var v Iface
	if t != nil {
		v = Iface{t, msg}
	} else {
		v = Iface{types.Typ[types.String], msg}
	}
	panic(&targetPanic{v: v, msg: msg, rt: true, stack: f.g.stackString()})
}

func (r *Run) chanSend(f *frame, c *Chan, v Value) {
	r.yield(f, "send")
	g := f.g
	if c == nil {
		r.block(g, "send on nil channel")
		return
	}
	if c.canSend() {
		r.doSend(f, c, v)
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{g: g, c: c, v: v, send: true, sel: st})
	for !st.fired {
		r.block(g, "chan send")
	}
	if r.race != nil {
		g.vc = joinVC(g.vc, st.vc)
		g.tick()
	}
	if st.panicClosed {
		f.plainErr("send on closed channel")
	}
}

func (r *Run) chanRecv(f *frame, c *Chan) (Value, bool) {
	r.yield(f, "receive")
	g := f.g
	if c == nil {
		for {
			r.block(g, "receive on nil channel")
		}
	}
	if c.canRecv() {
		return r.doRecv(f, c)
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{g: g, c: c, sel: st})
	for !st.fired {
		r.block(g, "chan receive")
	}
	if r.race != nil {
		g.vc = joinVC(g.vc, st.vc)
		g.tick()
	}
	return st.v, st.ok
}

func (r *Run) chanClose(f *frame, c *Chan) {
	r.yield(f, "close")
	g := f.g
	if c == nil {
		f.plainErr("close of nil channel")
	}
	if c.closed {
		f.plainErr("close of closed channel")
	}
	c.closed = true
	if r.race != nil {
		c.closeVC = append([]uint32(nil), g.vc...)
		g.tick()
	}
	for w := deq(&c.recvq); w != nil; w = deq(&c.recvq) {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.v = zero(c.et)
		w.sel.ok = false
		w.sel.vc = c.closeVC
		r.ready(w.g)
	}
	for w := deq(&c.sendq); w != nil; w = deq(&c.sendq) {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.panicClosed = true
		w.sel.vc = c.closeVC
		r.ready(w.g)
	}
}

func (r *Run) selectOp(f *frame, cs []selCase, blocking bool) (int, Value, bool) {
	r.yield(f, "select")
	g := f.g
	var rdy []int
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			k = r.choose(len(rdy), 's')
			r.sch.note("g%d select takes case %d of %v", g.id, rdy[k], rdy)
		}
		i := rdy[k]
		if cs[i].send {
			r.doSend(f, cs[i].ch, cs[i].v)
			return i, nil, false
		}
		v, ok := r.doRecv(f, cs[i].ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	n := 0
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		n++
		w := &waiter{g: g, c: c.ch, v: c.v, send: c.send, idx: i, sel: st}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	for !st.fired {
		r.block(g, "select")
	}
	if r.race != nil {
		g.vc = joinVC(g.vc, st.vc)
		g.tick()
	}
	if st.panicClosed {
		f.plainErr("send on closed channel")
	}
	return st.idx, st.v, st.ok
}

// ---- mutexes and wait groups, keyed by address

type mutexState struct {
	locked  bool
	readers int
	owner   *G
	waiters []*G
	vc      []uint32
	rvc     []uint32
	wwait   int
}

type wgState struct {
	n       int
	waiters []*G
	vc      []uint32
}

type condState struct {
	waiters []*selState
	gs      []*G
}

func (r *Run) mutex(p *Value) *mutexState {
	if m, ok := r.side[p]; ok {
		return m.(*mutexState)
	}
	m := &mutexState{}
	r.side[p] = m
	return m
}

func (r *Run) wakeAll(l *[]*G) {
	for _, g := range *l {
		r.ready(g)
	}
	*l = nil
}

func (r *Run) lock(f *frame, p *Value, read bool) {
	r.yield(f, "lock")
	m := r.mutex(p)
	for m.locked || (!read && m.readers > 0) {
		m.waiters = append(m.waiters, f.g)
		r.block(f.g, "mutex lock")
	}
	if read {
		m.readers++
	} else {
		m.locked = true
		m.owner = f.g
	}
	if r.race != nil {
		f.g.vc = joinVC(f.g.vc, m.vc)
		if !read {
			f.g.vc = joinVC(f.g.vc, m.rvc)
		}
	}
}

func (r *Run) tryLock(f *frame, p *Value, read bool) bool {
	r.yield(f, "trylock")
	m := r.mutex(p)
	if m.locked || (!read && m.readers > 0) {
		return false
	}
	if read {
		m.readers++
	} else {
		m.locked = true
		m.owner = f.g
	}
	if r.race != nil {
		f.g.vc = joinVC(f.g.vc, m.vc)
	}
	return true
}

func (r *Run) fatal(f *frame, msg string) {
	r.outcome = "panic: fatal error: " + msg
	if r.replayOK() {
		r.violation("panic", "fatal error: "+msg)
	}
	panic(pathEnd{})
}

func (r *Run) unlock(f *frame, p *Value, read bool) {
	m := r.mutex(p)
	if read {
		if m.readers == 0 {
			r.fatal(f, "sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	} else {
		if !m.locked {
			r.fatal(f, "sync: unlock of unlocked mutex")
		}
		m.locked = false
		m.owner = nil
	}
	if r.race != nil {
		if read {
			m.rvc = joinVC(m.rvc, f.g.vc)
		} else {
			m.vc = append([]uint32(nil), f.g.vc...)
		}
		f.g.tick()
	}
	r.wakeAll(&m.waiters)
}

func (r *Run) waitGroup(p *Value) *wgState {
	if m, ok := r.side[p]; ok {
		return m.(*wgState)
	}
	m := &wgState{}
	r.side[p] = m
	return m
}

func (r *Run) wgAdd(f *frame, p *Value, d int) {
	r.yield(f, "waitgroup add")
	w := r.waitGroup(p)
	w.n += d
	if w.n < 0 {
		f.plainErr("sync: negative WaitGroup counter")
	}
	if r.race != nil {
		w.vc = joinVC(w.vc, f.g.vc)
		f.g.tick()
	}
	if w.n == 0 {
		r.wakeAll(&w.waiters)
	}
}

func (r *Run) wgWait(f *frame, p *Value) {
	r.yield(f, "waitgroup wait")
	w := r.waitGroup(p)
	for w.n > 0 {
		w.waiters = append(w.waiters, f.g)
		r.block(f.g, "waitgroup wait")
	}
	if r.race != nil {
		f.g.vc = joinVC(f.g.vc, w.vc)
	}
}

// ---- vector clocks

type raceState struct {
	cells   map[any]*shadow
	timerVC []uint32
	atomics map[any][]uint32
	seen    map[string]bool
}

type shadow struct {
	wg   int
	wc   uint32
	wpos string
	rd   map[int]uint32
	rpos map[int]string
}

func joinVC(a, b []uint32) []uint32 {
	if len(b) > len(a) {
		n := make([]uint32, len(b))
		copy(n, a)
		a = n
	} else {
		a = append([]uint32(nil), a...)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *G) saw(id int, c uint32) bool { return id < len(g.vc) && g.vc[id] >= c }

func (r *Run) raceOn() bool { return r.race != nil && r.sch.multi && r.counting }

func (r *Run) raceAccess(f *frame, addr any, write bool) {
	if !f.fn.races || f.g.name == "timer" {
		return
	}
	g := f.g
	sh := r.race.cells[addr]
	if sh == nil {
		sh = &shadow{wg: -1}
		r.race.cells[addr] = sh
	}
	pos := ""
	if sh.wg >= 0 && sh.wg != g.id && !g.saw(sh.wg, sh.wc) {
		pos = f.posString()
		r.raceFound(f, write, pos, true, sh.wpos)
	}
	if write {
		for id, c := range sh.rd {
			if id != g.id && !g.saw(id, c) {
				pos = f.posString()
				r.raceFound(f, true, pos, false, sh.rpos[id])
			}
		}
		sh.wg, sh.wc = g.id, g.vc[g.id]
		sh.wpos = f.posString()
		sh.rd, sh.rpos = nil, nil
	} else {
		if sh.rd == nil {
			sh.rd = map[int]uint32{}
			sh.rpos = map[int]string{}
		}
		sh.rd[g.id] = g.vc[g.id]
		sh.rpos[g.id] = f.posString()
	}
}

func (r *Run) raceFound(f *frame, w1 bool, pos1 string, w2 bool, pos2 string) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	a, b := kind(w1)+" at "+pos1, kind(w2)+" at "+pos2
	if a > b {
		a, b = b, a
	}
	msg := "data race: " + a + " and " + b
	if r.race.seen[msg] || !r.replayOK() {
		return
	}
	r.race.seen[msg] = true
	r.violation("race", msg)
}
