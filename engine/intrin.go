package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const epochNs = int64(1700000000) * 1e9

type natFn = func(f *frame, a []Value) Value

// packages whose initialisers are not needed
var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "os": true, "syscall": true, "internal/poll": true, "internal/testlog": true,
	"internal/godebug": true, "log": true, "github.com/sirupsen/logrus": true, "encoding/json": true, "internal/runtime/sys": true, "crypto/rand": true, "math/rand": true, "math/rand/v2": true,
	"net/http": true, "reflect": true, "fmt": false, "sync": true, "internal/sync": true, "internal/bytealg": true, "runtime/cgo": true}

var intrinsics map[string]natFn

func lookupIntrinsic(name, pkg string, fn *ssa.Function) natFn {
	if intrinsics == nil {
		panic("intrinsics not set up")
	}
	if n, ok := intrinsics[name]; ok {
		return n
	}
	switch pkg {
	case "github.com/sirupsen/logrus", "log":
		if fn.Synthetic == "package initializer" || name == "github.com/sirupsen/logrus.New" {
			return nil
		}
		return logIntrinsic(fn)
	}
	return nil
}

// logging has no effect on the properties; only the exiting and panicking variants matter.
func logIntrinsic(fn *ssa.Function) natFn {
	res := fn.Signature.Results()
	nm := fn.Name()
	return func(f *frame, a []Value) Value {
		if strings.HasPrefix(nm, "Fatal") || nm == "Exit" {
			f.g.r.outcome = "panic: process exit by " + fn.String()
			if f.g.r.replayOK() {
				f.g.r.violation("panic", "process exit by "+fn.String())
			}
			panic(pathEnd{})
		}
		if strings.HasPrefix(nm, "Panic") {
			panic(&targetPanic{v: Iface{types.Typ[types.String], "log panic"}, stack: f.g.stackString()})
		}
		if res.Len() == 0 {
			return nil
		}
		mk := func(t types.Type) Value {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v := new(Value)
				*v = zero(p.Elem())
				return v
			}
			return zero(t)
		}
		if res.Len() == 1 {
			return mk(res.At(0).Type())
		}
		t := Tuple{}
		for i := 0; i < res.Len(); i++ {
			t = append(t, mk(res.At(i).Type()))
		}
		return t
	}
}

func (f *frame) iface(t types.Type, v Value) Iface {
	return Iface{f.g.r.e.prog.canonType(t), v}
}

// newError makes an error value of type *errors.errorString
func (f *frame) newError(msg Value) Iface {
	p := f.g.r.e.prog
	v := new(Value)
	*v = Struct{msg}
	if p.errStr == nil {
		unsupported("errors package not loaded")
	}
	return Iface{p.errStr, v}
}

func setCell(p Value, v Value) { *(p.(*Value)) = v }

func (f *frame) atomicPre(p Value) *Value {
	r := f.g.r
	r.yield(f, "atomic")
	pv := f.ptr(p)
	if r.race != nil {
		f.g.vc = joinVC(f.g.vc, r.race.atomics[pv])
	}
	return pv
}
func (f *frame) atomicPost(pv *Value) {
	r := f.g.r
	if r.race != nil {
		r.race.atomics[pv] = joinVC(r.race.atomics[pv], f.g.vc)
		f.g.tick()
	}
}

func argStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "?"
}

func (r *Run) inputName(name string) string {
	k := r.names[name]
	r.names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func (r *Run) input(name string, w int) *T {
	name = r.inputName(name)
	if r.e.fixed != nil {
		x := r.e.fixed[name]
		r.inputs = append(r.inputs, Input{Name: name, W: w, Val: x})
		return r.w.ctx.konst(x, w)
	}
	t := r.w.ctx.variable(fmt.Sprintf("%s:%d", name, w), w)
	r.inputs = append(r.inputs, Input{Name: name, W: w, t: t})
	return t
}

func symIn(w int) natFn {
	return func(f *frame, a []Value) Value { return simp(f.g.r.input(argStr(a[0]), w)) }
}

func init() {
	m := map[string]natFn{}
	intrinsics = m
	S := zz + "/sym."
	m[S+"Byte"] = symIn(8)
	m[S+"U16"] = symIn(16)
	m[S+"U32"] = symIn(32)
	m[S+"I32"] = symIn(32)
	m[S+"F32"] = symIn(32)
	m[S+"U64"] = symIn(64)
	m[S+"F64"] = symIn(64)
	m[S+"Bool"] = symIn(0)
	m[S+"Int"] = func(f *frame, a []Value) Value {
		r := f.g.r
		c := r.w.ctx
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		if lo == hi {
			n := r.inputName(argStr(a[0]))
			r.inputs = append(r.inputs, Input{Name: n, W: 64, Val: uint64(lo)})
			return uint64(lo)
		}
		w := 64
		if lo >= 0 { // use a narrow variable, cheaper for the solver
			for _, k := range []int{8, 16, 32} {
				if hi < int64(1)<<uint(k) {
					w = k
					break
				}
			}
		}
		t := r.input(argStr(a[0]), w)
		x := c.zext(t, 64)
		r.assume(c.and(c.sle(c.konst(uint64(lo), 64), x), c.sle(x, c.konst(uint64(hi), 64))))
		return simp(x)
	}
	m[S+"Choose"] = func(f *frame, a []Value) Value {
		r := f.g.r
		n := int(a[1].(uint64))
		if n <= 0 {
			r.abort("empty choice")
		}
		name := r.inputName(argStr(a[0]))
		var k int
		if r.e.fixed != nil {
			k = int(r.e.fixed[name])
		} else {
			k = r.choose(n, 'c')
		}
		r.inputs = append(r.inputs, Input{Name: name, W: 64, Val: uint64(k)})
		return uint64(k)
	}
	bytesIn := func(f *frame, a []Value) []Value {
		r := f.g.r
		n := int(f.concInt(a[1], "harness size"))
		s := make([]Value, n)
		for i := range s {
			s[i] = simp(r.input(fmt.Sprintf("%s[%d]", argStr(a[0]), i), 8))
		}
		return s
	}
	m[S+"Bytes"] = func(f *frame, a []Value) Value { return Slice(bytesIn(f, a)) }
	m[S+"Str"] = func(f *frame, a []Value) Value { return mkStr(bytesIn(f, a)) }
	m[S+"Assume"] = func(f *frame, a []Value) Value { f.g.r.assume(f.g.r.term(a[0], 0)); return nil }
	m[S+"Assert"] = func(f *frame, a []Value) Value {
		r := f.g.r
		r.assert(r.term(a[0], 0), "assert", argStr(a[1]))
		return nil
	}
	m[S+"Fail"] = func(f *frame, a []Value) Value {
		r := f.g.r
		r.assert(r.w.ctx.tFalse, "assert", argStr(a[0]))
		return nil
	}
	m[S+"Reach"] = func(f *frame, a []Value) Value {
		e := f.g.r.e
		e.mu.Lock()
		e.reach[argStr(a[0])]++
		e.mu.Unlock()
		return nil
	}
	m[S+"Observe"] = func(f *frame, a []Value) Value {
		r := f.g.r
		v := a[1]
		if iv, ok := v.(Iface); ok {
			v = Iface{iv.t, deepCopy(iv.v, 0)}
		}
		r.obs = append(r.obs, Obs{argStr(a[0]), v})
		return nil
	}
	m[S+"AllocLimit"] = func(f *frame, a []Value) Value {
		r := f.g.r
		r.allocBase = r.alloc
		r.allocMsg = argStr(a[0])
		r.allocLimit = int64(f.concInt(a[1], "allocation limit"))
		return nil
	}
	m[S+"AllocEnd"] = func(f *frame, a []Value) Value { f.g.r.allocLimit = 0; return nil }
	m[S+"Bound"] = func(f *frame, a []Value) Value {
		e := f.g.r.e
		v := a[1].(uint64)
		if e.tier > 0 {
			v = a[2].(uint64)
		}
		e.mu.Lock()
		e.bounds[argStr(a[0])] = int64(v)
		e.mu.Unlock()
		return v
	}
	m[S+"Quiesce"] = func(f *frame, a []Value) Value { return uint64(f.g.r.quiesce(f.g)) }
	m[S+"MapOrders"] = func(f *frame, a []Value) Value { f.g.r.mapOrders = true; return nil }
	m[S+"Idle"] = func(f *frame, a []Value) Value { f.g.r.idle(f.g); return nil }
	m[S+"Settle"] = func(f *frame, a []Value) Value { f.g.r.settle(f.g); return nil }
	m[S+"Preempt"] = func(f *frame, a []Value) Value {
		f.g.r.setSched(int(a[0].(uint64)), int(a[1].(uint64)))
		return nil
	}
	m[S+"Race"] = func(f *frame, a []Value) Value {
		r := f.g.r
		if r.race == nil {
			r.race = &raceState{cells: map[any]*shadow{}, atomics: map[any][]uint32{}, seen: map[string]bool{}}
			for _, g := range r.sch.gs {
				g.vc = make([]uint32, g.id+1)
				g.vc[g.id] = 1
			}
			r.e.mu.Lock()
			r.e.raceDetect = true
			r.e.mu.Unlock()
		}
		return nil
	}
	m[S+"Steps"] = func(f *frame, a []Value) Value { f.g.r.maxSteps = int64(a[0].(uint64)); return nil }
	m[S+"Daemon"] = func(f *frame, a []Value) Value { f.g.daemon = true; return nil }
	m[S+"Symbolic"] = func(f *frame, a []Value) Value { return true }

	// ---- sync
	m["(*sync.Mutex).Lock"] = func(f *frame, a []Value) Value { f.g.r.lock(f, f.ptr(a[0]), false); return nil }
	m["(*sync.Mutex).TryLock"] = func(f *frame, a []Value) Value { return f.g.r.tryLock(f, f.ptr(a[0]), false) }
	m["(*sync.Mutex).Unlock"] = func(f *frame, a []Value) Value { f.g.r.unlock(f, f.ptr(a[0]), false); return nil }
	m["(*sync.RWMutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*sync.RWMutex).TryLock"] = m["(*sync.Mutex).TryLock"]
	m["(*sync.RWMutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*sync.RWMutex).RLock"] = func(f *frame, a []Value) Value { f.g.r.lock(f, f.ptr(a[0]), true); return nil }
	m["(*sync.RWMutex).TryRLock"] = func(f *frame, a []Value) Value { return f.g.r.tryLock(f, f.ptr(a[0]), true) }
	m["(*sync.RWMutex).RUnlock"] = func(f *frame, a []Value) Value { f.g.r.unlock(f, f.ptr(a[0]), true); return nil }
	m["(*sync.WaitGroup).Add"] = func(f *frame, a []Value) Value {
		f.g.r.wgAdd(f, f.ptr(a[0]), int(int64(a[1].(uint64))))
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(f *frame, a []Value) Value { f.g.r.wgAdd(f, f.ptr(a[0]), -1); return nil }
	m["(*sync.WaitGroup).Wait"] = func(f *frame, a []Value) Value { f.g.r.wgWait(f, f.ptr(a[0])); return nil }
	m["(*sync.WaitGroup).Go"] = func(f *frame, a []Value) Value {
		r := f.g.r
		p := f.ptr(a[0])
		r.wgAdd(f, p, 1)
		fn, env := f.g.closureFn(a[1].(*Closure))
		r.spawn(f.g, fn.name, func(g *G) {
			fr := &frame{g: g, fn: fn}
			g.call(nil, fn, nil, env)
			r.wgAdd(fr, p, -1)
		})
		return nil
	}
	m["(*sync.Once).Do"] = func(f *frame, a []Value) Value {
		r := f.g.r
		p := f.ptr(a[0])
		type onceState struct{ done bool }
		st, _ := r.side[p].(*onceState)
		if st == nil {
			st = &onceState{}
			r.side[p] = st
		}
		// the mutex is keyed by another address: the Once's first field
		mp := &(*p).(Struct)[0]
		r.lock(f, mp, false)
		if !st.done {
			st.done = true
			fn, env := f.g.closureFn(a[1].(*Closure))
			f.g.call(f, fn, nil, env)
		}
		r.unlock(f, mp, false)
		return nil
	}
	m["(*sync.Pool).Get"] = func(f *frame, a []Value) Value {
		r := f.g.r
		r.yield(f, "pool get")
		p := f.ptr(a[0])
		l, _ := r.side[p].([]poolItem)
		if n := len(l); n > 0 {
			v := l[n-1]
			r.side[p] = l[: n-1 : n-1]
			if r.race != nil {
				f.g.vc = joinVC(f.g.vc, v.vc)
			}
			return v.v
		}
		st := (*p).(Struct)
		for i := len(st) - 1; i >= 0; i-- {
			if cl, ok := st[i].(*Closure); ok {
				if cl == nil {
					return Iface{}
				}
				fn, env := f.g.closureFn(cl)
				return f.g.call(f, fn, nil, env)
			}
		}
		return Iface{}
	}
	m["(*sync.Pool).Put"] = func(f *frame, a []Value) Value {
		r := f.g.r
		r.yield(f, "pool put")
		p := f.ptr(a[0])
		l, _ := r.side[p].([]poolItem)
		it := poolItem{v: a[1]}
		if r.race != nil {
			it.vc = append([]uint32(nil), f.g.vc...)
			f.g.tick()
		}
		r.side[p] = append(l, it)
		return nil
	}
	m["(*sync.Cond).Wait"] = func(f *frame, a []Value) Value { return unsupported("sync.Cond") }
	// atomics
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", -1}} {
		w := ty.w
		m["sync/atomic.Load"+ty.n] = func(f *frame, a []Value) Value {
			p := f.atomicPre(a[0])
			v := *p
			f.atomicPost(p)
			return v
		}
		m["sync/atomic.Store"+ty.n] = func(f *frame, a []Value) Value {
			p := f.atomicPre(a[0])
			*p = a[1]
			f.atomicPost(p)
			return nil
		}
		m["sync/atomic.Swap"+ty.n] = func(f *frame, a []Value) Value {
			p := f.atomicPre(a[0])
			v := *p
			*p = a[1]
			f.atomicPost(p)
			return v
		}
		m["sync/atomic.CompareAndSwap"+ty.n] = func(f *frame, a []Value) Value {
			p := f.atomicPre(a[0])
			ok := f.cond(f.eqVal(*p, a[1], nil))
			if ok {
				*p = a[2]
			}
			f.atomicPost(p)
			return ok
		}
		if w > 0 {
			m["sync/atomic.Add"+ty.n] = func(f *frame, a []Value) Value {
				p := f.atomicPre(a[0])
				c := f.g.r.w.ctx
				v := simp(c.bin(OAdd, f.g.r.term(*p, w), f.g.r.term(a[1], w)))
				*p = v
				f.atomicPost(p)
				return v
			}
			for _, bo := range []struct {
				n  string
				op Op
			}{{"And", OAnd}, {"Or", OOr}} {
				op := bo.op
				m["sync/atomic."+bo.n+ty.n] = func(f *frame, a []Value) Value {
					p := f.atomicPre(a[0])
					old := *p
					*p = simp(f.g.r.w.ctx.bin(op, f.g.r.term(*p, w), f.g.r.term(a[1], w)))
					f.atomicPost(p)
					return old
				}
			}
		}
	}
	m["(*sync/atomic.Value).Load"] = func(f *frame, a []Value) Value {
		p := f.atomicPre(a[0])
		v := (*p).(Struct)[0]
		f.atomicPost(p)
		return v
	}
	m["(*sync/atomic.Value).Store"] = func(f *frame, a []Value) Value {
		p := f.atomicPre(a[0])
		(*p).(Struct)[0] = a[1]
		f.atomicPost(p)
		return nil
	}
	m["(*sync/atomic.Value).Swap"] = func(f *frame, a []Value) Value {
		p := f.atomicPre(a[0])
		v := (*p).(Struct)[0]
		(*p).(Struct)[0] = a[1]
		f.atomicPost(p)
		return v
	}
	m["(*sync/atomic.Value).CompareAndSwap"] = func(f *frame, a []Value) Value {
		p := f.atomicPre(a[0])
		ok := f.cond(f.eqVal((*p).(Struct)[0], a[1], nil))
		if ok {
			(*p).(Struct)[0] = a[2]
		}
		f.atomicPost(p)
		return ok
	}

	// ---- runtime
	nop := func(f *frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory"} {
		m[n] = nop
	}
	m["runtime.Gosched"] = func(f *frame, a []Value) Value { f.g.r.yield(f, "Gosched"); return nil }
	m["runtime.NumGoroutine"] = func(f *frame, a []Value) Value {
		n := 0
		for _, g := range f.g.r.sch.gs {
			if g.state != gDone {
				n++
			}
		}
		return uint64(n)
	}
	m["runtime.GOMAXPROCS"] = func(f *frame, a []Value) Value { return uint64(8) }
	m["runtime.NumCPU"] = m["runtime.GOMAXPROCS"]
	m["runtime.Caller"] = func(f *frame, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} }
	m["(*os.File).Close"] = func(f *frame, a []Value) Value { return Iface{} }
	m["runtime.Callers"] = func(f *frame, a []Value) Value { return uint64(0) }
	m["internal/abi.NoEscape"] = func(f *frame, a []Value) Value { return a[0] }
	m["internal/abi.Escape"] = func(f *frame, a []Value) Value { return a[0] }
	m["os.Exit"] = func(f *frame, a []Value) Value {
		f.g.r.outcome = "panic: os.Exit"
		if f.g.r.replayOK() {
			f.g.r.violation("panic", "process exit by os.Exit")
		}
		panic(pathEnd{})
	}
	// the environment is empty at first and belongs to the run
	type envKey struct{ name string }
	envName := func(f *frame, v Value) string {
		s, ok := v.(string)
		if !ok {
			f.g.r.abort("environment variable of unknown name")
		}
		return s
	}
	getenv := func(f *frame, a []Value) (Value, bool) {
		v, ok := f.g.r.side[envKey{envName(f, a[0])}]
		if !ok {
			return "", false
		}
		return v.(Value), true
	}
	m["os.Getenv"] = func(f *frame, a []Value) Value { v, _ := getenv(f, a); return v }
	m["os.LookupEnv"] = func(f *frame, a []Value) Value { v, ok := getenv(f, a); return Tuple{v, ok} }
	m["os.Setenv"] = func(f *frame, a []Value) Value {
		f.g.r.side[envKey{envName(f, a[0])}] = a[1]
		return Iface{}
	}
	m["os.Unsetenv"] = func(f *frame, a []Value) Value {
		delete(f.g.r.side, any(envKey{envName(f, a[0])}))
		return Iface{}
	}
	m["internal/godebug.New"] = func(f *frame, a []Value) Value {
		v := new(Value)
		*v = Struct{}
		return v
	}
	m["(*internal/godebug.Setting).Value"] = func(f *frame, a []Value) Value { return "" }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	m["(*internal/godebug.Setting).Name"] = func(f *frame, a []Value) Value { return "" }

	// ---- time
	m["time.Sleep"] = func(f *frame, a []Value) Value {
		r := f.g.r
		g := f.g
		d := int64(f.concInt(a[0], "sleep"))
		if d <= 0 {
			r.yield(f, "sleep")
			return nil
		}
		fired := false
		r.addTimer(g, d, "sleep", func(tg *G) { fired = true; r.ready(g) })
		for !fired {
			r.block(g, "sleep")
		}
		return nil
	}
	nowF := func(f *frame, a []Value) Value {
		n := f.g.r.now
		sec, ns := n/1e9, n%1e9
		return Tuple{uint64(sec), uint64(ns), uint64(n)}
	}
	m["time.now"] = nowF
	m["time.runtimeNow"] = nowF
	m["time.runtimeNano"] = func(f *frame, a []Value) Value { return uint64(f.g.r.now) }
	m["time.Now"] = func(f *frame, a []Value) Value {
		n := f.g.r.now
		const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
		loc := f.g.r.globalByName(f.g, "time", "localLoc")
		return Struct{uint64(n % 1e9), uint64(n/1e9 + unixToInternal), loc}
	}
	m["time.initLocal"] = func(f *frame, a []Value) Value { return nil }
	m["time.syncTimer"] = func(f *frame, a []Value) Value { return (*Value)(nil) }
	timerKey := func(f *frame, v Value) *Timer {
		t, _ := f.g.r.side[v.(*Value)].(*Timer)
		return t
	}
	m["time.newTimer"] = func(f *frame, a []Value) Value {
		// func newTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer
		r := f.g.r
		tt := f.fn.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		v := new(Value)
		*v = zero(tt)
		if st, ok := tt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "initTimer" {
					(*v).(Struct)[i] = true
				}
			}
		}
		fn, env := f.g.closureFn(a[2].(*Closure))
		arg := a[3]
		t := &Timer{period: int64(a[1].(uint64)), name: "timer"}
		if f.g.top != nil && f.caller != nil && f.caller.caller != nil {
			t.name = "timer of " + shortFn(f.caller.caller.fn.name)
		}
		t.fire = func(tg *G) {
			tg.r.inTimer(tg, func() { tg.call(nil, fn, []Value{arg, uint64(0), uint64(0)}, env) })
		}
		r.side[v] = t
		r.startTimer(f.g, t, int64(f.concInt(a[0], "timer")))
		return v
	}
	m["time.stopTimer"] = func(f *frame, a []Value) Value {
		t := timerKey(f, a[0])
		if t == nil {
			return false
		}
		return f.g.r.stopTimer(t)
	}
	m["time.resetTimer"] = func(f *frame, a []Value) Value {
		t := timerKey(f, a[0])
		if t == nil {
			return unsupported("reset of unknown timer")
		}
		was := f.g.r.stopTimer(t)
		t.period = int64(a[2].(uint64))
		f.g.r.startTimer(f.g, t, int64(f.concInt(a[1], "timer")))
		return was
	}

	// ---- math
	id := func(f *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits"} {
		m[n] = id
	}
	f1 := func(g func(float64) float64) natFn {
		return func(f *frame, a []Value) Value {
			if k, ok := a[0].(uint64); ok {
				return math.Float64bits(g(math.Float64frombits(k)))
			}
			return unsupported("math function on symbolic float")
		}
	}
	m["math.Floor"] = f1(math.Floor)
	m["math.Ceil"] = f1(math.Ceil)
	m["math.Trunc"] = f1(math.Trunc)
	m["math.Sqrt"] = f1(math.Sqrt)
	m["math.Log"] = f1(math.Log)
	m["math.Exp"] = f1(math.Exp)
	m["math.Abs"] = func(f *frame, a []Value) Value {
		c := f.g.r.w.ctx
		return simp(c.bin(OAnd, f.g.r.term(a[0], 64), c.konst(mask(63), 64)))
	}
	m["math.IsNaN"] = func(f *frame, a []Value) Value {
		c := f.g.r.w.ctx
		t := f.g.r.term(a[0], 64)
		return simp(c.not(c.fop("feq", 0, t, t)))
	}

	// ---- bytealg
	m["internal/bytealg.MakeNoZero"] = func(f *frame, a []Value) Value {
		return f.makeSlice(types.Typ[types.Byte], a[0], nil)
	}
	indexByte := func(f *frame, bs []Value, c Value) Value {
		r := f.g.r
		for i, b := range bs {
			if f.cond(simp(r.w.ctx.eq(r.term(b, 8), r.term(c, 8)))) {
				return uint64(i)
			}
		}
		return mask(64)
	}
	m["internal/bytealg.IndexByte"] = func(f *frame, a []Value) Value { return indexByte(f, a[0].(Slice), a[1]) }
	m["internal/bytealg.IndexByteString"] = func(f *frame, a []Value) Value { return indexByte(f, strBytes(a[0]), a[1]) }
	lastIndexByte := func(f *frame, bs []Value, c Value) Value {
		r := f.g.r
		for i := len(bs) - 1; i >= 0; i-- {
			if f.cond(simp(r.w.ctx.eq(r.term(bs[i], 8), r.term(c, 8)))) {
				return uint64(i)
			}
		}
		return mask(64)
	}
	m["internal/bytealg.LastIndexByte"] = func(f *frame, a []Value) Value { return lastIndexByte(f, a[0].(Slice), a[1]) }
	m["internal/bytealg.LastIndexByteString"] = func(f *frame, a []Value) Value { return lastIndexByte(f, strBytes(a[0]), a[1]) }
	count := func(f *frame, bs []Value, c Value) Value {
		r := f.g.r
		n := 0
		for _, b := range bs {
			if f.cond(simp(r.w.ctx.eq(r.term(b, 8), r.term(c, 8)))) {
				n++
			}
		}
		return uint64(n)
	}
	m["internal/bytealg.Count"] = func(f *frame, a []Value) Value { return count(f, a[0].(Slice), a[1]) }
	m["internal/bytealg.CountString"] = func(f *frame, a []Value) Value { return count(f, strBytes(a[0]), a[1]) }
	eqB := func(f *frame, x, y []Value) Value {
		return f.eqVal(mkStr(x), mkStr(y), nil)
	}
	m["internal/bytealg.Equal"] = func(f *frame, a []Value) Value { return eqB(f, a[0].(Slice), a[1].(Slice)) }
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	cmp := func(f *frame, x, y Value) Value {
		if f.cond(f.eqVal(x, y, nil)) {
			return uint64(0)
		}
		if f.cond(f.strLess(x, y, true)) {
			return mask(64)
		}
		return uint64(1)
	}
	m["internal/bytealg.Compare"] = func(f *frame, a []Value) Value { return cmp(f, mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) }
	m["internal/bytealg.CompareString"] = func(f *frame, a []Value) Value { return cmp(f, a[0], a[1]) }
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	index := func(f *frame, hay, needle []Value) Value {
		for i := 0; i+len(needle) <= len(hay); i++ {
			if f.cond(eqB(f, hay[i:i+len(needle)], needle)) {
				return uint64(i)
			}
		}
		return mask(64)
	}
	m["strings.Index"] = func(f *frame, a []Value) Value { return index(f, strBytes(a[0]), strBytes(a[1])) }
	m["bytes.Index"] = func(f *frame, a []Value) Value { return index(f, a[0].(Slice), a[1].(Slice)) }
	m["internal/bytealg.Index"] = m["bytes.Index"]
	m["internal/bytealg.IndexString"] = m["strings.Index"]
	m["internal/stringslite.Index"] = m["strings.Index"]
	m["internal/stringslite.Clone"] = id
	m["strings.Clone"] = id
	m["strings.ToLower"] = nil
	delete(m, "strings.ToLower")

	// ---- errors
	m["errors.Is"] = func(f *frame, a []Value) Value { return errIs(f, a[0].(Iface), a[1].(Iface)) }
	m["errors.As"] = errAs
	m["errors.Unwrap"] = func(f *frame, a []Value) Value { return errUnwrap(f, a[0].(Iface)) }
	m["unique.Make"] = func(f *frame, a []Value) Value {
		k, ok := concKey(a[0])
		if !ok {
			return unsupported("unique.Make of symbolic value")
		}
		type uk struct {
			t string
			k Value
		}
		key := uk{f.fn.fn.Signature.Results().At(0).Type().String(), k}
		p, _ := f.g.r.w.uniq[key].(*Value)
		if p == nil {
			p = new(Value)
			*p = a[0]
			f.g.r.w.uniq[key] = p
		}
		return Struct{p}
	}
	m["sort.Slice"] = func(f *frame, a []Value) Value { sortSlice(f, a[0].(Iface).v.(Slice), a[1].(*Closure)); return nil }
	m["sort.SliceStable"] = m["sort.Slice"]

	setupFmt(m)
	setupBinary(m)
	setupReflect(m)
	setupMisc(m)
}

type poolItem struct {
	v  Value
	vc []uint32
}

func deepCopy(v Value, d int) Value {
	if d > 12 {
		return v
	}
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = deepCopy(x[i], d+1)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = deepCopy(x[i], d+1)
		}
		return r
	case Slice:
		if x == nil {
			return x
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = deepCopy(x[i], d+1)
		}
		return r
	case Iface:
		return Iface{x.t, deepCopy(x.v, d+1)}
	case *Value:
		if x == nil {
			return x
		}
		n := new(Value)
		*n = deepCopy(*x, d+1)
		return n
	}
	return v
}

func (r *Run) globalByName(g *G, pkg, name string) Value {
	sp := r.e.prog.pkgs[pkg]
	if sp == nil {
		return (*Value)(nil)
	}
	gl := sp.Var(name)
	if gl == nil {
		return (*Value)(nil)
	}
	return r.globalAddr(g, gl)
}

// inTimer runs a timer callback; target panics in it are violations of the whole run.
func (r *Run) inTimer(tg *G, fn func()) {
	defer func() {
		if x := recover(); x != nil {
			if tp, ok := x.(*targetPanic); ok {
				panic(r.uncaught(tg, tp))
			}
			panic(x)
		}
	}()
	fn()
}

func sortSlice(f *frame, s Slice, less *Closure) {
	fn, env := f.g.closureFn(less)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !f.cond(f.g.call(f, fn, []Value{uint64(j), uint64(j - 1)}, env)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeInto(&s[j], y)
			storeInto(&s[j-1], x)
		}
	}
}

func errUnwrap(f *frame, e Iface) Value {
	if e.t == nil {
		return Iface{}
	}
	m := f.g.r.e.prog.methodByName(e.t, "Unwrap")
	if m == nil || m.fn == nil {
		return Iface{}
	}
	res := m.fn.Signature.Results()
	if res.Len() != 1 {
		return Iface{}
	}
	if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
		return Iface{}
	}
	return f.g.call(f, m, []Value{e.v}, nil)
}

func errChildren(f *frame, e Iface) []Iface {
	if e.t == nil {
		return nil
	}
	m := f.g.r.e.prog.methodByName(e.t, "Unwrap")
	if m == nil || m.fn == nil || m.fn.Signature.Results().Len() != 1 {
		return nil
	}
	v := f.g.call(f, m, []Value{e.v}, nil)
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var l []Iface
		for _, y := range x {
			l = append(l, y.(Iface))
		}
		return l
	}
	return nil
}

func errIs(f *frame, e, target Iface) Value {
	if e.t == nil || target.t == nil {
		return e.t == target.t
	}
	if e.t == target.t && types.Comparable(e.t) && f.cond(f.eqVal(e, target, nil)) {
		return true
	}
	if m := f.g.r.e.prog.methodByName(e.t, "Is"); m != nil && m.fn != nil && m.fn.Signature.Params().Len() == 1 {
		if f.cond(f.g.call(f, m, []Value{e.v, target}, nil)) {
			return true
		}
	}
	for _, c := range errChildren(f, e) {
		if errIs(f, c, target) == true {
			return true
		}
	}
	return false
}

func errAs(f *frame, a []Value) Value {
	e, target := a[0].(Iface), a[1].(Iface)
	if target.t == nil {
		f.plainErr("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		f.plainErr("errors: target must be a non-nil pointer")
	}
	want := f.g.r.e.prog.canonType(pt.Elem())
	_, isI := want.Underlying().(*types.Interface)
	var walk func(e Iface) bool
	walk = func(e Iface) bool {
		if e.t == nil {
			return false
		}
		if isI && f.g.r.e.prog.implements(e.t, want) {
			storeInto(target.v.(*Value), e)
			return true
		}
		if e.t == want {
			storeInto(target.v.(*Value), e.v)
			return true
		}
		for _, c := range errChildren(f, e) {
			if walk(c) {
				return true
			}
		}
		return false
	}
	return walk(e)
}

var _ = token.ADD
