package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verbose = os.Getenv("GOSYM_V") != ""

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

type Dec struct {
	kind byte // 'b' branch, 'c' choose, 'v' concretize, 's' schedule
	val  uint64
}

type Item struct {
	prefix []Dec
	model  Model
}

type Input struct {
	Name string `json:"name"`
	W    int    `json:"-"`
	Val  uint64 `json:"val"`
	t    *T
}

type Obs struct {
	name string
	v    Value
}

type Violation struct {
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"` // assert, panic, deadlock, hang, alloc, race
	Msg      string            `json:"msg"`
	Inputs   map[string]uint64 `json:"inputs"`
	Obs      []string          `json:"observed"`
	Trace    []string          `json:"trace,omitempty"`
	Sched    []string          `json:"schedule,omitempty"`
	Stack    string            `json:"stack,omitempty"`
	Decs     []Dec             `json:"-"`
	Seq      []uint64          `json:"decisions,omitempty"`
	Model    Model             `json:"-"`
	Threads  bool              `json:"threads"`
	Elapsed  int64             `json:"virtual_ns"` // on the clock of the run
	Confirm  string            `json:"confirmed,omitempty"`
	Evidence map[string]string `json:"-"`
}

// PathSample is a completed path that can be compared with the native build.
type PathSample struct {
	Inputs  map[string]uint64
	Outcome string
	Obs     []string
	Sched   bool // the path depends on a schedule other than the default one, or waits for long
}

type Limits struct {
	MaxSteps   int64 // per path
	MaxPaths   int64
	Deadline   time.Time
	Preempt    int
	TimerEarly int // timers that may fire although some goroutine could run
	MaxConc    int // max values enumerated when concretizing
	MaxDecs    int
	BigAlloc   uint64
	MaxAllocs  int64
}

type Exploration struct {
	fixed map[string]uint64 // the inputs, when only schedules are explored
	prog                     *Program
	fn                       *ssa.Function
	name                     string
	lim                      Limits
	st                       *Stats
	cache                    *QCache
	mu                       sync.Mutex
	cond                     *sync.Cond
	stack                    []Item
	active                   int
	stop                     bool
	viols                    []*Violation
	vkeys                    map[string]bool
	incompl                  map[string]int
	reach                    map[string]int64
	samples                  []PathSample
	nsample                  int64
	rng                      uint64
	pathsByOutcome           map[string]int64
	funcs                    sync.Map // *ssa.Function -> true
	maxViol                  int
	threads                  atomic.Bool
	wantSamples              int
	raceDetect               bool
	tier                     int
	bounds                   map[string]int64
	maxStepsSeen, maxDecSeen atomic.Int64
}

func (e *Exploration) incomplete(why string) {
	e.mu.Lock()
	e.incompl[why]++
	e.mu.Unlock()
}

type Worker struct {
	e       *Exploration
	ctx     *Ctx
	sol     *Solver
	shared  map[*ssa.Package]*pkgState // package state of non-module packages, shared by the paths of this worker
	sharedG map[*ssa.Global]*Value
	uniq    map[any]any
}

// Run is the execution of one path.
type Run struct {
	maxSteps     int64 // limits of this run
	maxPreempt   int
	maxEarly     int
	w            *Worker
	e            *Exploration
	prefix       []Dec
	decs         []Dec
	pos          int
	model        Model
	memo         map[*T]uint64
	comp         map[int32]int // var -> component
	comps        [][]*T        // component -> constraints
	cvars        [][]int32
	nconstr      int
	inputs       []Input
	names        map[string]int
	obs          []Obs
	steps        int64
	alloc        int64
	allocLimit   int64 // 0 none
	allocBase    int64
	allocMsg     string
	globals      map[*ssa.Global]*Value
	pkgs         map[*ssa.Package]*pkgState
	ended        bool
	outcome      string
	trace        []string
	sch          Sched
	imprecise    string
	expectPanic  int
	hang         bool
	side         map[any]any
	oidSeq       int
	counting     bool
	mapOrders    bool
	mapIterating bool
	race         *raceState
	now          int64
	panicStack   string
}

type pkgState struct{ done, running bool }

// control-flow panics inside the engine
type abortPath struct{ why string }
type pathEnd struct{}
type targetPanic struct { // always used as pointer
	v     Value // Iface
	msg   string
	rt    bool
	stack string
}

func (r *Run) abort(why string) { panic(abortPath{why}) }

func (r *Run) evalB(t *T) bool { return r.w.ctx.eval(t, r.model, r.memo) == 1 }

// slice returns constraints connected with the variables of ts
func (r *Run) slice(ts ...*T) []*T {
	var out []*T
	seen := map[int]bool{}
	for _, t := range ts {
		for _, v := range t.vars {
			if ci, ok := r.comp[v]; ok && !seen[ci] {
				seen[ci] = true
				out = append(out, r.comps[ci]...)
			}
		}
	}
	return append(out, ts...)
}

func (r *Run) addConstraint(t *T) {
	if t.isConst() {
		return
	}
	r.nconstr++
	// merge components
	target := -1
	for _, v := range t.vars {
		ci, ok := r.comp[v]
		if !ok {
			continue
		}
		if target == -1 {
			target = ci
		} else if ci != target {
			if len(r.comps[ci]) > len(r.comps[target]) {
				ci, target = target, ci
			}
			r.comps[target] = append(r.comps[target], r.comps[ci]...)
			for _, x := range r.cvars[ci] {
				r.comp[x] = target
			}
			r.cvars[target] = append(r.cvars[target], r.cvars[ci]...)
			r.comps[ci] = nil
			r.cvars[ci] = nil
		}
	}
	if target == -1 {
		target = len(r.comps)
		r.comps = append(r.comps, nil)
		r.cvars = append(r.cvars, nil)
	}
	for _, v := range t.vars {
		if _, ok := r.comp[v]; !ok {
			r.comp[v] = target
			r.cvars[target] = append(r.cvars[target], v)
		}
	}
	for _, x := range r.comps[target] {
		if x == t {
			return
		}
	}
	r.comps[target] = append(r.comps[target], t)
}

func (r *Run) setModel(m Model) {
	nm := Model{}
	for k, v := range r.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	r.model = nm
	r.memo = map[*T]uint64{}
}

func (r *Run) modelWith(m Model) Model {
	nm := make(Model, len(r.model)+len(m))
	for k, v := range r.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return nm
}

func (r *Run) fork(d Dec, m Model) {
	p := make([]Dec, len(r.decs)+1)
	copy(p, r.decs)
	p[len(r.decs)] = d
	r.e.st.Forks.Add(1)
	r.e.push(Item{p, r.modelWith(m)})
}

func (r *Run) record(d Dec) {
	r.decs = append(r.decs, d)
	r.pos++
	if len(r.decs) > r.e.lim.MaxDecs {
		r.e.incomplete("decision limit reached on a path")
		r.abort("decision limit")
	}
}

func (r *Run) next(kind byte) (uint64, bool) {
	if r.pos < len(r.prefix) {
		d := r.prefix[r.pos]
		if d.kind != kind {
			panic(fmt.Sprintf("engine: replay mismatch at %d: have %c want %c", r.pos, d.kind, kind))
		}
		return d.val, true
	}
	return 0, false
}

// branch decides a symbolic condition, forking if both sides are feasible.
func (r *Run) branch(cond *T) bool {
	if cond.isConst() {
		return cond.k == 1
	}
	c := r.w.ctx
	r.e.st.Branches.Add(1)
	if v, ok := r.next('b'); ok {
		b := v&1 == 1
		if v&2 == 0 {
			if b {
				r.addConstraint(cond)
			} else {
				r.addConstraint(c.not(cond))
			}
		}
		r.record(Dec{'b', v})
		return b
	}
	v := r.evalB(cond)
	other := cond
	if v {
		other = c.not(cond)
	}
	sat, m := r.w.sol.check(r.slice(other))
	forced := uint64(0)
	switch sat {
	case SatYes:
		r.fork(Dec{'b', b2u(!v)}, m)
	case Unknown:
		r.e.incomplete("solver gave up on a branch")
	case Unsat:
		forced = 2
	}
	if forced == 0 {
		if v {
			r.addConstraint(cond)
		} else {
			r.addConstraint(c.not(cond))
		}
	}
	r.record(Dec{'b', b2u(v) | forced})
	return v
}

// choose makes an unconstrained nondeterministic choice among n alternatives.
func (r *Run) choose(n int, kind byte) int {
	if kind == 's' && r.maxPreempt < 0 {
		return 0 // one fixed schedule
	}
	if n <= 1 {
		return 0
	}
	if v, ok := r.next(kind); ok {
		r.record(Dec{kind, v})
		return int(v)
	}
	r.e.st.Branches.Add(1)
	for i := n - 1; i >= 1; i-- {
		r.fork(Dec{kind, uint64(i)}, nil)
	}
	r.record(Dec{kind, 0})
	return 0
}

// concretize enumerates all feasible values of t.
func (r *Run) concretize(t *T, what string) uint64 {
	if t.isConst() {
		return t.k
	}
	c := r.w.ctx
	if v, ok := r.next('v'); ok {
		r.addConstraint(c.eq(t, c.konst(v, t.w)))
		r.record(Dec{'v', v})
		return v
	}
	r.e.st.Branches.Add(1)
	v := c.eval(t, r.model, r.memo)
	ne := []*T{c.not(c.eq(t, c.konst(v, t.w)))}
	n := 1
	if cs := r.slice(t); len(t.vars) == 1 && c.varList[t.vars[0]].w <= 8 && onlyVar(cs, t.vars[0]) {
		// a function of one octet: its values by evaluation
		x := c.varList[t.vars[0]]
		seen := map[uint64]bool{v: true}
	octet:
		for k := uint64(0); k <= mask(x.w); k++ {
			m := Model{x.name: k}
			memo := map[*T]uint64{}
			for _, q := range cs[:len(cs)-1] {
				if c.eval(q, m, memo) == 0 {
					continue octet
				}
			}
			if v2 := c.eval(t, m, memo); !seen[v2] {
				seen[v2] = true
				r.fork(Dec{'v', v2}, m)
			}
		}
		r.addConstraint(c.eq(t, c.konst(v, t.w)))
		r.record(Dec{'v', v})
		return v
	}
	for {
		sat, m := r.w.sol.check(r.slice(ne...))
		if sat == Unsat {
			break
		}
		if sat == Unknown {
			r.e.incomplete("solver gave up while enumerating " + what)
			break
		}
		n++
		if n > r.e.lim.MaxConc {
			r.e.incomplete("more than " + fmt.Sprint(r.e.lim.MaxConc) + " values while enumerating " + what)
			break
		}
		mm := r.modelWith(m)
		v2 := c.eval(t, mm, map[*T]uint64{})
		r.fork(Dec{'v', v2}, m)
		ne = append(ne, c.not(c.eq(t, c.konst(v2, t.w))))
	}
	r.addConstraint(c.eq(t, c.konst(v, t.w)))
	r.record(Dec{'v', v})
	return v
}

func onlyVar(ts []*T, v int32) bool {
	for _, t := range ts {
		if len(t.vars) != 1 || t.vars[0] != v {
			return false
		}
	}
	return true
}

func (r *Run) assume(cond *T) {
	if cond.isConst() {
		if cond.k == 0 {
			r.e.st.Infeasible.Add(1)
			r.abort("assume false")
		}
		return
	}
	if r.pos < len(r.prefix) {
		// the model of the prefix satisfies everything up to its end, later assumptions included or not
		r.addConstraint(cond)
		return
	}
	if !r.evalB(cond) {
		sat, m := r.w.sol.check(r.slice(cond))
		if sat != SatYes {
			if sat == Unknown {
				r.e.incomplete("solver gave up on an assumption")
			}
			r.e.st.Infeasible.Add(1)
			r.abort("assume infeasible")
		}
		r.setModel(m)
	}
	r.addConstraint(cond)
}

// assert reports a violation if the negation of cond is satisfiable on this path.
func (r *Run) assert(cond *T, kind, msg string) {
	r.e.st.Asserts.Add(1)
	if cond.isConst() && cond.k == 1 {
		return
	}
	if r.pos < len(r.prefix) {
		// already decided on the path this one was forked from
		r.addConstraint(cond)
		return
	}
	c := r.w.ctx
	neg := c.not(cond)
	r.e.st.AssertQ.Add(1)
	sat, m := r.w.sol.check(r.slice(neg))
	switch sat {
	case Unsat:
		r.e.st.AssertUnsat.Add(1)
		return
	case Unknown:
		r.e.incomplete("solver gave up on assertion: " + msg)
		return
	}
	// violated: report with that model, then continue on the satisfying side if any
	saved, savedMemo := r.model, r.memo
	r.setModel(m)
	r.violation(kind, msg)
	r.model, r.memo = saved, savedMemo
	if !r.evalB(cond) {
		sat, m := r.w.sol.check(r.slice(cond))
		if sat != SatYes {
			r.outcome = "assert: " + msg
			r.abort("assertion always fails")
		}
		r.setModel(m)
	}
	r.addConstraint(cond)
}

func (r *Run) inputMap() map[string]uint64 {
	in := map[string]uint64{}
	for _, i := range r.inputs {
		if i.t != nil {
			in[i.Name] = r.w.ctx.eval(i.t, r.model, r.memo)
		} else {
			in[i.Name] = i.Val
		}
	}
	return in
}

func (r *Run) obsStrings() []string {
	var out []string
	for _, o := range r.obs {
		out = append(out, o.name+"="+r.obsVal(o.v))
	}
	return out
}

const afterViolation = 60 * time.Second

func (r *Run) violation(kind, msg string) {
	v := &Violation{Harness: r.e.name, Kind: kind, Msg: msg, Elapsed: r.now - epochNs, Inputs: r.inputMap(), Obs: r.obsStrings(), Decs: append([]Dec(nil), r.decs...), Model: r.model,
		Trace: append([]string(nil), r.trace...), Sched: append([]string(nil), r.sch.log...), Threads: r.sch.multi}
	for _, d := range v.Decs {
		v.Seq = append(v.Seq, uint64(d.kind)<<56|d.val)
	}
	if r.panicStack != "" {
		v.Stack = r.panicStack
		r.panicStack = ""
	} else if g := r.sch.cur; g != nil {
		v.Stack = g.stackString()
	}
	key := kind + "|" + msg
	if kind == "panic" || kind == "hang" {
		key += "|" + topFrames(v.Stack, 2)
	}
	r.e.mu.Lock()
	defer r.e.mu.Unlock()
	if r.imprecise != "" {
		v.Trace = append(v.Trace, "imprecise model: "+r.imprecise)
	}
	n := 0
	for k := range r.e.vkeys {
		if strings.HasPrefix(k, key+"#") {
			n++
		}
	}
	if n >= 3 {
		return
	}
	r.e.vkeys[fmt.Sprintf("%s#%d", key, n)] = true
	r.e.viols = append(r.e.viols, v)
	// with something to report there is no need for everything else to be decided
	if l := time.Now().Add(afterViolation); l.Before(r.e.lim.Deadline) {
		r.e.lim.Deadline = l
	}
	if len(r.e.viols) >= r.e.maxViol {
		r.e.stop = true
		r.e.cond.Broadcast()
	}
	if verbose {
		logf("[%s] possible violation: %s %s inputs=%v", r.e.name, kind, msg, v.Inputs)
		if v.Stack != "" {
			logf("%s", v.Stack)
		}
	}
}

func topFrames(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, ";")
}

func (e *Exploration) push(it Item) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Exploration) pop() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Item{}, false
		}
		if n := len(e.stack); n > 0 {
			i := n - 1
			it := e.stack[i]
			e.stack = e.stack[:i]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Exploration) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.stack) == 0 {
		e.cond.Broadcast()
	}
	over := ""
	if e.lim.MaxPaths > 0 && e.st.Paths.Load() >= e.lim.MaxPaths {
		over = "path limit reached"
	}
	if !e.lim.Deadline.IsZero() && time.Now().After(e.lim.Deadline) {
		over = "time limit reached"
	}
	if over != "" && !e.stop && (len(e.stack) > 0 || e.active > 0) {
		e.incompl[over]++
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func newExploration(p *Program, fn *ssa.Function, name string, lim Limits, st *Stats, cache *QCache) *Exploration {
	p.epoch++
	e := &Exploration{prog: p, fn: fn, name: name, lim: lim, st: st, cache: cache, vkeys: map[string]bool{}, incompl: map[string]int{}, reach: map[string]int64{}, pathsByOutcome: map[string]int64{}, bounds: map[string]int64{}, maxViol: 12, wantSamples: 24}
	e.cond = sync.NewCond(&e.mu)
	e.rng = 88172645463325252
	return e
}

func (e *Exploration) run(nworkers int, workers []*Worker) {
	e.stack = []Item{{}}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		w := workers[i]
		w.e = e
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				w.runPath(it)
				e.done()
			}
		}()
	}
	wg.Wait()
}

func newWorker(st *Stats, cache *QCache, timeoutMs int) (*Worker, error) {
	c := newCtx()
	s, err := newSolver(c, st, cache, timeoutMs)
	if err != nil {
		return nil, err
	}
	return &Worker{ctx: c, sol: s, shared: map[*ssa.Package]*pkgState{}, sharedG: map[*ssa.Global]*Value{}, uniq: map[any]any{}}, nil
}

// reset forgets the terms built so far.
func (w *Worker) reset() {
	w.ctx = newCtx()
	w.sol.c = w.ctx
	w.sol.restart()
}

func (w *Worker) runPath(it Item) {
	e := w.e
	if len(w.ctx.tab) > 500000 {
		w.reset()
	}
	r := &Run{w: w, e: e, prefix: it.prefix, model: it.model, memo: map[*T]uint64{}, comp: map[int32]int{}, names: map[string]int{}, globals: map[*ssa.Global]*Value{}, pkgs: map[*ssa.Package]*pkgState{}, side: map[any]any{}}
	if r.model == nil {
		r.model = Model{}
	}
	r.outcome = "ok"
	r.now = epochNs
	r.maxSteps = e.lim.MaxSteps
	if e.raceDetect {
		r.race = &raceState{cells: map[any]*shadow{}, atomics: map[any][]uint32{}, seen: map[string]bool{}}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch p := x.(type) {
				case abortPath:
					if r.outcome == "ok" {
						r.outcome = "abort: " + p.why
					}
				case pathEnd:
				case unsupportedErr:
					e.incomplete("unsupported: " + p.msg)
					r.outcome = "unsupported"
					if verbose {
						logf("unsupported: %s\n%s", p.msg, r.sch.lastStack)
					}
				default:
					e.incomplete(fmt.Sprintf("engine error: %v", x))
					r.outcome = "engine error"
					if verbose {
						logf("engine panic: %v\n%s", x, debug.Stack())
					}
				}
			}
		}()
		r.execMain(e.prog.compile(e.fn), nil)
	}()
	e.st.Paths.Add(1)
	e.st.Steps.Add(r.steps)
	for {
		m := e.maxStepsSeen.Load()
		if r.steps <= m || e.maxStepsSeen.CompareAndSwap(m, r.steps) {
			break
		}
	}
	for {
		m := e.maxDecSeen.Load()
		if int64(len(r.decs)) <= m || e.maxDecSeen.CompareAndSwap(m, int64(len(r.decs))) {
			break
		}
	}
	if r.sch.multi {
		e.threads.Store(true)
	}
	oc := r.outcome
	if strings.HasPrefix(oc, "abort") {
		oc = "abort"
	}
	e.mu.Lock()
	e.pathsByOutcome[oc]++
	take := false
	if (r.outcome == "ok" || strings.HasPrefix(r.outcome, "panic")) && r.imprecise == "" {
		e.nsample++
		if len(e.samples) < e.wantSamples {
			take = true
		} else {
			e.rng ^= e.rng << 13
			e.rng ^= e.rng >> 7
			e.rng ^= e.rng << 17
			if e.rng%uint64(e.nsample) < uint64(e.wantSamples) {
				take = true
			}
		}
	}
	e.mu.Unlock()
	if take {
		s := PathSample{r.inputMap(), r.outcome, r.obsStrings(), hasSched(r.decs) || r.now-epochNs > 12e9}
		e.mu.Lock()
		if len(e.samples) < e.wantSamples {
			e.samples = append(e.samples, s)
		} else {
			e.samples[int(e.rng>>20)%len(e.samples)] = s
		}
		e.mu.Unlock()
	}
}

func (e *Exploration) incompleteList() []string {
	var out []string
	for k, n := range e.incompl {
		out = append(out, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(out)
	return out
}

func (r *Run) setSched(p, t int) {
	r.maxPreempt, r.maxEarly = p, t
	e := r.e
	e.mu.Lock()
	e.lim.Preempt, e.lim.TimerEarly = max(e.lim.Preempt, p), max(e.lim.TimerEarly, t) // for the report
	e.mu.Unlock()
}
