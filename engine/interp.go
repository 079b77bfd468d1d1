package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *cfn
	args []Value
	env  []Value
}

type frame struct {
	g        *G
	fn       *cfn
	s        []Value
	env      []Value
	caller   *frame
	blk      *cblock
	ip       int
	defers   []deferred
	pan      *targetPanic
	deferOf  *frame
	ret      Value
	returned bool
	depth    int
}

// simp turns constant terms back into plain values.
func simp(t *T) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k == 1
		}
		return t.k
	}
	return t
}

func (r *Run) term(v Value, w int) *T {
	switch x := v.(type) {
	case uint64:
		return r.w.ctx.konst(x, w)
	case bool:
		return r.w.ctx.boolT(x)
	case *T:
		return x
	case poison:
		unsupported("%s", x.msg)
	}
	panic(fmt.Sprintf("term of %T", v))
}

// cond decides a boolean value
func (f *frame) cond(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *T:
		return f.g.r.branch(x)
	}
	panic(fmt.Sprintf("cond %T", v))
}

func (f *frame) rtPanic(msg string) {
	p := f.g.r.e.prog
	var v Iface
	if p.rtErr != nil {
		v = Iface{p.rtErr, msg}
	} else {
		v = Iface{types.Typ[types.String], "runtime error: " + msg}
	}
	panic(&targetPanic{v: v, msg: "runtime error: " + msg, rt: true, stack: f.g.stackString()})
}

// plainPanic is a runtime panic with plainError text
func (f *frame) plainPanic(msg string) {
	f.rtPanic(msg)
}

func (f *frame) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			f.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case *SymPtr:
		i := f.g.r.concretize(p.idx, "pointer index")
		return &p.arr[i]
	case poison:
		unsupported("%s", p.msg)
	}
	unsupported("dereference of %T", v)
	return nil
}

func (f *frame) load(a Value) Value {
	switch p := a.(type) {
	case *Value:
		if p == nil {
			f.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.g.r.raceOn() {
			f.g.r.raceAccess(f, p, false)
		}
		switch v := (*p).(type) {
		case Struct, Array:
			return copyVal(v)
		default:
			return v
		}
	case *SymPtr:
		r := f.g.r
		if r.raceOn() {
			for i := range p.arr {
				r.raceAccess(f, &p.arr[i], false)
			}
		}
		return r.iteElems(p.arr, p.idx, widthOf(p.typ))
	}
	return *f.ptr(a)
}

func (r *Run) iteElems(arr []Value, idx *T, w int) Value {
	c := r.w.ctx
	allEq := true
	for i := 1; i < len(arr); i++ {
		if arr[i] != arr[0] {
			allEq = false
			break
		}
	}
	if allEq {
		return arr[0]
	}
	n := len(arr)
	acc := r.term(arr[n-1], w)
	for i := n - 2; i >= 0; i-- {
		acc = c.ite(c.eq(idx, c.konst(uint64(i), idx.w)), r.term(arr[i], w), acc)
	}
	return simp(acc)
}

func (f *frame) store(a, v Value) {
	switch p := a.(type) {
	case *Value:
		if p == nil {
			f.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.g.r.raceOn() {
			f.g.r.raceAccess(f, p, true)
		}
		storeInto(p, v)
	case *SymPtr:
		r := f.g.r
		c := r.w.ctx
		w := widthOf(p.typ)
		for i := range p.arr {
			if r.raceOn() {
				r.raceAccess(f, &p.arr[i], true)
			}
			p.arr[i] = simp(c.ite(c.eq(p.idx, c.konst(uint64(i), p.idx.w)), r.term(v, w), r.term(p.arr[i], w)))
		}
	default:
		storeInto(f.ptr(a), v)
	}
}

// index helpers; it is the type of the index
func (f *frame) checkIndex(iv Value, it types.Type, n int) (int, *T) {
	r := f.g.r
	switch x := iv.(type) {
	case uint64:
		var i int64
		if isSigned(it) {
			i = sx(x, widthOf(it))
		} else {
			i = int64(x)
		}
		if i < 0 || i >= int64(n) {
			f.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *T:
		c := r.w.ctx
		t := x
		w := x.w
		if isSigned(it) {
			t = c.sext(x, 64)
		} else {
			t = c.zext(x, 64)
		}
		if n == 0 || !f.cond(simp(c.ult(t, c.konst(uint64(n), 64)))) {
			f.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		_ = w
		if n == 1 {
			return 0, nil
		}
		return 0, t
	}
	panic(fmt.Sprintf("checkIndex %T", iv))
}

const maxITE = 300

func (f *frame) indexAddr(arr []Value, iv Value, it, et types.Type) Value {
	i, t := f.checkIndex(iv, it, len(arr))
	if t == nil {
		return &arr[i]
	}
	if widthOf(et) >= 0 && len(arr) <= maxITE {
		return &SymPtr{arr, t, et}
	}
	i = int(f.g.r.concretize(t, "index"))
	return &arr[i]
}

func (f *frame) indexVal(arr []Value, iv Value, it types.Type, w int) Value {
	i, t := f.checkIndex(iv, it, len(arr))
	if t == nil {
		return arr[i]
	}
	if w >= 0 && len(arr) <= maxITE {
		return f.g.r.iteElems(arr, t, w)
	}
	i = int(f.g.r.concretize(t, "index"))
	return arr[i]
}

func (f *frame) indexStr(s Value, iv Value, it types.Type) Value {
	n := strLen(s)
	i, t := f.checkIndex(iv, it, n)
	if t == nil {
		switch x := s.(type) {
		case string:
			return byteVals[x[i]]
		case *SymStr:
			return x.b[i]
		}
	}
	if n > 4*maxITE {
		i = int(f.g.r.concretize(t, "string index"))
		return strBytes(s)[i]
	}
	return f.g.r.iteElems(strBytes(s), t, 8)
}

// concInt concretizes an integer that must be concrete
func (f *frame) concInt(v Value, what string) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *T:
		return f.g.r.concretize(x, what)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// boundedInt checks 0 <= v <= lim (64-bit int) and concretizes.
func (f *frame) boundedInt(v Value, lim int, format string, arg int) int {
	switch x := v.(type) {
	case uint64:
		if int64(x) < 0 || int64(x) > int64(lim) {
			if strings.Count(format, "%d") == 2 {
				f.rtPanic(fmt.Sprintf(format, int64(x), arg))
			}
			f.rtPanic(fmt.Sprintf(format, int64(x)))
		}
		return int(x)
	case *T:
		c := f.g.r.w.ctx
		t := x
		if t.w < 64 {
			t = c.zext(t, 64)
		}
		if !f.cond(simp(c.ule(t, c.konst(uint64(lim), 64)))) {
			f.rtPanic("slice bounds out of range [symbolic]")
		}
		return int(f.g.r.concretize(t, "slice bound"))
	}
	panic(fmt.Sprintf("boundedInt %T", v))
}

func (f *frame) makeSlice(et types.Type, lv, cv Value) Value {
	r := f.g.r
	c := r.w.ctx
	es := sizeofType(et)
	if es == 0 {
		es = 1
	}
	maxN := uint64(1<<47) / uint64(es)
	chk := func(v Value, what string) uint64 {
		switch x := v.(type) {
		case uint64:
			if int64(x) < 0 || x > maxN {
				f.rtPanic("makeslice: " + what + " out of range")
			}
			if int64(x)*es > int64(r.e.lim.BigAlloc) {
				r.accountBig(f, int64(x)*es)
			}
			return x
		case *T:
			t := x
			if t.w < 64 {
				t = c.zext(t, 64)
			}
			if !f.cond(simp(c.ule(t, c.konst(maxN, 64)))) {
				f.rtPanic("makeslice: " + what + " out of range")
			}
			if r.allocLimit > 0 {
				lim := (r.allocLimit - (r.alloc - r.allocBase)) / es
				if lim < 0 {
					lim = 0
				}
				if !f.cond(simp(c.ule(t, c.konst(uint64(lim), 64)))) {
					r.accountBigSym(f, t, es)
				}
			}
			big := r.e.lim.BigAlloc / uint64(es)
			if !f.cond(simp(c.ule(t, c.konst(big, 64)))) {
				r.e.incomplete(fmt.Sprintf("allocation of more than %d bytes with an input-dependent size in %s", r.e.lim.BigAlloc, shortFn(f.fn.name)))
				r.abort("large symbolic allocation")
			}
			return r.concretize(t, "allocation size")
		}
		panic("makeSlice")
	}
	n := chk(lv, "len")
	cp := n
	if cv != nil {
		same := false
		if a, ok := lv.(*T); ok {
			if b, ok := cv.(*T); ok && a == b {
				same = true
			}
		}
		if !same {
			cp = chk(cv, "cap")
			if cp < n {
				f.rtPanic("makeslice: cap out of range")
			}
		}
	}
	r.account(f, int64(cp)*es)
	if cp > 1<<22 {
		r.e.incomplete("allocation of more than 4M elements")
		r.abort("large allocation")
	}
	s := make(Slice, cp)
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (r *Run) account(f *frame, n int64) {
	if !r.counting {
		return
	}
	r.alloc += n
	if r.allocLimit > 0 && r.alloc-r.allocBase > r.allocLimit {
		r.violation("alloc", fmt.Sprintf("%s: more than %d bytes allocated", r.allocMsg, r.allocLimit))
		r.outcome = "alloc"
		panic(pathEnd{})
	}
}

// accountBig is a concrete large allocation
func (r *Run) accountBig(f *frame, n int64) {
	r.account(f, n)
	r.e.incomplete(fmt.Sprintf("allocation of %d bytes", n))
	r.abort("large allocation")
}

func (r *Run) accountBigSym(f *frame, t *T, es int64) {
	if !r.counting {
		return
	}
	r.violation("alloc", fmt.Sprintf("%s: more than %d bytes allocated", r.allocMsg, r.allocLimit))
	r.outcome = "alloc"
	panic(pathEnd{})
}

func (f *frame) decodeRune(s Value, i int) (Value, int) {
	switch x := s.(type) {
	case string:
		for n, r := range x[i:] {
			_ = n
			sz := 1
			if r != 0xFFFD || strings.HasPrefix(x[i:], "\xef\xbf\xbd") {
				sz = len(string(r))
			}
			return uint64(uint32(r)), sz
		}
	case *SymStr:
		c := f.g.r.w.ctx
		b := x.b[i]
		switch y := b.(type) {
		case uint64:
			if y < 0x80 {
				return y, 1
			}
		case *T:
			if f.cond(simp(c.ult(y, c.konst(0x80, 8)))) {
				return simp(c.zext(y, 32)), 1
			}
		}
		fn := f.g.r.e.prog.stdFunc("unicode/utf8", "DecodeRuneInString")
		if fn == nil {
			unsupported("utf8 not loaded")
		}
		res := f.g.call(f, fn, []Value{mkStr(x.b[i:])}, nil).(Tuple)
		sz := f.concInt(res[1], "rune size")
		return res[0], int(sz)
	}
	panic("decodeRune")
}

func (p *Program) stdFunc(pkg, name string) *cfn {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	fn := sp.Func(name)
	if fn == nil {
		return nil
	}
	return p.compile(fn)
}

// ---- calls

func (g *G) call(caller *frame, fn *cfn, args []Value, env []Value) Value {
	r := g.r
	if fn.epoch.Load() != r.e.prog.epoch {
		fn.epoch.Store(r.e.prog.epoch)
		r.e.funcs.Store(fn, true)
	}
	if fn.native != nil {
		f := &frame{g: g, fn: fn, caller: caller}
		if caller != nil {
			f.depth = caller.depth + 1
		}
		old := g.top
		g.top = f
		v := fn.native(f, args)
		g.top = old
		return v
	}
	f := &frame{g: g, fn: fn, env: env, caller: caller}
	if caller != nil {
		f.depth = caller.depth + 1
		if f.depth > 2500 {
			r.violation("panic", "stack overflow")
			r.outcome = "panic: stack overflow"
			panic(pathEnd{})
		}
	}
	f.s = make([]Value, fn.nslots)
	if len(args) != fn.nparams {
		panic(fmt.Sprintf("engine: %s called with %d args, wants %d", fn.name, len(args), fn.nparams))
	}
	copy(f.s, args)
	old := g.top
	g.top = f
	if fn.hasDefer {
		g.runDefer(f)
	} else {
		g.run(f, fn.blocks[0])
	}
	g.top = old
	return f.ret
}

func (g *G) callDeferred(caller *frame, d deferred, of *frame) {
	r := g.r
	if d.fn.native != nil {
		f := &frame{g: g, fn: d.fn, caller: caller, deferOf: of, depth: caller.depth + 1}
		old := g.top
		g.top = f
		d.fn.native(f, d.args)
		g.top = old
		return
	}
	if d.fn.epoch.Load() != r.e.prog.epoch {
		d.fn.epoch.Store(r.e.prog.epoch)
		r.e.funcs.Store(d.fn, true)
	}
	f := &frame{g: g, fn: d.fn, env: d.env, caller: caller, deferOf: of, depth: caller.depth + 1}
	f.s = make([]Value, d.fn.nslots)
	copy(f.s, d.args)
	old := g.top
	g.top = f
	if d.fn.hasDefer {
		g.runDefer(f)
	} else {
		g.run(f, d.fn.blocks[0])
	}
	g.top = old
}

func (g *G) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		g.callDeferred(f, d, f)
	}
}

// runDefersPanicking runs the remaining defers while panicking; nested panics replace the current one.
func (g *G) runDefersPanicking(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				if x := recover(); x != nil {
					tp, ok := x.(*targetPanic)
					if !ok {
						panic(x)
					}
					f.pan = tp
				}
			}()
			g.callDeferred(f, d, f)
		}()
		if f.pan == nil {
			// recovered: remaining defers run normally, panics in them start a new panic
			return
		}
	}
}

func (g *G) runDefer(f *frame) {
	done := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			x := recover()
			tp, is := x.(*targetPanic)
			if !is {
				panic(x)
			}
			f.pan = tp
			ok = false
		}()
		g.run(f, f.fn.blocks[0])
		return true
	}()
	if done {
		return
	}
	g.top = f
	for {
		g.runDefersPanicking(f)
		if f.pan != nil {
			panic(f.pan)
		}
		// recovered
		g.top = f
		again := func() (again bool) {
			ok := false
			defer func() {
				if ok {
					return
				}
				x := recover()
				tp, is := x.(*targetPanic)
				if !is {
					panic(x)
				}
				f.pan = tp
				again = true
			}()
			g.runDefers(f)
			ok = true
			return false
		}()
		if !again {
			break
		}
	}
	if f.fn.recover != nil {
		g.run(f, f.fn.recover)
	} else {
		switch f.fn.nres {
		case 0:
		case 1:
			f.ret = zero(f.fn.fn.Signature.Results().At(0).Type())
		default:
			f.ret = zero(f.fn.fn.Signature.Results())
		}
	}
}

func (g *G) run(f *frame, b *cblock) {
	r := g.r
	for {
		f.blk = b
		b.hit = true
		r.steps += int64(len(b.ins)) + 1
		if r.steps > r.maxSteps {
			r.stepLimit()
		}
		for ip, in := range b.ins {
			f.ip = ip
			in(f)
		}
		k := 0
		switch b.term {
		case 0:
		case 1:
			switch c := b.cond.get(f).(type) {
			case bool:
				if !c {
					k = 1
				}
			case *T:
				f.ip = len(b.ins)
				if !r.branch(c) {
					k = 1
				}
			default:
				panic(fmt.Sprintf("if %T", c))
			}
		case 2:
			switch len(b.rets) {
			case 0:
			case 1:
				f.ret = b.rets[0].get(f)
			default:
				t := make(Tuple, len(b.rets))
				for i := range b.rets {
					t[i] = b.rets[i].get(f)
				}
				f.ret = t
			}
			return
		default:
			panic("engine: fell off block in " + f.fn.name)
		}
		nb := b.succ[k]
		if n := len(nb.phis); n > 0 {
			e := b.pidx[k]
			if n == 1 {
				f.s[nb.phis[0].dst] = nb.phis[0].edges[e].get(f)
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := range nb.phis {
					t = append(t, nb.phis[i].edges[e].get(f))
				}
				for i := range nb.phis {
					f.s[nb.phis[i].dst] = t[i]
				}
			}
		}
		b = nb
	}
}

func (r *Run) stepLimit() {
	if r.replayOK() {
		r.violation("hang", fmt.Sprintf("no end after %d steps", r.maxSteps))
	}
	r.outcome = "hang"
	panic(pathEnd{})
}

func (r *Run) replayOK() bool { return r.pos >= len(r.prefix) }

func (f *frame) posString() string {
	p := f.g.r.e.prog
	if f.blk != nil {
		if f.ip < len(f.blk.pos) && f.blk.pos[f.ip].IsValid() {
			po := p.fset.Position(f.blk.pos[f.ip])
			return fmt.Sprintf("%s:%d", po.Filename, po.Line)
		}
		for i := min(f.ip, len(f.blk.pos)-1); i >= 0; i-- {
			if f.blk.pos[i].IsValid() {
				po := p.fset.Position(f.blk.pos[i])
				return fmt.Sprintf("%s:%d", po.Filename, po.Line)
			}
		}
	}
	if f.fn.fn != nil {
		po := p.fset.Position(f.fn.fn.Pos())
		return fmt.Sprintf("%s:%d", po.Filename, po.Line)
	}
	return "?"
}

func (g *G) stackString() string {
	var sb strings.Builder
	n := 0
	for f := g.top; f != nil && n < 24; f = f.caller {
		fmt.Fprintf(&sb, "%s (%s)\n", shortFn(f.fn.name), f.posString())
		n++
	}
	return sb.String()
}

// ---- globals and lazy package initialisation

func (r *Run) globalAddr(g *G, gl *ssa.Global) Value {
	path := ""
	if gl.Pkg != nil {
		path = gl.Pkg.Pkg.Path()
	}
	perRun := inModule(path) || !(isStd(path) || strings.HasPrefix(path, "golang.org/x/"))
	var gm map[*ssa.Global]*Value
	var pm map[*ssa.Package]*pkgState
	if perRun {
		gm, pm = r.globals, r.pkgs
	} else {
		gm, pm = r.w.sharedG, r.w.shared
	}
	if p, ok := gm[gl]; ok {
		return p
	}
	st := pm[gl.Pkg]
	if st == nil {
		st = &pkgState{}
		pm[gl.Pkg] = st
		for _, m := range gl.Pkg.Members {
			if x, ok := m.(*ssa.Global); ok {
				v := new(Value)
				*v = zeroSafe(x.Type().Underlying().(*types.Pointer).Elem())
				gm[x] = v
			}
		}
		r.initPackage(g, gl.Pkg)
		st.done = true
	}
	p, ok := gm[gl]
	if !ok {
		p = new(Value)
		*p = zero(gl.Type().Underlying().(*types.Pointer).Elem())
		gm[gl] = p
	}
	return p
}

func (r *Run) initPackage(g *G, p *ssa.Package) {
	path := p.Pkg.Path()
	if skipInit[path] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	p.Build()
	c := r.e.prog.compile(fn)
	savedCount := r.counting
	r.counting = false
	r.sch.nopreempt++
	savedTop := g.top
	steps := r.steps
	g.top = nil
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupportedErr); ok {
					unsupported("initialising package %s: %s", path, u.msg)
				}
				if tp, ok := x.(*targetPanic); ok {
					unsupported("panic initialising package %s: %s\n%s", path, r.panicText(tp), tp.stack)
				}
				panic(x)
			}
		}()
		g.call(nil, c, nil, nil)
	}()
	r.steps = steps
	g.top = savedTop
	r.sch.nopreempt--
	r.counting = savedCount
}

func (r *Run) panicText(tp *targetPanic) string {
	if tp.rt {
		return tp.msg
	}
	iv, _ := tp.v.(Iface)
	if iv.t == nil {
		return "nil"
	}
	switch v := iv.v.(type) {
	case string:
		return v
	case *SymStr:
		return r.concStr(v)
	}
	return types.TypeString(iv.t, nil) + " " + r.showVal(iv.v)
}

// ---- floats

func fval(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(x float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(x)))
	}
	return math.Float64bits(x)
}

func (f *frame) callerName() string {
	if f.caller == nil {
		return "?"
	}
	return f.caller.fn.name
}
