package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type execFn func(f *frame)

type opnd struct {
	k uint8 // 0 slot, 1 const, 2 free var, 3 global
	i int
	v Value
	g *ssa.Global
}

func (o *opnd) get(f *frame) Value {
	switch o.k {
	case 0:
		return f.s[o.i]
	case 1:
		return o.v
	case 2:
		return f.env[o.i]
	}
	return f.g.r.globalAddr(f.g, o.g)
}

type cphi struct {
	dst   int
	edges []opnd
}

type cblock struct {
	idx    int
	phis   []cphi
	ins    []execFn
	pos    []token.Pos
	term   uint8 // 0 jump 1 if 2 return 3 panic/unreachable
	cond   opnd
	succ   [2]*cblock
	pidx   [2]int // index of this block among preds of succ
	rets   []opnd
	hit    bool
	ssaBlk *ssa.BasicBlock
}

type cfn struct {
	fn       *ssa.Function
	name     string
	pkgPath  string
	module   bool // code under test
	races    bool // its accesses count for data races
	noyield  bool
	nslots   int
	nparams  int
	blocks   []*cblock
	recover  *cblock
	hasDefer bool
	native   func(f *frame, args []Value) Value
	epoch    atomic.Uint32
	nres     int
	maxSucc  int
	err      string
	failed   bool
}

func (p *Program) compile(fn *ssa.Function) *cfn {
	if v, ok := p.cfns.Load(fn); ok {
		return v.(*cfn)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.compileLocked(fn)
}

func (p *Program) compileLocked(fn *ssa.Function) *cfn {
	if v, ok := p.cfns.Load(fn); ok {
		return v.(*cfn)
	}
	c := &cfn{fn: fn, name: fn.String()}
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Pkg != nil {
		c.pkgPath = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		c.pkgPath = o.Object().Pkg().Path()
	}
	if r := fn.Signature.Recv(); c.pkgPath == "" && r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			c.pkgPath = n.Obj().Pkg().Path()
		}
	}
	c.module = inModule(c.pkgPath) && !inHarness(c.pkgPath)
	switch c.pkgPath {
	case "bytes", "io", "bufio", "sort", "encoding/binary", zz + "/fake", zz + "/udp":
		c.races = true
	default:
		c.races = c.module
	}
	c.noyield = !inModule(c.pkgPath) || strings.HasPrefix(c.pkgPath, zz)
	c.nres = fn.Signature.Results().Len()
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	nat := udpIntrinsic(p, name)
	if nat == nil {
		nat = lookupIntrinsic(name, c.pkgPath, fn)
	}
	if nat != nil {
		c.native = nat
		p.cfns.Store(fn, c)
		return c
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		c.native = func(f *frame, args []Value) Value {
			return unsupported("function without Go body: %s called by %s", c.name, f.callerName())
		}
		p.cfns.Store(fn, c)
		return c
	}
	cc := &comp{p: p, c: c, slots: map[ssa.Value]int{}, fv: map[*ssa.FreeVar]int{}}
	cc.compileFn(fn)
	p.cfns.Store(fn, c) // only now: other workers look it up without the lock
	return c
}

type comp struct {
	p     *Program
	c     *cfn
	slots map[ssa.Value]int
	fv    map[*ssa.FreeVar]int
}

func (cc *comp) slot(v ssa.Value) int {
	if s, ok := cc.slots[v]; ok {
		return s
	}
	s := cc.c.nslots
	cc.slots[v] = s
	cc.c.nslots++
	return s
}

func (cc *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: cc.p.constVal(x)}
	case *ssa.Global:
		return opnd{k: 3, g: x}
	case *ssa.Function:
		return opnd{k: 1, v: &Closure{fn: x}}
	case *ssa.FreeVar:
		return opnd{k: 2, i: cc.fv[x]}
	case *ssa.Builtin:
		return opnd{k: 1, v: nil}
	}
	return opnd{k: 0, i: cc.slot(v)}
}

func (cc *comp) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = cc.op(v)
	}
	return r
}

func (p *Program) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroSafe(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return unsupportedVal(fmt.Sprintf("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(widthOf(b))
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(widthOf(b))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if widthOf(b) == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return uint64(math.Float32bits(f32))
		}
		return math.Float64bits(f)
	}
	return unsupportedVal(fmt.Sprintf("const %s", c))
}

type poison struct{ msg string }

func unsupportedVal(m string) Value { return poison{m} }

func zeroSafe(t types.Type) (v Value) {
	defer func() {
		if x := recover(); x != nil {
			v = poison{fmt.Sprint(x)}
		}
	}()
	return zero(t)
}

func (cc *comp) compileFn(fn *ssa.Function) {
	c := cc.c
	for i, fv := range fn.FreeVars {
		cc.fv[fv] = i
	}
	for _, p := range fn.Params {
		cc.slot(p)
	}
	c.nparams = len(fn.Params)
	blks := make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		blks[i] = &cblock{idx: i, ssaBlk: b}
	}
	var rec *cblock
	if fn.Recover != nil {
		for i, b := range fn.Blocks {
			if b == fn.Recover {
				rec = blks[i]
			}
		}
		if rec == nil {
			rec = &cblock{idx: len(blks), ssaBlk: fn.Recover}
			cc.compileBlock(fn.Recover, rec, blks)
		}
	}
	c.blocks = blks
	c.recover = rec
	for i, b := range fn.Blocks {
		cc.compileBlock(b, blks[i], blks)
	}
}

func (cc *comp) compileBlock(b *ssa.BasicBlock, cb *cblock, blks []*cblock) {
	for i, s := range b.Succs {
		if i < 2 {
			cb.succ[i] = blks[s.Index]
			// which predecessor edge are we? (a block may appear twice among preds)
			n := 0
			for k := 0; k < i; k++ {
				if b.Succs[k] == s {
					n++
				}
			}
			for j, p := range s.Preds {
				if p == b {
					if n == 0 {
						cb.pidx[i] = j
						break
					}
					n--
				}
			}
		}
	}
	cb.term = 3
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			cb.phis = append(cb.phis, cphi{cc.slot(x), cc.ops(x.Edges)})
		case *ssa.Jump:
			cb.term = 0
		case *ssa.If:
			cb.term = 1
			cb.cond = cc.op(x.Cond)
		case *ssa.Return:
			cb.term = 2
			cb.rets = cc.ops(x.Results)
		case *ssa.DebugRef:
		default:
			e := cc.instr(in)
			if e != nil {
				cb.ins = append(cb.ins, e)
				cb.pos = append(cb.pos, in.Pos())
			}
		}
	}
}

func (cc *comp) instr(in ssa.Instruction) (ex execFn) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupportedErr); ok {
				ex = func(f *frame) { panic(u) }
				return
			}
			panic(x)
		}
	}()
	p := cc.p
	switch x := in.(type) {
	case *ssa.Alloc:
		d := cc.slot(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		sz := sizeofType(t)
		heap := x.Heap
		switch z := zeroSafe(t).(type) {
		case Struct, Array:
			return func(f *frame) {
				v := new(Value)
				*v = zero(t)
				if heap {
					f.g.r.account(f, sz)
				}
				f.s[d] = v
			}
		default:
			return func(f *frame) {
				v := new(Value)
				*v = z
				if heap {
					f.g.r.account(f, sz)
				}
				f.s[d] = v
			}
		}
	case *ssa.UnOp:
		return cc.unop(x)
	case *ssa.BinOp:
		d, a, b := cc.slot(x), cc.op(x.X), cc.op(x.Y)
		fn := binopFn(x.Op, x.X.Type(), x.Y.Type())
		return func(f *frame) { f.s[d] = fn(f, a.get(f), b.get(f)) }
	case *ssa.Call:
		return cc.call(x)
	case *ssa.ChangeInterface:
		d, a := cc.slot(x), cc.op(x.X)
		return func(f *frame) { f.s[d] = a.get(f) }
	case *ssa.ChangeType:
		d, a := cc.slot(x), cc.op(x.X)
		return func(f *frame) { f.s[d] = a.get(f) }
	case *ssa.Convert:
		d, a := cc.slot(x), cc.op(x.X)
		fn := convFn(x.X.Type(), x.Type())
		return func(f *frame) { f.s[d] = fn(f, a.get(f)) }
	case *ssa.MultiConvert:
		d, a := cc.slot(x), cc.op(x.X)
		fn := convFn(x.X.Type(), x.Type())
		return func(f *frame) { f.s[d] = fn(f, a.get(f)) }
	case *ssa.SliceToArrayPointer:
		d, a := cc.slot(x), cc.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(f *frame) {
			s := a.get(f).(Slice)
			if len(s) < n {
				f.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			v := new(Value)
			*v = Array(s[:n:n])
			if n == 0 {
				*v = Array{}
			}
			f.s[d] = v
		}
	case *ssa.MakeClosure:
		d := cc.slot(x)
		fn := x.Fn.(*ssa.Function)
		bs := cc.ops(x.Bindings)
		return func(f *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(f)
			}
			f.s[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeMap:
		d := cc.slot(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(f *frame) { f.g.r.account(f, 48); f.s[d] = newMap(kt) }
	case *ssa.MakeChan:
		d, a := cc.slot(x), cc.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		sz := sizeofType(et)
		return func(f *frame) {
			n := f.concInt(a.get(f), "channel size")
			if int64(n) < 0 || n > 1<<32 {
				f.rtPanic("makechan: size out of range")
			}
			f.g.r.account(f, int64(n)*sz+96)
			f.s[d] = f.g.r.newChan(int(n), et)
		}
	case *ssa.MakeSlice:
		d, l, c := cc.slot(x), cc.op(x.Len), cc.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(f *frame) { f.s[d] = f.makeSlice(et, l.get(f), c.get(f)) }
	case *ssa.MakeInterface:
		d, a := cc.slot(x), cc.op(x.X)
		t := p.canonTypeLocked(x.X.Type())
		return func(f *frame) { f.s[d] = Iface{t, a.get(f)} }
	case *ssa.FieldAddr:
		d, a, i := cc.slot(x), cc.op(x.X), x.Field
		return func(f *frame) {
			pv := f.ptr(a.get(f))
			st, ok := (*pv).(Struct)
			if !ok {
				unsupported("field address of %T in %s", *pv, f.fn.name)
			}
			f.s[d] = &st[i]
		}
	case *ssa.Field:
		d, a, i := cc.slot(x), cc.op(x.X), x.Field
		return func(f *frame) { f.s[d] = a.get(f).(Struct)[i] }
	case *ssa.IndexAddr:
		d, a, i := cc.slot(x), cc.op(x.X), cc.op(x.Index)
		it := x.Index.Type()
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return func(f *frame) {
			var arr []Value
			switch s := a.get(f).(type) {
			case Slice:
				arr = s
			case *Value:
				pv := f.ptr(s)
				arr = []Value((*pv).(Array))
			case poison:
				unsupported("%s", s.msg)
			default:
				unsupported("index address of %T", s)
			}
			f.s[d] = f.indexAddr(arr, i.get(f), it, et)
		}
	case *ssa.Index:
		d, a, i := cc.slot(x), cc.op(x.X), cc.op(x.Index)
		it := x.Index.Type()
		xt := x.X.Type()
		ew := widthOf(x.Type())
		return func(f *frame) {
			v := a.get(f)
			switch s := v.(type) {
			case Array:
				f.s[d] = f.indexVal([]Value(s), i.get(f), it, ew)
			case string, *SymStr:
				f.s[d] = f.indexStr(v, i.get(f), it)
			default:
				unsupported("index of %s", xt)
			}
		}
	case *ssa.Lookup:
		d, a, i := cc.slot(x), cc.op(x.X), cc.op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			it := x.Index.Type()
			return func(f *frame) { f.s[d] = f.indexStr(a.get(f), i.get(f), it) }
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		commaOk := x.CommaOk
		return func(f *frame) {
			m := a.get(f).(*Map)
			if f.g.r.raceOn() && m != nil {
				f.g.r.raceAccess(f, m, false)
			}
			e := f.g.r.mapFind(f, m, i.get(f))
			var v Value
			if e != nil {
				v = e.v
			} else {
				v = zero(et)
			}
			if commaOk {
				f.s[d] = Tuple{v, e != nil}
			} else {
				f.s[d] = v
			}
		}
	case *ssa.Slice:
		return cc.slice(x)
	case *ssa.Range:
		d, a := cc.slot(x), cc.op(x.X)
		return func(f *frame) {
			switch v := a.get(f).(type) {
			case *Map:
				if f.g.r.raceOn() && v != nil {
					f.g.r.raceAccess(f, v, false)
				}
				f.s[d] = f.g.r.newMapIter(v)
			case string, *SymStr:
				f.s[d] = &strIter{s: v}
			default:
				unsupported("range over %T", v)
			}
		}
	case *ssa.Next:
		d, a := cc.slot(x), cc.op(x.Iter)
		if x.IsString {
			return func(f *frame) {
				it := a.get(f).(*strIter)
				n := strLen(it.s)
				if it.i >= n {
					f.s[d] = Tuple{false, uint64(0), uint64(0)}
					return
				}
				ru, sz := f.decodeRune(it.s, it.i)
				f.s[d] = Tuple{true, uint64(it.i), ru}
				it.i += sz
			}
		}
		tt := x.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		return func(f *frame) {
			it := a.get(f).(*mapIter)
			if e := it.next(); e != nil {
				f.s[d] = Tuple{true, e.k, e.v}
				return
			}
			f.s[d] = Tuple{false, zeroSafe(kt), zeroSafe(vt)}
		}
	case *ssa.TypeAssert:
		d, a := cc.slot(x), cc.op(x.X)
		at := p.canonTypeLocked(x.AssertedType)
		commaOk := x.CommaOk
		_, isI := at.Underlying().(*types.Interface)
		return func(f *frame) {
			v := a.get(f)
			iv, ok0 := v.(Iface)
			if !ok0 {
				unsupported("type assertion on %T", v)
			}
			ok := false
			var res Value
			if isI {
				if iv.t != nil && p.implements(iv.t, at) {
					ok = true
					res = iv
				}
			} else if iv.t == at {
				ok = true
				res = iv.v
			}
			if commaOk {
				if !ok {
					res = zero(at)
				}
				f.s[d] = Tuple{res, ok}
				return
			}
			if !ok {
				f.rtPanic("interface conversion: " + typeAssertMsg(x.X.Type(), iv.t, at))
			}
			f.s[d] = res
		}
	case *ssa.Extract:
		d, a, i := cc.slot(x), cc.op(x.Tuple), x.Index
		return func(f *frame) { f.s[d] = a.get(f).(Tuple)[i] }
	case *ssa.RunDefers:
		return func(f *frame) { f.g.runDefers(f) }
	case *ssa.Panic:
		a := cc.op(x.X)
		return func(f *frame) {
			v := a.get(f).(Iface)
			if v.t == nil {
				f.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(&targetPanic{v: v, stack: f.g.stackString()})
		}
	case *ssa.Go:
		mk := cc.callPrep(&x.Call)
		return func(f *frame) {
			fn, args, env := mk(f)
			f.g.r.goStart(f, fn, args, env)
		}
	case *ssa.Defer:
		cc.c.hasDefer = true
		mk := cc.callPrep(&x.Call)
		if x.DeferStack != nil {
			return func(f *frame) { unsupported("defer in range-over-func body") }
		}
		return func(f *frame) {
			fn, args, env := mk(f)
			f.defers = append(f.defers, deferred{fn, args, env})
		}
	case *ssa.Send:
		c, v := cc.op(x.Chan), cc.op(x.X)
		return func(f *frame) { f.g.r.chanSend(f, c.get(f).(*Chan), v.get(f)) }
	case *ssa.Store:
		a, v := cc.op(x.Addr), cc.op(x.Val)
		return func(f *frame) { f.store(a.get(f), v.get(f)) }
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		return func(f *frame) {
			mm := m.get(f).(*Map)
			if mm == nil {
				f.plainPanic("assignment to entry in nil map")
			}
			if f.g.r.raceOn() {
				f.g.r.raceAccess(f, mm, true)
			}
			f.g.r.account(f, 32)
			f.g.r.mapSet(f, mm, k.get(f), v.get(f))
		}
	case *ssa.Select:
		return cc.sel(x)
	}
	return func(f *frame) { unsupported("instruction %T", in) }
}

func typeAssertMsg(it, t types.Type, at types.Type) string {
	q := func(p *types.Package) string { return p.Name() }
	is := types.TypeString(it, q)
	as := types.TypeString(at, q)
	if t == nil {
		return fmt.Sprintf("%s is nil, not %s", is, as)
	}
	ts := types.TypeString(t, q)
	if _, ok := at.Underlying().(*types.Interface); ok {
		return fmt.Sprintf("%s is not %s: missing method", ts, as)
	}
	return fmt.Sprintf("%s is %s, not %s", is, ts, as)
}

// canonTypeLocked is used while compiling (cmu is a different lock from mu, so this is safe).
func (p *Program) canonTypeLocked(t types.Type) types.Type { return p.canonType(t) }

func (cc *comp) unop(x *ssa.UnOp) execFn {
	d, a := cc.slot(x), cc.op(x.X)
	t := x.X.Type()
	switch x.Op {
	case token.MUL:
		return func(f *frame) { f.s[d] = f.load(a.get(f)) }
	case token.ARROW:
		commaOk := x.CommaOk
		return func(f *frame) {
			v, ok := f.g.r.chanRecv(f, a.get(f).(*Chan))
			if commaOk {
				f.s[d] = Tuple{v, ok}
			} else {
				f.s[d] = v
			}
		}
	case token.NOT:
		return func(f *frame) {
			switch v := a.get(f).(type) {
			case bool:
				f.s[d] = !v
			case *T:
				f.s[d] = f.g.r.w.ctx.not(v)
			}
		}
	case token.SUB:
		w := widthOf(t)
		fl := isFloat(t)
		return func(f *frame) {
			switch v := a.get(f).(type) {
			case uint64:
				if fl {
					f.s[d] = v ^ (uint64(1) << uint(w-1))
				} else {
					f.s[d] = -v & mask(w)
				}
			case *T:
				c := f.g.r.w.ctx
				if fl {
					f.s[d] = simp(c.bin(OXor, v, c.konst(uint64(1)<<uint(w-1), w)))
				} else {
					f.s[d] = simp(c.bin(OSub, c.konst(0, w), v))
				}
			}
		}
	case token.XOR:
		w := widthOf(t)
		return func(f *frame) {
			switch v := a.get(f).(type) {
			case uint64:
				f.s[d] = ^v & mask(w)
			case *T:
				c := f.g.r.w.ctx
				f.s[d] = simp(c.bin(OXor, v, c.konst(mask(w), w)))
			}
		}
	}
	return func(f *frame) { unsupported("unary %s", x.Op) }
}

// callPrep returns a function evaluating callee and arguments.
func (cc *comp) callPrep(c *ssa.CallCommon) func(f *frame) (*cfn, []Value, []Value) {
	p := cc.p
	args := cc.ops(c.Args)
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		m := c.Method
		return func(f *frame) (*cfn, []Value, []Value) {
			iv, ok := recv.get(f).(Iface)
			if !ok {
				unsupported("invoke on %T", recv.get(f))
			}
			if iv.t == nil {
				f.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := p.method(iv.t, m)
			as := make([]Value, len(args)+1)
			as[0] = iv.v
			for i := range args {
				as[i+1] = args[i].get(f)
			}
			return fn, as, nil
		}
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if v.Synthetic == "package initializer" {
			nat := &cfn{name: v.String(), noyield: true, native: func(f *frame, args []Value) Value { return nil }}
			return func(f *frame) (*cfn, []Value, []Value) { return nat, nil, nil }
		}
		var target *cfn
		return func(f *frame) (*cfn, []Value, []Value) {
			t := target
			if t == nil {
				t = p.compile(v)
				target = t
			}
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(f)
			}
			return t, as, nil
		}
	case *ssa.Builtin:
		name := v.Name()
		var ats []types.Type
		for _, a := range c.Args {
			ats = append(ats, a.Type())
		}
		bi := builtinFn(cc, name, ats, c)
		nat := &cfn{name: "builtin " + name, pkgPath: cc.c.pkgPath, noyield: cc.c.noyield, module: cc.c.module, races: cc.c.races, native: bi}
		return func(f *frame) (*cfn, []Value, []Value) {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(f)
			}
			return nat, as, nil
		}
	}
	callee := cc.op(c.Value)
	return func(f *frame) (*cfn, []Value, []Value) {
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(f)
		}
		cl, _ := callee.get(f).(*Closure)
		if cl == nil {
			f.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn, env := f.g.closureFn(cl)
		return fn, as, env
	}
}

func (g *G) closureFn(cl *Closure) (*cfn, []Value) {
	if cl.native != nil {
		nat := cl.native
		return &cfn{name: "native " + cl.name, noyield: true, native: func(f *frame, args []Value) Value { return nat(g, args) }}, nil
	}
	return g.r.e.prog.compile(cl.fn), cl.env
}

func (cc *comp) call(x *ssa.Call) execFn {
	d := cc.slot(x)
	if b, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
		var ats []types.Type
		for _, a := range x.Call.Args {
			ats = append(ats, a.Type())
		}
		bi := builtinFn(cc, b.Name(), ats, &x.Call)
		args := cc.ops(x.Call.Args)
		return func(f *frame) {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(f)
			}
			f.s[d] = bi(f, as)
		}
	}
	mk := cc.callPrep(&x.Call)
	return func(f *frame) {
		fn, args, env := mk(f)
		f.s[d] = f.g.call(f, fn, args, env)
	}
}

func (cc *comp) slice(x *ssa.Slice) execFn {
	d, a := cc.slot(x), cc.op(x.X)
	var lo, hi, mx *opnd
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := cc.op(v)
		return &o
	}
	lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
	return func(f *frame) {
		v := a.get(f)
		var n, cp int
		isStr := false
		var sl Slice
		switch s := v.(type) {
		case Slice:
			sl = s
			n, cp = len(s), cap(s)
		case *Value:
			pv := f.ptr(s)
			arr := (*pv).(Array)
			sl = Slice(arr)
			n, cp = len(arr), len(arr)
			sl = sl[:n:n]
		case string, *SymStr:
			isStr = true
			n = strLen(v)
			cp = n
		case poison:
			unsupported("%s", s.msg)
		default:
			unsupported("slice of %T", v)
		}
		l, h, m := 0, n, cp
		// bounds: 0 <= l <= h <= m <= cap
		if mx != nil {
			m = f.boundedInt(mx.get(f), cp, "slice bounds out of range [::%d] with capacity %d", cp)
		}
		if hi != nil {
			lim := m
			msg := "slice bounds out of range [:%d] with capacity %d"
			if isStr {
				msg = "slice bounds out of range [:%d] with length %d"
			}
			h = f.boundedInt(hi.get(f), lim, msg, lim)
		}
		if lo != nil {
			l = f.boundedInt(lo.get(f), h, "slice bounds out of range [%d:%d]", h)
		}
		if isStr {
			switch s := v.(type) {
			case string:
				f.s[d] = s[l:h]
			case *SymStr:
				f.s[d] = mkStr(s.b[l:h])
			}
			return
		}
		if sl == nil {
			f.s[d] = Slice(nil)
			return
		}
		if isPtrArr(v) && n == 0 {
			f.s[d] = Slice{}
			return
		}
		f.s[d] = sl[l:h:m]
	}
}

func isPtrArr(v Value) bool { _, ok := v.(*Value); return ok }

func (cc *comp) sel(x *ssa.Select) execFn {
	d := cc.slot(x)
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		c := st{send: s.Dir == types.SendOnly, ch: cc.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if c.send {
			c.v = cc.op(s.Send)
		}
		sts = append(sts, c)
	}
	blocking := x.Blocking
	return func(f *frame) {
		cs := make([]selCase, len(sts))
		for i := range sts {
			cs[i] = selCase{send: sts[i].send, ch: sts[i].ch.get(f).(*Chan)}
			if sts[i].send {
				cs[i].v = sts[i].v.get(f)
			}
		}
		idx, v, ok := f.g.r.selectOp(f, cs, blocking)
		t := Tuple{uint64(int64(idx)), ok}
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, zero(sts[i].et))
			}
		}
		f.s[d] = t
	}
}

func shortFn(name string) string {
	return strings.ReplaceAll(name, modPath, "bacnet")
}
