package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type binFn func(f *frame, a, b Value) Value

func binopFn(op token.Token, xt, yt types.Type) binFn {
	switch op {
	case token.EQL:
		return func(f *frame, a, b Value) Value { return f.eqVal(a, b, xt) }
	case token.NEQ:
		return func(f *frame, a, b Value) Value { return f.notVal(f.eqVal(a, b, xt)) }
	}
	if isString(xt) {
		return func(f *frame, a, b Value) Value {
			if op == token.ADD {
				if x, ok := a.(string); ok {
					if y, ok := b.(string); ok {
						f.g.r.account(f, int64(len(x)+len(y)))
						return x + y
					}
				}
				x, y := strBytes(a), strBytes(b)
				f.g.r.account(f, int64(len(x)+len(y)))
				z := make([]Value, 0, len(x)+len(y))
				z = append(append(z, x...), y...)
				return mkStr(z)
			}
			return f.strCmp(op, a, b)
		}
	}
	w := widthOf(xt)
	if w < 0 {
		return func(f *frame, a, b Value) Value { return unsupported("binary %s on %s", op, xt) }
	}
	if isFloat(xt) {
		return func(f *frame, a, b Value) Value { return f.floatOp(op, w, a, b) }
	}
	sg := isSigned(xt)
	if w == 0 { // bool & | not produced by go/ssa as BinOp except via ==
		return func(f *frame, a, b Value) Value {
			c := f.g.r.w.ctx
			x, y := f.g.r.term(a, 0), f.g.r.term(b, 0)
			switch op {
			case token.AND:
				return simp(c.and(x, y))
			case token.OR:
				return simp(c.or(x, y))
			}
			return unsupported("bool op %s", op)
		}
	}
	m := mask(w)
	switch op {
	case token.SHL, token.SHR:
		ysg := isSigned(yt)
		yw := widthOf(yt)
		return func(f *frame, a, b Value) Value { return f.shift(op, w, sg, a, b, yw, ysg) }
	case token.QUO, token.REM:
		return func(f *frame, a, b Value) Value {
			c := f.g.r.w.ctx
			switch y := b.(type) {
			case uint64:
				if y == 0 {
					f.rtPanic("integer divide by zero")
				}
				if x, ok := a.(uint64); ok {
					var o Op
					switch {
					case op == token.QUO && sg:
						o = OSDiv
					case op == token.QUO:
						o = OUDiv
					case sg:
						o = OSRem
					default:
						o = OURem
					}
					return evalBin(o, w, x, y)
				}
			case *T:
				if f.cond(simp(c.eq(y, c.konst(0, w)))) {
					f.rtPanic("integer divide by zero")
				}
			}
			var o Op
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case sg:
				o = OSRem
			default:
				o = OURem
			}
			return simp(c.bin(o, f.g.r.term(a, w), f.g.r.term(b, w)))
		}
	}
	var conc func(x, y uint64) Value
	var sym func(c *Ctx, x, y *T) *T
	switch op {
	case token.ADD:
		conc = func(x, y uint64) Value { return (x + y) & m }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OAdd, x, y) }
	case token.SUB:
		conc = func(x, y uint64) Value { return (x - y) & m }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OSub, x, y) }
	case token.MUL:
		conc = func(x, y uint64) Value { return (x * y) & m }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OMul, x, y) }
	case token.AND:
		conc = func(x, y uint64) Value { return x & y }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OAnd, x, y) }
	case token.OR:
		conc = func(x, y uint64) Value { return x | y }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OOr, x, y) }
	case token.XOR:
		conc = func(x, y uint64) Value { return x ^ y }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OXor, x, y) }
	case token.AND_NOT:
		conc = func(x, y uint64) Value { return x &^ y }
		sym = func(c *Ctx, x, y *T) *T { return c.bin(OAnd, x, c.bin(OXor, y, c.konst(m, w))) }
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		swap := op == token.GTR || op == token.GEQ
		strict := op == token.LSS || op == token.GTR
		conc = func(x, y uint64) Value {
			if swap {
				x, y = y, x
			}
			if sg {
				a, b := sx(x, w), sx(y, w)
				if strict {
					return a < b
				}
				return a <= b
			}
			if strict {
				return x < y
			}
			return x <= y
		}
		sym = func(c *Ctx, x, y *T) *T {
			if swap {
				x, y = y, x
			}
			switch {
			case sg && strict:
				return c.slt(x, y)
			case sg:
				return c.sle(x, y)
			case strict:
				return c.ult(x, y)
			}
			return c.ule(x, y)
		}
	default:
		return func(f *frame, a, b Value) Value { return unsupported("binary op %s", op) }
	}
	return func(f *frame, a, b Value) Value {
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok {
				return conc(x, y)
			}
		}
		r := f.g.r
		return simp(sym(r.w.ctx, r.term(a, w), r.term(b, w)))
	}
}

func (f *frame) notVal(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *T:
		return simp(f.g.r.w.ctx.not(x))
	}
	panic("notVal")
}

func (f *frame) andVal(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return simp(f.g.r.w.ctx.and(a.(*T), b.(*T)))
}

func (f *frame) shift(op token.Token, w int, sg bool, a, b Value, yw int, ysg bool) Value {
	r := f.g.r
	c := r.w.ctx
	if y, ok := b.(uint64); ok {
		if ysg && sx(y, yw) < 0 {
			f.rtPanic("negative shift amount")
		}
		var o Op
		switch {
		case op == token.SHL:
			o = OShl
		case sg:
			o = OAshr
		default:
			o = OLshr
		}
		if x, ok := a.(uint64); ok {
			return evalBin(o, w, x, y)
		}
		if y >= uint64(w) {
			if o != OAshr {
				return uint64(0)
			}
			y = uint64(w - 1)
		}
		return simp(c.bin(o, r.term(a, w), c.konst(y, w)))
	}
	y := b.(*T)
	if ysg {
		if f.cond(simp(c.slt(y, c.konst(0, yw)))) {
			f.rtPanic("negative shift amount")
		}
	}
	x := r.term(a, w)
	// saturate the count to width w
	var cnt *T
	if yw <= w {
		cnt = c.zext(y, w)
	} else {
		big := c.not(c.ult(y, c.konst(uint64(w), yw)))
		cnt = c.ite(big, c.konst(uint64(w), w), c.extract(y, w-1, 0))
		if w == 8 && yw > 8 {
			cnt = c.ite(big, c.konst(uint64(w), w), c.extract(y, w-1, 0))
		}
	}
	switch {
	case op == token.SHL:
		return simp(c.bin(OShl, x, cnt))
	case sg:
		return simp(c.bin(OAshr, x, cnt))
	}
	return simp(c.bin(OLshr, x, cnt))
}

func (f *frame) floatOp(op token.Token, w int, a, b Value) Value {
	r := f.g.r
	c := r.w.ctx
	x, y := r.term(a, w), r.term(b, w)
	switch op {
	case token.ADD:
		return simp(c.fop("fadd", w, x, y))
	case token.SUB:
		return simp(c.fop("fsub", w, x, y))
	case token.MUL:
		return simp(c.fop("fmul", w, x, y))
	case token.QUO:
		return simp(c.fop("fdiv", w, x, y))
	case token.LSS:
		return simp(c.fop("flt", 0, x, y))
	case token.LEQ:
		return simp(c.fop("fle", 0, x, y))
	case token.GTR:
		return simp(c.fop("flt", 0, y, x))
	case token.GEQ:
		return simp(c.fop("fle", 0, y, x))
	}
	return unsupported("float op %s", op)
}

func (f *frame) strCmp(op token.Token, a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			switch op {
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
	}
	switch op {
	case token.GTR:
		return f.strLess(b, a, true)
	case token.GEQ:
		return f.strLess(b, a, false)
	case token.LSS:
		return f.strLess(a, b, true)
	}
	return f.strLess(a, b, false)
}

func (f *frame) strLess(a, b Value, strict bool) Value {
	r := f.g.r
	c := r.w.ctx
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	var acc *T
	if strict {
		acc = c.boolT(len(x) < len(y))
	} else {
		acc = c.boolT(len(x) <= len(y))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := r.term(x[i], 8), r.term(y[i], 8)
		acc = c.or(c.ult(p, q), c.and(c.eq(p, q), acc))
	}
	return simp(acc)
}

// eqVal compares values of static type t
func (f *frame) eqVal(a, b Value, t types.Type) Value {
	r := f.g.r
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			if t != nil && isFloat(t) {
				w := widthOf(t)
				return fval(x, w) == fval(y, w)
			}
			return x == y
		}
		return f.eqVal(b, a, t)
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return simp(r.w.ctx.eq(r.term(a, 0), r.term(b, 0)))
	case *T:
		if t != nil && isFloat(t) {
			return simp(r.w.ctx.fop("feq", 0, x, r.term(b, x.w)))
		}
		return simp(r.w.ctx.eq(x, r.term(b, x.w)))
	case string, *SymStr:
		if p, ok := a.(string); ok {
			if q, ok := b.(string); ok {
				return p == q
			}
		}
		p, q := strBytes(a), strBytes(b)
		if len(p) != len(q) {
			return false
		}
		acc := r.w.ctx.tTrue
		for i := range p {
			acc = r.w.ctx.and(acc, r.w.ctx.eq(r.term(p[i], 8), r.term(q[i], 8)))
			if acc.isConst() && acc.k == 0 {
				return false
			}
		}
		return simp(acc)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			// interface compared with concrete value
			unsupported("comparison of interface with %T", b)
		}
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Comparable(x.t) {
			f.rtPanic("comparing uncomparable type " + types.TypeString(x.t, nil))
		}
		return f.eqVal(x.v, y.v, x.t)
	case Struct:
		y := b.(Struct)
		var res Value = true
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if st.Field(i).Name() == "_" {
					continue
				}
			}
			res = f.andVal(res, f.eqVal(x[i], y[i], ft))
			if res == false {
				return false
			}
		}
		return res
	case Array:
		y := b.(Array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		var res Value = true
		for i := range x {
			res = f.andVal(res, f.eqVal(x[i], y[i], et))
			if res == false {
				return false
			}
		}
		return res
	case *Value:
		if y, ok := b.(*Value); ok {
			return x == y
		}
		if _, ok := b.(*SymPtr); ok {
			return f.eqVal(b, a, t)
		}
	case *SymPtr:
		return f.eqVal(f.ptr(x), b, t)
	case *Map:
		return x == b.(*Map)
	case *Chan:
		return x == b.(*Chan)
	case Slice:
		y := b.(Slice)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return unsupported("slice comparison")
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	case poison:
		return unsupported("%s", x.msg)
	case rtypeVal:
		y, ok := b.(rtypeVal)
		return ok && x.t == y.t
	}
	return unsupported("equality of %T and %T", a, b)
}

// ---- conversions

func convFn(from, to types.Type) func(f *frame, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return func(f *frame, v Value) Value { return v }
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		fw, sg := widthOf(from), isSigned(from)
		return func(f *frame, v Value) Value {
			if k, ok := v.(uint64); ok {
				x := int64(k)
				if sg {
					x = sx(k, fw)
				}
				if x < 0 || x > 0x10ffff {
					return "\uFFFD"
				}
				return string(rune(x))
			}
			t := v.(*T)
			c := f.g.r.w.ctx
			if f.cond(simp(c.ult(t, c.konst(0x80, fw)))) {
				return mkStr([]Value{simp(c.extract(t, 7, 0))})
			}
			fn := f.g.r.e.prog.stdFunc("unicode/utf8", "AppendRune")
			if fn == nil || fw != 32 {
				unsupported("string of symbolic rune")
			}
			res := f.g.call(f, fn, []Value{Slice(nil), v}, nil).(Slice)
			return mkStr(res)
		}
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			ew := widthOf(sl.Elem())
			if ew == 8 {
				return func(f *frame, v Value) Value {
					b := strBytes(v)
					f.g.r.account(f, int64(len(b)))
					r := make(Slice, len(b))
					copy(r, b)
					return r
				}
			}
			return func(f *frame, v Value) Value {
				r := Slice{}
				n := strLen(v)
				for i := 0; i < n; {
					ru, sz := f.decodeRune(v, i)
					r = append(r, ru)
					i += sz
				}
				f.g.r.account(f, int64(4*n))
				return r
			}
		}
	case tok && tb.Info()&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			if widthOf(sl.Elem()) == 8 {
				return func(f *frame, v Value) Value {
					s := v.(Slice)
					f.g.r.account(f, int64(len(s)))
					if f.g.r.raceOn() {
						for i := range s {
							f.g.r.raceAccess(f, &s[i], false)
						}
					}
					return mkStr(s)
				}
			}
			rc := convFn(sl.Elem(), to)
			return func(f *frame, v Value) Value {
				var out []Value
				for _, x := range v.(Slice) {
					out = append(out, strBytes(rc(f, x))...)
				}
				return mkStr(out)
			}
		}
	case fok && tok && fb.Kind() == types.UnsafePointer || tok && tb.Kind() == types.UnsafePointer:
		return func(f *frame, v Value) Value {
			if _, ok := v.(uint64); ok {
				return unsupported("uintptr to pointer conversion")
			}
			if tok && tb.Kind() == types.Uintptr {
				return unsupported("pointer to uintptr conversion")
			}
			return v
		}
	case fok && fb.Kind() == types.UnsafePointer:
		return func(f *frame, v Value) Value { return v }
	case fok && tok:
		fw, tw := widthOf(from), widthOf(to)
		fsg, tsg := isSigned(from), isSigned(to)
		ff, tf := isFloat(from), isFloat(to)
		if fw < 0 || tw < 0 {
			break
		}
		switch {
		case ff && tf:
			if fw == tw {
				return func(f *frame, v Value) Value { return v }
			}
			name := fmt.Sprintf("f%df%d", fw, tw)
			return func(f *frame, v Value) Value {
				return simp(f.g.r.w.ctx.fop(name, tw, f.g.r.term(v, fw)))
			}
		case tf:
			name := "u2f"
			if fsg {
				name = "s2f"
			}
			name += fmt.Sprint(tw)
			return func(f *frame, v Value) Value {
				c := f.g.r.w.ctx
				t := f.g.r.term(v, fw)
				if fw < 64 && !t.isConst() {
					if fsg {
						t = c.sext(t, 64)
					} else {
						t = c.zext(t, 64)
					}
				}
				return simp(c.fop(name, tw, t))
			}
		case ff:
			return func(f *frame, v Value) Value {
				if k, ok := v.(uint64); ok {
					x := fval(k, fw)
					if tsg {
						return uint64(int64(x)) & mask(tw)
					}
					if tw == 64 {
						return uint64(x)
					}
					return uint64(int64(x)) & mask(tw)
				}
				c := f.g.r.w.ctx
				name := "f2u"
				if tsg {
					name = "f2s"
				}
				f.g.r.imprecise = "float to integer conversion"
				return simp(c.fop(name+fmt.Sprint(tw), tw, f.g.r.term(v, fw)))
			}
		}
		return func(f *frame, v Value) Value {
			switch x := v.(type) {
			case uint64:
				if tw > fw && fsg {
					return uint64(sx(x, fw)) & mask(tw)
				}
				return x & mask(tw)
			case *T:
				c := f.g.r.w.ctx
				switch {
				case tw == fw:
					return x
				case tw < fw:
					return simp(c.extract(x, tw-1, 0))
				case fsg:
					return simp(c.sext(x, tw))
				}
				return simp(c.zext(x, tw))
			case poison:
				return unsupported("%s", x.msg)
			}
			panic(fmt.Sprintf("convert %T", v))
		}
	}
	return func(f *frame, v Value) Value { return unsupported("conversion %s to %s", from, to) }
}

// ---- maps

func newMap(kt types.Type) *Map { return &Map{kt: kt, index: map[Value]*mapEntry{}} }

type keyEnc struct{ s string }

// concrete key usable as Go map key, ok=false when symbolic
func concKey(v Value) (Value, bool) {
	switch x := v.(type) {
	case uint64, bool, string, *Value, *Chan, *Map:
		return x, true
	case *T, *SymStr:
		return nil, false
	case Iface:
		if x.t == nil {
			return x, true
		}
		k, ok := concKey(x.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, k}, true
	case Struct:
		return encKey(x)
	case Array:
		return encKey([]Value(x))
	case rtypeVal:
		return x, true
	}
	unsupported("map key %T", v)
	return nil, false
}

func encKey(vs []Value) (Value, bool) {
	var sb strings.Builder
	for _, v := range vs {
		k, ok := concKey(v)
		if !ok {
			return nil, false
		}
		switch y := k.(type) {
		case *Value, *Chan, *Map:
			fmt.Fprintf(&sb, "%p;", y)
		case string:
			fmt.Fprintf(&sb, "%q;", y)
		case Iface:
			fmt.Fprintf(&sb, "I%p:%#v;", y.t, y.v)
		default:
			fmt.Fprintf(&sb, "%T:%v;", y, y)
		}
	}
	return keyEnc{sb.String()}, true
}

func (r *Run) mapFind(f *frame, m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if iv, ok := k.(Iface); ok && iv.t != nil && !types.Comparable(iv.t) {
		f.rtPanic("hash of unhashable type " + types.TypeString(iv.t, nil))
	}
	ck, conc := concKey(k)
	if conc {
		if e := m.index[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		if f.cond(f.eqVal(e.k, k, m.kt)) {
			return e
		}
	}
	return nil
}

func (r *Run) mapSet(f *frame, m *Map, k, v Value) {
	e := r.mapFind(f, m, k)
	if e != nil {
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		m.index[ck] = e
	} else {
		m.nsym++
	}
}

func (r *Run) mapDelete(f *frame, m *Map, k Value) {
	e := r.mapFind(f, m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := concKey(e.k); ok {
		delete(m.index, ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/4 && !r.mapIterating {
		var l []*mapEntry
		for _, e := range m.ents {
			if !e.dead {
				l = append(l, e)
			}
		}
		m.ents = l
	}
}

func (r *Run) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m != nil && m.n >= 2 && r.mapOrders {
		// Go iterates in an unspecified order: rotate and reverse as a nondeterministic choice
		k := r.choose(2, 'c')
		if k == 1 {
			it.rev = append([]*mapEntry(nil), m.ents...)
			for i, j := 0, len(it.rev)-1; i < j; i, j = i+1, j-1 {
				it.rev[i], it.rev[j] = it.rev[j], it.rev[i]
			}
			it.isRev = true
		}
	}
	if m != nil {
		r.mapIterating = true
	}
	return it
}

func (it *mapIter) next() *mapEntry {
	if it.m == nil {
		return nil
	}
	l := it.m.ents
	if it.isRev {
		l = it.rev
	}
	for it.i < len(l) {
		e := l[it.i]
		it.i++
		if !e.dead {
			return e
		}
	}
	return nil
}

// ---- builtins

func (f *frame) lenOf(v Value) Value {
	switch x := v.(type) {
	case Slice:
		return uint64(len(x))
	case string, *SymStr:
		return uint64(strLen(v))
	case *Map:
		if x == nil {
			return uint64(0)
		}
		return uint64(x.n)
	case *Chan:
		if x == nil {
			return uint64(0)
		}
		return uint64(len(x.buf))
	case Array:
		return uint64(len(x))
	case *Value:
		if x == nil {
			return uint64(0)
		}
		return uint64(len((*x).(Array)))
	}
	return unsupported("len of %T", v)
}

func builtinFn(cc *comp, name string, ats []types.Type, call *ssa.CallCommon) func(f *frame, a []Value) Value {
	switch name {
	case "len":
		if pt, ok := ats[0].Underlying().(*types.Pointer); ok {
			n := uint64(pt.Elem().Underlying().(*types.Array).Len())
			return func(f *frame, a []Value) Value { return n }
		}
		return func(f *frame, a []Value) Value { return f.lenOf(a[0]) }
	case "cap":
		return func(f *frame, a []Value) Value {
			switch x := a[0].(type) {
			case Slice:
				return uint64(cap(x))
			case *Chan:
				if x == nil {
					return uint64(0)
				}
				return uint64(x.cap)
			}
			return f.lenOf(a[0])
		}
	case "append":
		var es int64 = 1
		if sl, ok := ats[0].Underlying().(*types.Slice); ok {
			es = sizeofType(sl.Elem())
		}
		return func(f *frame, a []Value) Value {
			if len(a) == 1 {
				return a[0]
			}
			s := a[0].(Slice)
			var add []Value
			switch x := a[1].(type) {
			case Slice:
				add = x
			case string, *SymStr:
				add = strBytes(a[1])
			default:
				unsupported("append of %T", a[1])
			}
			r := f.g.r
			if r.raceOn() {
				if x, ok := a[1].(Slice); ok {
					for i := range x {
						r.raceAccess(f, &x[i], false)
					}
				}
			}
			n := len(s) + len(add)
			if n <= cap(s) {
				t := s[:n]
				for i, v := range add {
					if r.raceOn() {
						r.raceAccess(f, &t[len(s)+i], true)
					}
					t[len(s)+i] = copyVal(v)
				}
				return t
			}
			nc := growCap(cap(s), n)
			r.account(f, int64(nc)*es)
			t := make(Slice, n, nc)
			copy(t, s)
			for i, v := range add {
				t[len(s)+i] = copyVal(v)
			}
			if nc > n {
				if sl, ok := ats[0].Underlying().(*types.Slice); ok {
					full := t[:nc]
					z := zero(sl.Elem())
					for i := n; i < nc; i++ {
						full[i] = copyVal(z)
					}
				}
			}
			return t
		}
	case "copy":
		return func(f *frame, a []Value) Value {
			d := a[0].(Slice)
			var src []Value
			switch x := a[1].(type) {
			case Slice:
				src = x
			default:
				src = strBytes(a[1])
			}
			n := min(len(d), len(src))
			r := f.g.r
			if r.raceOn() {
				for i := 0; i < n; i++ {
					r.raceAccess(f, &d[i], true)
					if _, ok := a[1].(Slice); ok {
						r.raceAccess(f, &src[i], false)
					}
				}
			}
			if n > 0 {
				switch src[0].(type) {
				case Struct, Array:
					tmp := make([]Value, n)
					for i := 0; i < n; i++ {
						tmp[i] = copyVal(src[i])
					}
					for i := 0; i < n; i++ {
						storeInto(&d[i], tmp[i])
					}
				default:
					copy(d[:n], src[:n])
				}
			}
			return uint64(n)
		}
	case "delete":
		return func(f *frame, a []Value) Value {
			m := a[0].(*Map)
			if m != nil {
				if f.g.r.raceOn() {
					f.g.r.raceAccess(f, m, true)
				}
				f.g.r.mapDelete(f, m, a[1])
			}
			return nil
		}
	case "clear":
		return func(f *frame, a []Value) Value {
			switch x := a[0].(type) {
			case *Map:
				if x != nil {
					for _, e := range x.ents {
						e.dead = true
					}
					x.ents = nil
					x.index = map[Value]*mapEntry{}
					x.n, x.nsym = 0, 0
				}
			case Slice:
				z := zero(ats[0].Underlying().(*types.Slice).Elem())
				for i := range x {
					storeInto(&x[i], z)
				}
			}
			return nil
		}
	case "close":
		return func(f *frame, a []Value) Value { f.g.r.chanClose(f, a[0].(*Chan)); return nil }
	case "panic":
		return func(f *frame, a []Value) Value {
			panic(&targetPanic{v: a[0].(Iface), stack: f.g.stackString()})
		}
	case "recover":
		return func(f *frame, a []Value) Value {
			of := f.deferOf
			if f.fn.fn == nil { // builtin used directly as deferred function
				return Iface{}
			}
			if of == nil || of.pan == nil {
				return Iface{}
			}
			v := of.pan.v
			of.pan = nil
			return v
		}
	case "print", "println":
		return func(f *frame, a []Value) Value { return nil }
	case "min", "max":
		t := ats[0]
		op := token.LSS
		if name == "max" {
			op = token.GTR
		}
		lt := binopFn(op, t, t)
		return func(f *frame, a []Value) Value {
			r := a[0]
			for _, x := range a[1:] {
				if f.cond(lt(f, x, r)) {
					r = x
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(f *frame, a []Value) Value {
			if p, ok := a[0].(*Value); ok && p == nil {
				f.plainPanic(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
			}
			return a[0]
		}
	case "String": // unsafe.String
		return func(f *frame, a []Value) Value {
			return mkStr(ptrSlice(f, a[0], a[1]))
		}
	case "StringData":
		return func(f *frame, a []Value) Value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return (*Value)(nil)
			}
			c := append([]Value(nil), b...)
			return &c[0]
		}
	case "SliceData":
		return func(f *frame, a []Value) Value {
			s := a[0].(Slice)
			if cap(s) == 0 {
				return (*Value)(nil)
			}
			return &s[:1][0]
		}
	case "Slice":
		return func(f *frame, a []Value) Value {
			return Slice(ptrSlice(f, a[0], a[1]))
		}
	}
	return func(f *frame, a []Value) Value { return unsupported("builtin %s", name) }
}

func growCap(old, n int) int {
	c := old
	if n > 2*c {
		c = n
	} else if c < 256 {
		c = 2 * c
	} else {
		for c < n {
			c += (c + 768) / 4
		}
	}
	if c < 4 {
		c = 4
	}
	return c
}

var _ = math.MaxInt
