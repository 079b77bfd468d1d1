package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- fmt

// fmtArg appends the rendering of one argument.
type fmtr struct {
	f      *frame
	opaque bool // error texts: symbolic numbers are not expanded
	out    []Value
}

func (p *fmtr) str(s string) {
	for i := 0; i < len(s); i++ {
		p.out = append(p.out, byteVals[s[i]])
	}
}

// itoa appends the decimal text of a possibly symbolic integer.
func (p *fmtr) itoa(t *T, signed bool) {
	r := p.f.g.r
	c := r.w.ctx
	w := t.w
	if signed {
		if p.f.cond(simp(c.slt(t, c.konst(0, w)))) {
			p.str("-")
			t = c.bin(OSub, c.konst(0, w), t)
		}
	}
	if t.isConst() {
		p.str(strconv.FormatUint(t.k, 10))
		return
	}
	// number of digits
	pow := []uint64{}
	for v := uint64(10); ; v *= 10 {
		if w < 64 && v > mask(w) {
			break
		}
		pow = append(pow, v)
		if v > math.MaxUint64/10 {
			break
		}
	}
	n := len(pow) + 1
	for i, v := range pow {
		if p.f.cond(simp(c.ult(t, c.konst(v, w)))) {
			n = i + 1
			break
		}
	}
	ww := max(w, 8)
	x := c.zext(t, ww)
	for i := n - 1; i >= 0; i-- {
		d := x
		if i > 0 {
			d = c.bin(OUDiv, x, c.konst(pow[i-1], ww))
		}
		d = c.bin(OURem, d, c.konst(10, ww))
		p.out = append(p.out, simp(c.bin(OAdd, c.extract(d, 7, 0), c.konst('0', 8))))
	}
	// remember what these digits stand for, so that parsing them gives the number back
	if k, ok := p.out[len(p.out)-n].(*T); ok {
		if r.side == nil {
			r.side = map[any]any{}
		}
		r.side[digitsOf{k, n}] = &digits{t, append([]Value(nil), p.out[len(p.out)-n:]...)}
	}
}

type digitsOf struct {
	first *T
	n     int
}
type digits struct {
	t *T
	d []Value
}

// parseDec reads decimal digits; the number as a 64-bit term, false for a syntax error.
func (f *frame) parseDec(b []Value) (*T, bool) {
	r := f.g.r
	c := r.w.ctx
	if len(b) == 0 {
		return nil, false
	}
	if k, ok := b[0].(*T); ok {
		if d, ok := r.side[digitsOf{k, len(b)}].(*digits); ok {
			same := true
			for i := range b {
				same = same && b[i] == d.d[i]
			}
			if same {
				return c.zext(d.t, 64), true
			}
		}
	}
	if len(b) > 19 {
		unsupported("number of %d symbolic digits", len(b))
	}
	ok := c.boolT(true)
	acc := c.konst(0, 64)
	for _, x := range b {
		d := c.bin(OSub, r.term(x, 8), c.konst('0', 8))
		ok = c.and(ok, c.ult(d, c.konst(10, 8)))
		acc = c.bin(OAdd, c.bin(OMul, acc, c.konst(10, 64)), c.zext(d, 64))
	}
	if !f.cond(simp(ok)) {
		return nil, false
	}
	return acc, true
}

func (f *frame) parseInt(sv, base, bits Value, sg bool) Value {
	fail := func(s string) Value { return Tuple{uint64(0), f.newError("strconv: " + s)} }
	bs, bb := int(int64(f.concInt(bits, "bit size"))), int(int64(f.concInt(base, "base")))
	if s, ok := sv.(string); ok {
		var k uint64
		var err error
		if sg {
			var i int64
			i, err = strconv.ParseInt(s, bb, bs)
			k = uint64(i)
		} else {
			k, err = strconv.ParseUint(s, bb, bs)
		}
		if err != nil {
			return Tuple{k, f.newError(err.Error())}
		}
		return Tuple{k, Iface{}}
	}
	if bb != 10 {
		return unsupported("symbolic number in base %d", bb)
	}
	r := f.g.r
	c := r.w.ctx
	b := strBytes(sv)
	neg := false
	if sg && len(b) > 0 {
		is := func(ch byte) bool { return f.cond(simp(c.eq(r.term(b[0], 8), c.konst(uint64(ch), 8)))) }
		if is('-') {
			neg, b = true, b[1:]
		} else if is('+') {
			b = b[1:]
		}
	}
	v, ok := f.parseDec(b)
	if !ok {
		return fail("invalid syntax")
	}
	if bs == 0 {
		bs = 64
	}
	max := mask(bs)
	if sg {
		max >>= 1
		if neg {
			max++
		}
	}
	if f.cond(simp(c.ult(c.konst(max, 64), v))) {
		if neg {
			max = -max
		}
		return Tuple{max, f.newError("strconv: value out of range")}
	}
	if neg {
		v = c.bin(OSub, c.konst(0, 64), v)
	}
	return Tuple{simp(v), Iface{}}
}

func (p *fmtr) errOrStringer(iv Iface, sharp bool) (Value, bool) {
	pr := p.f.g.r.e.prog
	for _, n := range []string{"Error", "String"} {
		m := pr.methodByName(iv.t, n)
		if m != nil && m.fn != nil && m.fn.Signature.Params().Len() == 0 && m.fn.Signature.Results().Len() == 1 && isString(m.fn.Signature.Results().At(0).Type()) {
			if pv, ok := iv.v.(*Value); ok && pv == nil {
				return "<nil>", true
			}
			return p.f.g.call(p.f, m, []Value{iv.v}, nil), true
		}
	}
	return nil, false
}

func (p *fmtr) arg(spec string, verb byte, a Value, depth int) {
	r := p.f.g.r
	iv, ok := a.(Iface)
	if !ok {
		p.str("?")
		return
	}
	if iv.t == nil {
		if verb == 'T' || verb == 'v' {
			p.str("<nil>")
		} else {
			p.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		p.str(types.TypeString(iv.t, func(k *types.Package) string { return k.Name() }))
		return
	}
	if (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x') && !strings.Contains(spec, "#") {
		if s, ok := p.errOrStringer(iv, false); ok {
			p.strVal(spec, verb, s)
			return
		}
	}
	switch u := iv.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			p.strVal(spec, verb, iv.v)
			return
		case u.Info()&types.IsBoolean != 0:
			b := p.f.cond(iv.v)
			p.str(fmt.Sprintf(spec, b))
			return
		case u.Info()&types.IsInteger != 0:
			w := widthOf(u)
			switch x := iv.v.(type) {
			case uint64:
				if isSigned(u) {
					p.str(fmt.Sprintf(spec, sx(x, w)))
				} else if u.Kind() == types.Uint8 {
					p.str(fmt.Sprintf(spec, uint8(x)))
				} else {
					p.str(fmt.Sprintf(spec, x))
				}
				return
			case *T:
				if p.opaque {
					p.str("?")
					return
				}
				if spec == "%d" || spec == "%v" {
					p.itoa(x, isSigned(u))
					return
				}
				if v, ok := p.spare(x); ok {
					p.str(fmt.Sprintf(spec, v))
					return
				}
				unsupported("format %q of a symbolic integer", spec)
			}
		case u.Info()&types.IsFloat != 0:
			if x, ok := iv.v.(uint64); ok {
				if widthOf(u) == 32 {
					p.str(fmt.Sprintf(spec, math.Float32frombits(uint32(x))))
				} else {
					p.str(fmt.Sprintf(spec, math.Float64frombits(x)))
				}
				return
			}
			if p.opaque {
				p.str("?")
				return
			}
			r.imprecise = "text of a symbolic float"
			p.str("?")
			return
		}
	case *types.Slice:
		if widthOf(u.Elem()) == 8 && (verb == 's' || verb == 'x') {
			if verb == 's' {
				p.out = append(p.out, iv.v.(Slice)...)
				return
			}
		}
		if p.opaque || depth > 3 {
			p.str("[?]")
			return
		}
		p.str("[")
		for i, e := range iv.v.(Slice) {
			if i > 0 {
				p.str(" ")
			}
			p.arg(spec, verb, p.wrap(u.Elem(), e), depth+1)
		}
		p.str("]")
		return
	case *types.Pointer:
		if pv, ok := iv.v.(*Value); ok && pv == nil {
			p.str("<nil>")
			return
		}
		p.str("0xc000000000")
		r.imprecise = "text of a pointer"
		return
	case *types.Struct:
		if p.opaque || depth > 3 {
			p.str("{?}")
			return
		}
		p.str("{")
		st := iv.v.(Struct)
		for i := range st {
			if i > 0 {
				p.str(" ")
			}
			if strings.Contains(spec, "+") {
				p.str(u.Field(i).Name() + ":")
			}
			p.arg(spec, verb, p.wrap(u.Field(i).Type(), st[i]), depth+1)
		}
		p.str("}")
		return
	}
	p.str("?")
	r.imprecise = "text of " + iv.t.String()
}

func (p *fmtr) wrap(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return p.f.iface(t, v)
}

// spare returns the value of a term that can only have one value.
func (p *fmtr) spare(x *T) (uint64, bool) {
	if x.isConst() {
		return x.k, true
	}
	return 0, false
}

func (p *fmtr) strVal(spec string, verb byte, s Value) {
	if k, ok := s.(string); ok {
		p.str(fmt.Sprintf(spec, k))
		return
	}
	if spec != "%s" && spec != "%v" && !p.opaque {
		unsupported("format %q of a symbolic string", spec)
	}
	p.out = append(p.out, strBytes(s)...)
}

func (f *frame) sprintf(format Value, args Slice, opaque bool) (Value, Iface) {
	fs, ok := format.(string)
	if !ok {
		unsupported("symbolic format string")
	}
	p := &fmtr{f: f, opaque: opaque}
	var wrapped Iface
	n := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			p.out = append(p.out, byteVals[fs[i]])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			p.str("%!(NOVERB)")
			break
		}
		verb := fs[j]
		spec := fs[i : j+1]
		i = j
		if verb == '%' {
			p.str("%")
			continue
		}
		if strings.ContainsAny(spec, "*[") {
			unsupported("format %q", spec)
		}
		if n >= len(args) {
			p.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		if verb == 'w' {
			wrapped, _ = args[n].(Iface)
			spec = spec[:len(spec)-1] + "v"
			verb = 'v'
		}
		p.arg(spec, verb, args[n], 0)
		n++
	}
	if n < len(args) {
		p.str("%!(EXTRA)")
	}
	f.g.r.account(f, int64(len(p.out)))
	return mkStr(p.out), wrapped
}

func (f *frame) sprint(args Slice, ln bool) Value {
	p := &fmtr{f: f}
	for i, a := range args {
		if i > 0 {
			if ln {
				p.str(" ")
			} else {
				isStr := func(v Value) bool { iv, ok := v.(Iface); return ok && iv.t != nil && isString(iv.t) }
				if !isStr(a) && !isStr(args[i-1]) {
					p.str(" ")
				}
			}
		}
		p.arg("%v", 'v', a, 0)
	}
	if ln {
		p.str("\n")
	}
	return mkStr(p.out)
}

func setupFmt(m map[string]natFn) {
	m["fmt.Sprintf"] = func(f *frame, a []Value) Value {
		s, _ := f.sprintf(a[0], a[1].(Slice), false)
		return s
	}
	m["fmt.Sprint"] = func(f *frame, a []Value) Value { return f.sprint(a[0].(Slice), false) }
	m["fmt.Sprintln"] = func(f *frame, a []Value) Value { return f.sprint(a[0].(Slice), true) }
	pr := func(f *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} }
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf"} {
		m[n] = pr
	}
	m["fmt.Errorf"] = func(f *frame, a []Value) Value {
		s, w := f.sprintf(a[0], a[1].(Slice), true)
		f.g.r.account(f, 32)
		if w.t != nil && f.g.r.e.prog.wrapErr != nil {
			v := new(Value)
			*v = Struct{s, w}
			return Iface{f.g.r.e.prog.wrapErr, v}
		}
		return f.newError(s)
	}
	m["strconv.ParseUint"] = func(f *frame, a []Value) Value { return f.parseInt(a[0], a[1], a[2], false) }
	m["strconv.ParseInt"] = func(f *frame, a []Value) Value { return f.parseInt(a[0], a[1], a[2], true) }
	m["strconv.Atoi"] = func(f *frame, a []Value) Value { return f.parseInt(a[0], uint64(10), uint64(64), true) }
	m["strconv.Itoa"] = func(f *frame, a []Value) Value {
		p := &fmtr{f: f}
		p.itoa(f.g.r.term(a[0], 64), true)
		return mkStr(p.out)
	}
	fi := func(sg bool) natFn {
		return func(f *frame, a []Value) Value {
			base := int(f.concInt(a[1], "base"))
			if k, ok := a[0].(uint64); ok {
				if sg {
					return strconv.FormatInt(int64(k), base)
				}
				return strconv.FormatUint(k, base)
			}
			if base != 10 {
				return unsupported("FormatInt of a symbolic value in base %d", base)
			}
			p := &fmtr{f: f}
			p.itoa(f.g.r.term(a[0], 64), sg)
			return mkStr(p.out)
		}
	}
	m["strconv.FormatInt"] = fi(true)
	m["strconv.FormatUint"] = fi(false)
	m["strconv.FormatFloat"] = func(f *frame, a []Value) Value {
		if k, ok := a[0].(uint64); ok {
			return strconv.FormatFloat(math.Float64frombits(k), byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
		}
		f.g.r.imprecise = "text of a symbolic float"
		return "?"
	}
}

// ---------------------------------------------------------------- encoding/binary

func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if s := fixedSize(u.Elem()); s >= 0 {
			return s * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			s := fixedSize(u.Field(i).Type())
			if s < 0 {
				return -1
			}
			n += s
		}
		return n
	}
	return -1
}

func bigEndian(f *frame, order Value) bool {
	iv := order.(Iface)
	if iv.t == nil {
		f.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch s := iv.t.String(); s {
	case "encoding/binary.bigEndian":
		return true
	case "encoding/binary.littleEndian", "encoding/binary.nativeEndian":
		return false
	default:
		unsupported("byte order %s", s)
	}
	return true
}

func (f *frame) decodeFixed(b []Value, be bool, t types.Type, dst *Value) []Value {
	c := f.g.r.w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := fixedSize(t)
		var parts []*T
		for i := 0; i < n; i++ {
			k := i
			if !be {
				k = n - 1 - i
			}
			parts = append(parts, f.g.r.term(b[k], 8))
		}
		if u.Kind() == types.Bool {
			*dst = simp(c.not(c.eq(parts[0], c.konst(0, 8))))
		} else {
			*dst = simp(c.concat(parts...))
		}
		return b[n:]
	case *types.Array:
		a := (*dst).(Array)
		for i := range a {
			b = f.decodeFixed(b, be, u.Elem(), &a[i])
		}
	case *types.Struct:
		s := (*dst).(Struct)
		for i := range s {
			if u.Field(i).Name() == "_" {
				b = b[fixedSize(u.Field(i).Type()):]
				continue
			}
			b = f.decodeFixed(b, be, u.Field(i).Type(), &s[i])
		}
	}
	return b
}

func (f *frame) encodeFixed(out []Value, be bool, t types.Type, v Value) []Value {
	c := f.g.r.w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := fixedSize(t)
		if u.Kind() == types.Bool {
			return append(out, simp(c.ite(f.g.r.term(v, 0), c.konst(1, 8), c.konst(0, 8))))
		}
		tm := f.g.r.term(v, n*8)
		for i := 0; i < n; i++ {
			k := n - 1 - i
			if !be {
				k = i
			}
			out = append(out, simp(c.extract(tm, k*8+7, k*8)))
		}
	case *types.Array:
		for _, e := range v.(Array) {
			out = f.encodeFixed(out, be, u.Elem(), e)
		}
	case *types.Struct:
		for i, e := range v.(Struct) {
			if u.Field(i).Name() == "_" {
				for k := 0; k < fixedSize(u.Field(i).Type()); k++ {
					out = append(out, uint64(0))
				}
				continue
			}
			out = f.encodeFixed(out, be, u.Field(i).Type(), e)
		}
	}
	return out
}

func setupBinary(m map[string]natFn) {
	m["encoding/binary.Read"] = func(f *frame, a []Value) Value {
		data := a[2].(Iface)
		if data.t == nil {
			return f.newError("binary.Read: invalid type nil")
		}
		size := -1
		var pt types.Type
		var sl Slice
		switch u := data.t.Underlying().(type) {
		case *types.Pointer:
			pt = u.Elem()
			if us, ok := pt.Underlying().(*types.Slice); ok {
				es := fixedSize(us.Elem())
				sl, _ = (*f.ptr(data.v)).(Slice)
				if es >= 0 {
					size = es * len(sl)
				}
				pt = us.Elem()
				if sl == nil {
					sl = Slice{}
				}
			} else {
				f.ptr(data.v)
				size = fixedSize(pt)
			}
		case *types.Slice:
			pt = u.Elem()
			sl = data.v.(Slice)
			if es := fixedSize(pt); es >= 0 {
				size = es * len(sl)
			}
			if sl == nil {
				sl = Slice{}
			}
		}
		if size < 0 {
			return f.newError("binary.Read: invalid type")
		}
		rf := f.g.r.e.prog.stdFunc("io", "ReadFull")
		buf := make(Slice, size)
		for i := range buf {
			buf[i] = uint64(0)
		}
		f.g.r.account(f, int64(size))
		res := f.g.call(f, rf, []Value{a[0], buf}, nil).(Tuple)
		if err := res[1].(Iface); err.t != nil {
			return err
		}
		be := bigEndian(f, a[1])
		b := []Value(buf)
		if sl != nil {
			for i := range sl {
				if f.g.r.raceOn() {
					f.g.r.raceAccess(f.caller, &sl[i], true)
				}
				b = f.decodeFixed(b, be, pt, &sl[i])
			}
		} else {
			f.decodeFixed(b, be, pt, data.v.(*Value))
		}
		return Iface{}
	}
	m["encoding/binary.Write"] = func(f *frame, a []Value) Value {
		data := a[2].(Iface)
		if data.t == nil {
			return f.newError("binary.Write: some values are not fixed-sized in type nil")
		}
		t, v := data.t, data.v
		if u, ok := t.Underlying().(*types.Pointer); ok {
			pv, _ := v.(*Value)
			if pv == nil {
				return f.newError("binary.Write: some values are not fixed-sized in type")
			}
			t, v = u.Elem(), *pv
		}
		be := bigEndian(f, a[1])
		var out []Value
		if u, ok := t.Underlying().(*types.Slice); ok {
			if fixedSize(u.Elem()) < 0 {
				return f.newError("binary.Write: some values are not fixed-sized in type")
			}
			out = []Value{}
			for _, e := range v.(Slice) {
				out = f.encodeFixed(out, be, u.Elem(), e)
			}
		} else {
			if fixedSize(t) < 0 {
				return f.newError("binary.Write: some values are not fixed-sized in type " + t.String())
			}
			out = f.encodeFixed([]Value{}, be, t, v)
		}
		f.g.r.account(f, int64(len(out)))
		w := a[0].(Iface)
		if w.t == nil {
			f.rtPanic("invalid memory address or nil pointer dereference")
		}
		wm := f.g.r.e.prog.methodByName(w.t, "Write")
		if wm == nil {
			return unsupported("no Write method on %s", w.t)
		}
		res := f.g.call(f, wm, []Value{w.v, Slice(out)}, nil).(Tuple)
		return res[1]
	}
	m["encoding/binary.Size"] = func(f *frame, a []Value) Value {
		iv := a[0].(Iface)
		if iv.t == nil {
			return mask(64)
		}
		t := iv.t
		if u, ok := t.Underlying().(*types.Pointer); ok {
			t = u.Elem()
		}
		if u, ok := t.Underlying().(*types.Slice); ok {
			es := fixedSize(u.Elem())
			if es < 0 {
				return mask(64)
			}
			return uint64(es * len(iv.v.(Slice)))
		}
		return uint64(int64(fixedSize(t)))
	}
}

// ---------------------------------------------------------------- reflect

func setupReflect(m map[string]natFn) {
	typeOf := func(f *frame, a []Value) Value {
		iv := a[0].(Iface)
		if iv.t == nil {
			return Iface{}
		}
		rt := f.g.r.e.prog.namedType("reflect", "rtype", true)
		if rt == nil {
			return unsupported("reflect not loaded")
		}
		return Iface{rt, rtypeVal{iv.t}}
	}
	m["reflect.TypeOf"] = typeOf
	q := func(k *types.Package) string { return k.Name() }
	m["(*reflect.rtype).String"] = func(f *frame, a []Value) Value { return types.TypeString(a[0].(rtypeVal).t, q) }
	m["(*reflect.rtype).Name"] = func(f *frame, a []Value) Value {
		switch t := a[0].(rtypeVal).t.(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	}
	m["(*reflect.rtype).Kind"] = func(f *frame, a []Value) Value {
		switch t := a[0].(rtypeVal).t.Underlying().(type) {
		case *types.Basic:
			k := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
			return k[t.Kind()]
		case *types.Array:
			return uint64(17)
		case *types.Chan:
			return uint64(18)
		case *types.Signature:
			return uint64(19)
		case *types.Interface:
			return uint64(20)
		case *types.Map:
			return uint64(21)
		case *types.Pointer:
			return uint64(22)
		case *types.Slice:
			return uint64(23)
		case *types.Struct:
			return uint64(25)
		}
		return uint64(0)
	}
	m["(*reflect.rtype).PkgPath"] = func(f *frame, a []Value) Value {
		if n, ok := a[0].(rtypeVal).t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	}
	m["(*reflect.rtype).Elem"] = func(f *frame, a []Value) Value {
		rt := f.g.r.e.prog.namedType("reflect", "rtype", true)
		var et types.Type
		switch t := a[0].(rtypeVal).t.Underlying().(type) {
		case *types.Pointer:
			et = t.Elem()
		case *types.Slice:
			et = t.Elem()
		case *types.Array:
			et = t.Elem()
		case *types.Map:
			et = t.Elem()
		default:
			f.plainErr("reflect: Elem of invalid type")
		}
		return Iface{rt, rtypeVal{f.g.r.e.prog.canonType(et)}}
	}
	m["(*reflect.rtype).Comparable"] = func(f *frame, a []Value) Value { return types.Comparable(a[0].(rtypeVal).t) }
	m["reflect.DeepEqual"] = func(f *frame, a []Value) Value { return f.deepEq(a[0], a[1], nil, 0) }
}

func (f *frame) deepEq(a, b Value, t types.Type, d int) Value {
	if d > 20 {
		return unsupported("deep comparison too deep")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return f.deepEq(x.v, y.v, x.t, d+1)
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Slice).Elem()
		}
		var r Value = true
		for i := range x {
			r = f.andVal(r, f.deepEq(x[i], y[i], et, d+1))
		}
		return r
	case Array:
		y := b.(Array)
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Array).Elem()
		}
		var r Value = true
		for i := range x {
			r = f.andVal(r, f.deepEq(x[i], y[i], et, d+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		var r Value = true
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = f.andVal(r, f.deepEq(x[i], y[i], ft, d+1))
		}
		return r
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Pointer).Elem()
		}
		return f.deepEq(*x, *y, et, d+1)
	case *Map:
		y := b.(*Map)
		if x == y {
			return true
		}
		if x == nil || y == nil || x.n != y.n {
			return false
		}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Map).Elem()
		}
		var r Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			o := f.g.r.mapFind(f, y, e.k)
			if o == nil {
				return false
			}
			r = f.andVal(r, f.deepEq(e.v, o.v, et, d+1))
		}
		return r
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	}
	return f.eqVal(a, b, t)
}

// ---------------------------------------------------------------- regexp, json and others

func setupMisc(m map[string]natFn) {
	mkRe := func(f *frame, pat Value, must bool) Value {
		s, ok := pat.(string)
		if !ok {
			return unsupported("symbolic regular expression")
		}
		_, err := regexp.Compile(s)
		if err != nil {
			if must {
				f.plainErr("regexp: Compile: " + err.Error())
			}
			return Tuple{(*Value)(nil), f.newError(err.Error())}
		}
		rt := f.g.r.e.prog.namedType("regexp", "Regexp", false)
		v := new(Value)
		*v = zero(rt)
		(*v).(Struct)[0] = s
		if must {
			return v
		}
		return Tuple{v, Iface{}}
	}
	m["regexp.Compile"] = func(f *frame, a []Value) Value { return mkRe(f, a[0], false) }
	m["regexp.MustCompile"] = func(f *frame, a []Value) Value { return mkRe(f, a[0], true) }
	m["(*regexp.Regexp).MatchString"] = func(f *frame, a []Value) Value {
		pat := (*f.ptr(a[0])).(Struct)[0].(string)
		if s, ok := a[1].(string); ok {
			return regexp.MustCompile(pat).MatchString(s)
		}
		return f.nfaMatch(pat, strBytes(a[1]))
	}
	m["regexp.MatchString"] = func(f *frame, a []Value) Value {
		pat, ok := a[0].(string)
		if !ok {
			return unsupported("symbolic regular expression")
		}
		if _, err := regexp.Compile(pat); err != nil {
			return Tuple{false, f.newError(err.Error())}
		}
		return Tuple{f.nfaMatch(pat, strBytes(a[1])), Iface{}}
	}
	setupJSON(m)
	setupNet(m)
}

// nfaMatch simulates the compiled expression with one boolean term per state (bytes as Latin-1; only
// ASCII classes are exact).
func (f *frame) nfaMatch(pat string, s []Value) Value {
	c := f.g.r.w.ctx
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return unsupported("regexp %s", pat)
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return unsupported("regexp %s", pat)
	}
	n := len(prog.Inst)
	cur := make([]*T, n)
	matched := c.tFalse
	var add func(set []*T, pc uint32, cond *T, pos int, depth int)
	add = func(set []*T, pc uint32, cond *T, pos, depth int) {
		if cond.isConst() && cond.k == 0 || depth > 2*n {
			return
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, cond, pos, depth+1)
			add(set, in.Arg, cond, pos, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, cond, pos, depth+1)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			ok := true
			if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
				ok = false
			}
			if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(s) {
				ok = false
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				unsupported("regexp word boundary on symbolic text")
			}
			if ok {
				add(set, in.Out, cond, pos, depth+1)
			}
		case syntax.InstMatch:
			matched = c.or(matched, cond)
		case syntax.InstFail:
		default:
			if set[pc] == nil {
				set[pc] = cond
			} else {
				set[pc] = c.or(set[pc], cond)
			}
		}
	}
	add(cur, uint32(prog.Start), c.tTrue, 0, 0)
	for i := range s {
		ch := f.g.r.term(s[i], 8)
		nx := make([]*T, n)
		for pc, cond := range cur {
			if cond == nil {
				continue
			}
			in := &prog.Inst[pc]
			hit := c.tFalse
			switch in.Op {
			case syntax.InstRune1, syntax.InstRune:
				rs := in.Rune
				if len(rs) == 1 {
					rs = []rune{rs[0], rs[0]}
				}
				for k := 0; k+1 < len(rs); k += 2 {
					lo, hi := rs[k], rs[k+1]
					if lo > 255 {
						continue
					}
					hi = min(hi, 255)
					hit = c.or(hit, c.and(c.ule(c.konst(uint64(lo), 8), ch), c.ule(ch, c.konst(uint64(hi), 8))))
				}
			case syntax.InstRuneAny:
				hit = c.tTrue
			case syntax.InstRuneAnyNotNL:
				hit = c.not(c.eq(ch, c.konst('\n', 8)))
			}
			add(nx, in.Out, c.and(cond, hit), i+1, 0)
		}
		cur = nx
		// unanchored search: a match may also begin here
		add(cur, uint32(prog.Start), c.tTrue, i+1, 0)
	}
	return simp(matched)
}
