package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// encoding/json is modelled on the tree of values: the bytes of a document whose leaves are symbolic are a
// marker that stands for the tree, a document of concrete values has its real text.

type jnode struct {
	kind byte // n b i f s x(base64) a o
	v    Value
	w    int
	sg   bool
	kids []*jnode
	keys []jkey
}

type jkey struct {
	s   Value // string, or nil for a number
	num *jnode
}

const jmark = "\x00json-tree-"

func (f *frame) jsonErr(msg string) Iface { return f.newError("json: " + msg) }

type jfail struct{ err Iface }

func (r *Run) jtrees() *[]*jnode {
	k := "json trees"
	if r.side == nil {
		r.side = map[any]any{}
	}
	p, ok := r.side[k].(*[]*jnode)
	if !ok {
		p = &[]*jnode{}
		r.side[k] = p
	}
	return p
}

func (f *frame) jemit(n *jnode) Slice {
	var s string
	if txt, ok := n.text(); ok {
		s = txt
	} else {
		l := f.g.r.jtrees()
		*l = append(*l, n)
		s = jmark + strconv.Itoa(len(*l)-1) + ";"
	}
	return Slice(strBytes(s))
}

func jstrText(v Value) (string, bool) {
	s, ok := v.(string)
	if !ok {
		return "", false
	}
	b, _ := json.Marshal(s)
	return string(b), true
}

func (n *jnode) text() (string, bool) {
	switch n.kind {
	case 'n':
		return "null", true
	case 'b':
		b, ok := n.v.(bool)
		return strconv.FormatBool(b), ok
	case 'i':
		k, ok := n.v.(uint64)
		if n.sg {
			return strconv.FormatInt(sx(k, n.w), 10), ok
		}
		return strconv.FormatUint(k, 10), ok
	case 'f':
		k, ok := n.v.(uint64)
		var b []byte
		if n.w == 32 {
			b, _ = json.Marshal(math.Float32frombits(uint32(k)))
		} else {
			b, _ = json.Marshal(math.Float64frombits(k))
		}
		return string(b), ok
	case 's':
		return jstrText(n.v)
	case 'x':
		var b []byte
		for _, x := range n.v.(Slice) {
			k, ok := x.(uint64)
			if !ok {
				return "", false
			}
			b = append(b, byte(k))
		}
		return `"` + base64.StdEncoding.EncodeToString(b) + `"`, true
	case 'a':
		var p []string
		for _, k := range n.kids {
			t, ok := k.text()
			if !ok {
				return "", false
			}
			p = append(p, t)
		}
		return "[" + strings.Join(p, ",") + "]", true
	case 'o':
		var p []string
		for i, k := range n.kids {
			t, ok := k.text()
			if !ok {
				return "", false
			}
			var ks string
			if n.keys[i].s != nil {
				ks, ok = jstrText(n.keys[i].s)
			} else {
				ks, ok = n.keys[i].num.text()
				ks = `"` + ks + `"`
			}
			if !ok {
				return "", false
			}
			p = append(p, ks+":"+t)
		}
		return "{" + strings.Join(p, ",") + "}", true
	}
	return "", false
}

type jfield struct {
	name      string
	idx       []int
	typ       types.Type
	omit, str bool
	tagged    bool
}

func jfields(t types.Type) []jfield {
	type level struct {
		t   *types.Struct
		idx []int
	}
	var out []jfield
	seen := map[*types.Struct]bool{}
	next := []level{{t.Underlying().(*types.Struct), nil}}
	taken := map[string]bool{}
	for len(next) > 0 {
		cur := next
		next = nil
		var found []jfield
		for _, l := range cur {
			if seen[l.t] {
				continue
			}
			seen[l.t] = true
			for i := 0; i < l.t.NumFields(); i++ {
				fd := l.t.Field(i)
				tag := reflect.StructTag(l.t.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				ft := fd.Type()
				idx := append(append([]int(nil), l.idx...), i)
				if fd.Anonymous() {
					et := ft
					if p, ok := et.Underlying().(*types.Pointer); ok {
						et = p.Elem()
					}
					if st, ok := et.Underlying().(*types.Struct); ok && parts[0] == "" {
						if _, ptr := ft.Underlying().(*types.Pointer); ptr {
							unsupported("json of an embedded pointer")
						}
						next = append(next, level{st, idx})
						continue
					}
				}
				if !fd.Exported() {
					continue
				}
				jf := jfield{name: parts[0], idx: idx, typ: ft, tagged: parts[0] != ""}
				if jf.name == "" {
					jf.name = fd.Name()
				}
				for _, o := range parts[1:] {
					jf.omit = jf.omit || o == "omitempty"
					jf.str = jf.str || o == "string"
				}
				found = append(found, jf)
			}
		}
		byName := map[string][]jfield{}
		var order []string
		for _, x := range found {
			if byName[x.name] == nil {
				order = append(order, x.name)
			}
			byName[x.name] = append(byName[x.name], x)
		}
		for _, nm := range order {
			l := byName[nm]
			if taken[nm] {
				continue
			}
			taken[nm] = true
			if len(l) > 1 {
				var tg []jfield
				for _, x := range l {
					if x.tagged {
						tg = append(tg, x)
					}
				}
				if len(tg) != 1 {
					continue
				}
				l = tg
			}
			out = append(out, l[0])
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].idx, out[j].idx
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

func (f *frame) jempty(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		if u.Info()&types.IsBoolean != 0 {
			return f.cond(f.notVal(v))
		}
		w := widthOf(u)
		x := f.g.r.term(v, w)
		return f.cond(simp(f.g.r.w.ctx.eq(x, f.g.r.w.ctx.konst(0, w))))
	case *types.Slice:
		return len(v.(Slice)) == 0
	case *types.Array:
		return u.Len() == 0
	case *types.Map:
		m := v.(*Map)
		return m == nil || m.n == 0
	case *types.Interface:
		return v.(Iface).t == nil
	case *types.Pointer:
		return v.(*Value) == nil
	}
	return false
}

// jascii: the text of other strings is changed by the encoder where it is not UTF-8.
func (f *frame) jascii(v Value) {
	s, ok := v.(*SymStr)
	if !ok {
		return
	}
	c := f.g.r.w.ctx
	all := c.boolT(true)
	for _, b := range s.b {
		all = c.and(all, c.ult(f.g.r.term(b, 8), c.konst(0x80, 8)))
	}
	if !f.cond(simp(all)) {
		unsupported("json of a symbolic string that is not ASCII")
	}
}

func (f *frame) jmarshal(t types.Type, v Value, addr *Value) *jnode {
	p := f.g.r.e.prog
	t = p.canonType(t)
	ptr, isPtr := t.Underlying().(*types.Pointer)
	if _, isI := t.Underlying().(*types.Interface); !isI {
		call := func(m *cfn, recv Value) *jnode {
			res := f.g.call(f, m, []Value{recv}, nil).(Tuple)
			if e := res[1].(Iface); e.t != nil {
				panic(jfail{e})
			}
			return f.jparse(res[0].(Slice))
		}
		if m := p.methodByName(t, "MarshalJSON"); m != nil && m.fn != nil {
			if isPtr && v.(*Value) == nil {
				return &jnode{kind: 'n'}
			}
			return call(m, v)
		}
		if addr != nil && !isPtr {
			if m := p.methodByName(p.canonType(types.NewPointer(t)), "MarshalJSON"); m != nil && m.fn != nil {
				return call(m, addr)
			}
		}
		if m := p.methodByName(t, "MarshalText"); m != nil && m.fn != nil {
			if isPtr && v.(*Value) == nil {
				return &jnode{kind: 'n'}
			}
			res := f.g.call(f, m, []Value{v}, nil).(Tuple)
			if e := res[1].(Iface); e.t != nil {
				panic(jfail{e})
			}
			s := mkStr(res[0].(Slice))
			f.jascii(s)
			return &jnode{kind: 's', v: s}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			f.jascii(v)
			return &jnode{kind: 's', v: v}
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: 'b', v: f.cond(v)}
		case u.Info()&types.IsFloat != 0:
			w := widthOf(u)
			c := f.g.r.w.ctx
			eb, mb := 8, 23
			if w == 64 {
				eb, mb = 11, 52
			}
			x := f.g.r.term(v, w)
			if f.cond(simp(c.eq(c.extract(x, mb+eb-1, mb), c.konst(1<<uint(eb)-1, eb)))) {
				panic(jfail{f.jsonErr("unsupported value")})
			}
			return &jnode{kind: 'f', v: v, w: w}
		case u.Info()&types.IsInteger != 0:
			return &jnode{kind: 'i', v: v, w: widthOf(u), sg: isSigned(u)}
		}
	case *types.Pointer:
		q := v.(*Value)
		if q == nil {
			return &jnode{kind: 'n'}
		}
		return f.jmarshal(ptr.Elem(), *q, q)
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return &jnode{kind: 'n'}
		}
		return f.jmarshal(iv.t, iv.v, nil)
	case *types.Struct:
		n := &jnode{kind: 'o'}
		for _, jf := range jfields(t) {
			cur, ca := v, addr
			for _, i := range jf.idx {
				s := cur.(Struct)
				cur = s[i]
				if ca != nil {
					ca = &(*ca).(Struct)[i]
				}
			}
			if jf.omit && f.jempty(jf.typ, cur) {
				continue
			}
			if jf.str {
				unsupported("json ,string option")
			}
			n.keys = append(n.keys, jkey{s: jf.name})
			n.kids = append(n.kids, f.jmarshal(jf.typ, cur, ca))
		}
		return n
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &jnode{kind: 'n'}
		}
		n := &jnode{kind: 'o'}
		kt := u.Key()
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			var k jkey
			switch {
			case isString(kt):
				f.jascii(e.k)
				k.s = e.k
			default:
				if mt := p.methodByName(p.canonType(kt), "MarshalText"); mt != nil {
					unsupported("json map key with MarshalText")
				}
				b := basicOf(kt)
				if b == nil || b.Info()&types.IsInteger == 0 {
					panic(jfail{f.jsonErr("unsupported type: " + t.String())})
				}
				k.num = &jnode{kind: 'i', v: e.k, w: widthOf(kt), sg: isSigned(kt)}
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, f.jmarshal(u.Elem(), e.v, nil))
		}
		// the encoder sorts the keys
		ord := make([]int, len(n.keys))
		for i := range ord {
			ord[i] = i
		}
		name := func(i int) (string, bool) {
			if n.keys[i].s != nil {
				s, ok := n.keys[i].s.(string)
				return s, ok
			}
			return n.keys[i].num.text()
		}
		sort.SliceStable(ord, func(a, b int) bool {
			x, ok := name(ord[a])
			y, ok2 := name(ord[b])
			return ok && ok2 && x < y
		})
		o := &jnode{kind: 'o'}
		for _, i := range ord {
			o.keys = append(o.keys, n.keys[i])
			o.kids = append(o.kids, n.kids[i])
		}
		return o
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return &jnode{kind: 'n'}
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			return &jnode{kind: 'x', v: append(Slice{}, s...)}
		}
		n := &jnode{kind: 'a'}
		for i := range s {
			n.kids = append(n.kids, f.jmarshal(u.Elem(), s[i], &s[i]))
		}
		return n
	case *types.Array:
		n := &jnode{kind: 'a'}
		for _, x := range v.(Array) {
			n.kids = append(n.kids, f.jmarshal(u.Elem(), x, nil))
		}
		return n
	}
	panic(jfail{f.jsonErr("unsupported type: " + t.String())})
}

// jparse reads a document: a marker or real text.
func (f *frame) jparse(b Slice) *jnode {
	s, ok := mkStr(b).(string)
	if !ok {
		unsupported("json text with symbolic bytes")
	}
	if strings.HasPrefix(s, jmark) && strings.HasSuffix(s, ";") {
		i, err := strconv.Atoi(s[len(jmark) : len(s)-1])
		l := *f.g.r.jtrees()
		if err == nil && i < len(l) {
			return l[i]
		}
	}
	if strings.Contains(s, jmark) {
		unsupported("json text around a symbolic document")
	}
	if !json.Valid([]byte(s)) {
		panic(jfail{f.jsonErr("invalid text")})
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	return jread(d)
}

func jread(d *json.Decoder) *jnode {
	t, err := d.Token()
	if err != nil {
		unsupported("json: %v", err)
	}
	switch x := t.(type) {
	case nil:
		return &jnode{kind: 'n'}
	case bool:
		return &jnode{kind: 'b', v: x}
	case string:
		return &jnode{kind: 's', v: x}
	case json.Number:
		if k, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return &jnode{kind: 'i', v: uint64(k), w: 64, sg: true}
		}
		if k, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return &jnode{kind: 'i', v: k, w: 64}
		}
		g, _ := strconv.ParseFloat(string(x), 64)
		return &jnode{kind: 'f', v: math.Float64bits(g), w: 64}
	case json.Delim:
		n := &jnode{kind: 'a'}
		if x == '{' {
			n.kind = 'o'
		}
		for d.More() {
			if n.kind == 'o' {
				k, _ := d.Token()
				n.keys = append(n.keys, jkey{s: k.(string)})
			}
			n.kids = append(n.kids, jread(d))
		}
		d.Token()
		return n
	}
	return unsupported("json token %T", t).(*jnode)
}

// jint converts an integer leaf to a width and signedness; false when it does not fit.
func (f *frame) jint(n *jnode, w int, sg bool) (Value, bool) {
	r := f.g.r
	c := r.w.ctx
	x := r.term(n.v, n.w)
	// as 65-bit signed: compare in the wider of both, handling the sign
	if n.sg == sg && n.w <= w {
		if sg {
			return simp(c.sext(x, w)), true
		}
		return simp(c.zext(x, w)), true
	}
	big := 64
	var v *T
	if n.sg {
		if f.cond(simp(c.slt(x, c.konst(0, n.w)))) {
			if !sg {
				return nil, false
			}
			v = c.sext(x, big)
			if w < 64 && f.cond(simp(c.slt(v, c.konst(uint64(-(int64(1)<<uint(w-1))), big)))) {
				return nil, false
			}
			return simp(c.extract(v, w-1, 0)), true
		}
	}
	v = c.zext(x, big)
	max := mask(w)
	if sg {
		max >>= 1
	}
	if f.cond(simp(c.ult(c.konst(max, big), v))) {
		return nil, false
	}
	return simp(c.extract(v, w-1, 0)), true
}

// junmarshal stores n into the cell; type errors are remembered and the rest goes on, as in the real decoder.
func (f *frame) junmarshal(n *jnode, t types.Type, dst *Value, first *Iface) {
	p := f.g.r.e.prog
	t = p.canonType(t)
	bad := func() {
		if first.t == nil {
			*first = f.jsonErr("cannot unmarshal into Go value of type " + t.String())
		}
	}
	ptr, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		if n.kind == 'n' {
			*dst = (*Value)(nil)
			return
		}
		q, _ := (*dst).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(ptr.Elem())
			*dst = q
		}
		f.junmarshal(n, ptr.Elem(), q, first)
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		pt := p.canonType(types.NewPointer(t))
		if m := p.methodByName(pt, "UnmarshalJSON"); m != nil && m.fn != nil {
			if e := f.g.call(f, m, []Value{dst, f.jemit(n)}, nil).(Iface); e.t != nil {
				panic(jfail{e})
			}
			return
		}
		if m := p.methodByName(pt, "UnmarshalText"); m != nil && m.fn != nil {
			if n.kind != 's' {
				if n.kind != 'n' {
					bad()
				}
				return
			}
			if e := f.g.call(f, m, []Value{dst, Slice(strBytes(n.v))}, nil).(Iface); e.t != nil {
				panic(jfail{e})
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n.kind == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind == 'x' {
				unsupported("base64 text")
			}
			if n.kind != 's' {
				bad()
				return
			}
			*dst = n.v
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				bad()
				return
			}
			*dst = n.v
		case u.Info()&types.IsFloat != 0:
			*dst = f.jfloat(n, widthOf(u), bad, *dst)
		case u.Info()&types.IsInteger != 0:
			if n.kind == 'f' {
				unsupported("json float into an integer")
			}
			if n.kind != 'i' {
				bad()
				return
			}
			x, ok := f.jint(n, widthOf(u), isSigned(u))
			if !ok {
				bad()
				return
			}
			*dst = x
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.kind == 'n' {
				*dst = Iface{}
				return
			}
			bad()
			return
		}
		*dst = f.jany(n)
	case *types.Struct:
		if n.kind == 'n' {
			return
		}
		if n.kind != 'o' {
			bad()
			return
		}
		fl := jfields(t)
		for i, k := range n.keys {
			ks, ok := k.s.(string)
			if !ok {
				if k.s != nil {
					unsupported("json object with a symbolic name into a struct")
				}
				continue // a number names no field
			}
			var jf *jfield
			for j := range fl {
				if fl[j].name == ks {
					jf = &fl[j]
				}
			}
			for j := range fl {
				if jf == nil && strings.EqualFold(fl[j].name, ks) {
					jf = &fl[j]
				}
			}
			if jf == nil {
				continue
			}
			cell := dst
			for _, x := range jf.idx {
				cell = &(*cell).(Struct)[x]
			}
			f.junmarshal(n.kids[i], jf.typ, cell, first)
		}
	case *types.Map:
		if n.kind == 'n' {
			*dst = (*Map)(nil)
			return
		}
		if n.kind != 'o' {
			bad()
			return
		}
		m, _ := (*dst).(*Map)
		if m == nil {
			m = &Map{index: map[Value]*mapEntry{}}
			*dst = m
		}
		kt := u.Key()
		for i, k := range n.keys {
			var key Value
			if isString(kt) {
				key = k.s
				if key == nil {
					fm := &fmtr{f: f}
					fm.itoa(f.g.r.term(k.num.v, k.num.w), k.num.sg)
					key = mkStr(fm.out)
				}
			} else {
				num := k.num
				if num == nil {
					s, ok := k.s.(string)
					if !ok {
						unsupported("json map key with symbolic text")
					}
					if x, err := strconv.ParseInt(s, 10, 64); err == nil {
						num = &jnode{kind: 'i', v: uint64(x), w: 64, sg: true}
					} else if x, err := strconv.ParseUint(s, 10, 64); err == nil {
						num = &jnode{kind: 'i', v: x, w: 64}
					} else {
						bad()
						continue
					}
				}
				x, ok := f.jint(num, widthOf(kt), isSigned(kt))
				if !ok {
					bad()
					continue
				}
				key = x
			}
			cell := new(Value)
			*cell = zero(u.Elem())
			f.junmarshal(n.kids[i], u.Elem(), cell, first)
			f.g.r.mapSet(f, m, key, *cell)
		}
	case *types.Slice:
		if n.kind == 'n' {
			*dst = Slice(nil)
			return
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			switch n.kind {
			case 'x':
				*dst = append(Slice{}, n.v.(Slice)...)
				return
			case 's':
				s, ok := n.v.(string)
				if !ok {
					unsupported("base64 text")
				}
				raw, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					bad()
					return
				}
				out := Slice{}
				for _, x := range raw {
					out = append(out, uint64(x))
				}
				*dst = out
				return
			}
		}
		if n.kind != 'a' {
			bad()
			return
		}
		s := make(Slice, len(n.kids))
		for i, k := range n.kids {
			s[i] = zero(u.Elem())
			f.junmarshal(k, u.Elem(), &s[i], first)
		}
		*dst = s
	case *types.Array:
		if n.kind == 'n' {
			return
		}
		if n.kind != 'a' {
			bad()
			return
		}
		a := (*dst).(Array)
		for i := range a {
			if i < len(n.kids) {
				f.junmarshal(n.kids[i], u.Elem(), &a[i], first)
			} else {
				a[i] = zero(u.Elem())
			}
		}
	default:
		if n.kind != 'n' {
			bad()
		}
	}
}

func (f *frame) jfloat(n *jnode, w int, bad func(), old Value) Value {
	switch n.kind {
	case 'f':
		if n.w == w {
			return n.v
		}
	case 'i':
	default:
		bad()
		return old
	}
	t, ok := n.text()
	if !ok {
		unsupported("json number of another kind")
	}
	x, err := strconv.ParseFloat(t, w)
	if err != nil {
		bad()
		return old
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(x)))
	}
	return math.Float64bits(x)
}

func (f *frame) jany(n *jnode) Iface {
	em := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'b':
		return f.iface(types.Typ[types.Bool], n.v)
	case 's':
		return f.iface(types.Typ[types.String], n.v)
	case 'i', 'f':
		return f.iface(types.Typ[types.Float64], f.jfloat(n, 64, func() {}, uint64(0)))
	case 'x':
		t, ok := n.text()
		if !ok {
			unsupported("base64 text")
		}
		return f.iface(types.Typ[types.String], t[1:len(t)-1])
	case 'a':
		s := Slice{}
		for _, k := range n.kids {
			s = append(s, f.jany(k))
		}
		return f.iface(types.NewSlice(em), s)
	case 'o':
		m := newMap(types.Typ[types.String])
		for i, k := range n.keys {
			key := k.s
			if key == nil {
				fm := &fmtr{f: f}
				fm.itoa(f.g.r.term(k.num.v, k.num.w), k.num.sg)
				key = mkStr(fm.out)
			}
			f.g.r.mapSet(f, m, key, f.jany(n.kids[i]))
		}
		return f.iface(types.NewMap(types.Typ[types.String], em), m)
	}
	return Iface{}
}

func setupJSON(m map[string]natFn) {
	marshal := func(f *frame, a []Value) (res Value) {
		defer func() {
			if p := recover(); p != nil {
				j, ok := p.(jfail)
				if !ok {
					panic(p)
				}
				res = Tuple{Slice(nil), j.err}
			}
		}()
		iv := a[0].(Iface)
		n := &jnode{kind: 'n'}
		if iv.t != nil {
			n = f.jmarshal(iv.t, iv.v, nil)
		}
		return Tuple{f.jemit(n), Iface{}}
	}
	m["encoding/json.Marshal"] = marshal
	m["encoding/json.MarshalIndent"] = marshal
	m["encoding/json.Unmarshal"] = func(f *frame, a []Value) (res Value) {
		defer func() {
			if p := recover(); p != nil {
				j, ok := p.(jfail)
				if !ok {
					panic(p)
				}
				res = j.err
			}
		}()
		iv := a[1].(Iface)
		if iv.t == nil {
			return f.jsonErr("Unmarshal(nil)")
		}
		pt, ok := iv.t.Underlying().(*types.Pointer)
		if !ok || iv.v.(*Value) == nil {
			return f.jsonErr("Unmarshal(non-pointer or nil)")
		}
		n := f.jparse(a[0].(Slice))
		var first Iface
		f.junmarshal(n, pt.Elem(), iv.v.(*Value), &first)
		return first
	}
	m["encoding/json.Valid"] = func(f *frame, a []Value) Value {
		s, ok := mkStr(a[0].(Slice)).(string)
		if !ok {
			return unsupported("json.Valid of symbolic text")
		}
		return strings.HasPrefix(s, jmark) || json.Valid([]byte(s))
	}
}

func setupNet(m map[string]natFn) {
}

var _ = fmt.Sprint
