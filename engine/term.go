package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Bit-vector / boolean terms. Width 0 is boolean. Terms are hash-consed per worker.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat // n-ary, most significant first
	OExtract
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OFop // floating point operation by name
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "not", "and", "or", "fop"}

type T struct {
	op   Op
	w    int // 0 = bool
	k    uint64
	lo   int // extract low bit
	args []*T
	name string // var name, fop name
	id   int
	hash uint64
	vars []int32 // sorted variable ids (worker local)
	size int
}

func (t *T) isConst() bool { return t.op == OConst }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

type tkey struct {
	op      Op
	w       int
	k       uint64
	lo      int
	a, b, c int
	name    string
}

type Ctx struct {
	tab     map[tkey]*T
	nid     int
	varIDs  map[string]int32
	varList []*T
	tTrue   *T
	tFalse  *T
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*T{}, varIDs: map[string]int32{}}
	c.tTrue = c.konst(1, 0)
	c.tFalse = c.konst(0, 0)
	return c
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (c *Ctx) intern(op Op, w int, k uint64, lo int, name string, args ...*T) *T {
	key := tkey{op: op, w: w, k: k, lo: lo, name: name}
	if len(args) > 3 {
		var sb strings.Builder
		sb.WriteString(name)
		for _, a := range args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		key.name = sb.String()
	} else {
		if len(args) > 0 {
			key.a = args[0].id + 1
		}
		if len(args) > 1 {
			key.b = args[1].id + 1
		}
		if len(args) > 2 {
			key.c = args[2].id + 1
		}
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &T{op: op, w: w, k: k, lo: lo, name: name, id: c.nid}
	c.nid++
	h := mix(uint64(op)+1, uint64(w))
	h = mix(h, k)
	h = mix(h, uint64(lo))
	if name != "" {
		h = mix(h, hashStr(name))
	}
	t.size = 1
	if len(args) > 0 {
		t.args = append([]*T(nil), args...)
		for _, a := range args {
			h = mix(h, a.hash)
			t.vars = mergeVars(t.vars, a.vars)
			t.size += a.size
		}
	}
	t.hash = h
	if op == OVar {
		id, ok := c.varIDs[name]
		if !ok {
			id = int32(len(c.varList))
			c.varIDs[name] = id
			c.varList = append(c.varList, t)
		}
		t.vars = []int32{id}
	}
	c.tab[key] = t
	return t
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset quick checks
	i, j := 0, 0
	out := make([]int32, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) konst(k uint64, w int) *T {
	if w == 0 {
		k &= 1
	} else {
		k &= mask(w)
	}
	return c.intern(OConst, w, k, 0, "")
}
func (c *Ctx) boolT(b bool) *T {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) variable(name string, w int) *T { return c.intern(OVar, w, 0, 0, name) }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func evalBin(op Op, w int, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return (a / b) & m
	case OURem:
		if b == 0 {
			return a
		}
		return (a % b) & m
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// pieces view of a term: concat args or itself
func pieces(t *T) []*T {
	if t.op == OConcat {
		return t.args
	}
	return []*T{t}
}

func (c *Ctx) concat(parts ...*T) *T {
	var out []*T
	var push func(p *T)
	push = func(p *T) {
		if p.op == OConcat {
			for _, a := range p.args {
				push(a)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && p.isConst() && l.w+p.w <= 64 {
				out[n-1] = c.konst(l.k<<uint(p.w)|p.k, l.w+p.w)
				return
			}
			// merge adjacent extracts of same base
			lb, lh, ll := extractView(l)
			pb, ph, pl := extractView(p)
			if lb == pb && ll == ph+1 && !lb.isConst() {
				out = out[:n-1]
				push(c.extract(lb, lh, pl))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p.w == 0 {
			panic("concat of bool")
		}
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	return c.intern(OConcat, w, 0, 0, "", out...)
}

func extractView(t *T) (base *T, hi, lo int) {
	if t.op == OExtract {
		return t.args[0], t.lo + t.w - 1, t.lo
	}
	return t, t.w - 1, 0
}

func (c *Ctx) extract(t *T, hi, lo int) *T {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.konst(t.k>>uint(lo), w)
	case OExtract:
		return c.extract(t.args[0], t.lo+hi, t.lo+lo)
	case OConcat:
		var parts []*T
		pos := t.w
		for _, p := range t.args {
			plo := pos - p.w
			phi := pos - 1
			pos = plo
			l, h := max(plo, lo), min(phi, hi)
			if l <= h {
				parts = append(parts, c.extract(p, h-plo, l-plo))
			}
		}
		return c.concat(parts...)
	case OSext:
		b := t.args[0]
		if hi < b.w {
			return c.extract(b, hi, lo)
		}
		if lo == 0 {
			return c.sext(b, w)
		}
	case OAnd, OOr, OXor:
		if lo == 0 || true {
			return c.bitwise(t.op, c.extract(t.args[0], hi, lo), c.extract(t.args[1], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.bin(t.op, c.extract(t.args[0], hi, 0), c.extract(t.args[1], hi, 0))
		}
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.ite(t.args[0], c.extract(t.args[1], hi, lo), c.extract(t.args[2], hi, lo))
		}
	}
	return c.intern(OExtract, w, 0, lo, "", t)
}

func (c *Ctx) zext(t *T, w int) *T {
	if t.w == w {
		return t
	}
	return c.concat(c.konst(0, w-t.w), t)
}

func topZero(t *T) bool {
	switch t.op {
	case OConst:
		return t.k>>(uint(t.w)-1)&1 == 0
	case OConcat:
		return topZero(t.args[0])
	case OIte:
		return topZero(t.args[1]) && topZero(t.args[2])
	}
	return false
}

func (c *Ctx) sext(t *T, w int) *T {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return c.konst(uint64(sx(t.k, t.w)), w)
	}
	if topZero(t) {
		return c.zext(t, w)
	}
	if t.op == OSext {
		t = t.args[0]
	}
	return c.intern(OSext, w, 0, 0, "", t)
}

// bounds of pieces
func cuts(t *T, m map[int]bool) {
	pos := t.w
	for _, p := range pieces(t) {
		pos -= p.w
		m[pos] = true
	}
}

func (c *Ctx) bitwise(op Op, a, b *T) *T {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.konst(evalBin(op, w, a.k, b.k), w)
	}
	if a == b {
		if op == OXor {
			return c.konst(0, w)
		}
		return a
	}
	// piecewise when constants are involved
	if a.isConst() || b.isConst() || a.op == OConcat || b.op == OConcat {
		m := map[int]bool{}
		cuts(a, m)
		cuts(b, m)
		for _, t := range []*T{a, b} {
			pos := t.w
			for _, p := range pieces(t) {
				pos -= p.w
				if p.isConst() {
					for i := 1; i < p.w; i++ {
						if (p.k>>uint(i))&1 != (p.k>>uint(i-1))&1 {
							m[pos+i] = true
						}
					}
				}
			}
		}
		var ps []int
		for i := w; i >= 0; i-- {
			if m[i] {
				ps = append(ps, i)
			}
		}
		hi := w - 1
		var parts []*T
		ok := true
		for _, lo := range ps {
			x, y := c.extract(a, hi, lo), c.extract(b, hi, lo)
			hi = lo - 1
			pw := x.w
			if y.isConst() {
				x, y = y, x
			}
			all := mask(pw)
			switch {
			case x.isConst() && y.isConst():
				parts = append(parts, c.konst(evalBin(op, pw, x.k, y.k), pw))
			case x == y:
				if op == OXor {
					parts = append(parts, c.konst(0, pw))
				} else {
					parts = append(parts, x)
				}
			case x.isConst() && x.k == 0:
				if op == OAnd {
					parts = append(parts, x)
				} else {
					parts = append(parts, y)
				}
			case x.isConst() && x.k == all && op != OXor:
				if op == OAnd {
					parts = append(parts, y)
				} else {
					parts = append(parts, x)
				}
			case x.isConst() && x.k == all && op == OXor:
				parts = append(parts, c.intern(OXor, pw, 0, 0, "", y, x))
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			return c.concat(parts...)
		}
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	// (x ^ ones) ^ ones
	if op == OXor && b.isConst() && a.op == OXor && a.args[1].isConst() {
		return c.bitwise(OXor, a.args[0], c.konst(a.args[1].k^b.k, w))
	}
	return c.intern(op, w, 0, 0, "", a, b)
}

func (c *Ctx) bin(op Op, a, b *T) *T {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.konst(evalBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OAnd, OOr, OXor:
		return c.bitwise(op, a, b)
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return c.bin(OAdd, a.args[0], c.konst(a.args[1].k+b.k, w))
			}
			if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
				return c.ite(a.args[0], c.bin(OAdd, a.args[1], b), c.bin(OAdd, a.args[2], b))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.konst(0, w)
		}
		if b.isConst() {
			return c.bin(OAdd, a, c.konst(-b.k, w))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch {
			case b.k == 0:
				return b
			case b.k == 1:
				return a
			case b.k&(b.k-1) == 0:
				return c.bin(OShl, a, c.konst(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OUDiv:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.bin(OLshr, a, c.konst(uint64(bits.TrailingZeros64(b.k)), w))
		}
		// zero-extended operands: narrow
		if r := c.narrow2(op, a, b); r != nil {
			return r
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			n := bits.TrailingZeros64(b.k)
			if n == 0 {
				return c.konst(0, w)
			}
			return c.zext(c.extract(a, n-1, 0), w)
		}
		if r := c.narrow2(op, a, b); r != nil {
			return r
		}
	case OSDiv, OSRem:
		if topZero(a) && topZero(b) {
			if op == OSDiv {
				return c.bin(OUDiv, a, b)
			}
			return c.bin(OURem, a, b)
		}
	case OShl:
		if b.isConst() {
			n := b.k
			if n == 0 {
				return a
			}
			if n >= uint64(w) {
				return c.konst(0, w)
			}
			return c.concat(c.extract(a, w-1-int(n), 0), c.konst(0, int(n)))
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	case OLshr:
		if b.isConst() {
			n := b.k
			if n == 0 {
				return a
			}
			if n >= uint64(w) {
				return c.konst(0, w)
			}
			return c.concat(c.konst(0, int(n)), c.extract(a, w-1, int(n)))
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	case OAshr:
		if b.isConst() {
			n := int(min(b.k, uint64(w-1)))
			if n == 0 {
				return a
			}
			return c.sext(c.extract(a, w-1, n), w)
		}
	}
	return c.intern(op, w, 0, 0, "", a, b)
}

func lead0(t *T) int {
	if t.isConst() {
		return t.w - bits.Len64(t.k)
	}
	if t.op == OConcat {
		if t.args[0].isConst() {
			n := lead0(t.args[0])
			if n == t.args[0].w {
				return n
			}
			return n
		}
	}
	if t.op == OIte {
		return min(lead0(t.args[1]), lead0(t.args[2]))
	}
	if t.op == OUDiv || t.op == OURem {
		return lead0(t.args[0])
	}
	if t.op == OAdd {
		return max(0, min(lead0(t.args[0]), lead0(t.args[1]))-1)
	}
	return 0
}

func (c *Ctx) narrow2(op Op, a, b *T) *T {
	n := min(lead0(a), lead0(b))
	if n <= 0 || n >= a.w || (b.isConst() && b.k == 0) || !b.isConst() {
		return nil
	}
	w := a.w - n
	x := c.extract(a, w-1, 0)
	y := c.extract(b, w-1, 0)
	return c.zext(c.bin(op, x, y), a.w)
}

func (c *Ctx) not(a *T) *T {
	if a.isConst() {
		return c.boolT(a.k == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	switch a.op {
	case OUlt:
		return c.ule(a.args[1], a.args[0])
	case OUle:
		return c.ult(a.args[1], a.args[0])
	case OSlt:
		return c.sle(a.args[1], a.args[0])
	case OSle:
		return c.slt(a.args[1], a.args[0])
	}
	return c.intern(OBNot, 0, 0, 0, "", a)
}

func (c *Ctx) and(a, b *T) *T {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
		return c.tFalse
	}
	return c.intern(OBAnd, 0, 0, 0, "", a, b)
}

func (c *Ctx) or(a, b *T) *T {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
		return c.tTrue
	}
	return c.intern(OBOr, 0, 0, 0, "", a, b)
}

func (c *Ctx) eq(a, b *T) *T {
	if a == b {
		return c.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.boolT(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.not(a)
		}
		return c.or(c.and(a, b), c.and(c.not(a), c.not(b)))
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return c.or(c.and(a.args[0], c.eq(x, b)), c.and(c.not(a.args[0]), c.eq(y, b)))
			}
		case OAdd:
			if a.args[1].isConst() {
				return c.eq(a.args[0], c.konst(b.k-a.args[1].k, a.w))
			}
		case OXor:
			if a.args[1].isConst() {
				return c.eq(a.args[0], c.konst(b.k^a.args[1].k, a.w))
			}
		case OSext:
			x := a.args[0]
			if uint64(sx(b.k&mask(x.w), x.w))&mask(a.w) != b.k {
				return c.tFalse
			}
			return c.eq(x, c.konst(b.k, x.w))
		}
	}
	if a.op == OConcat || b.op == OConcat {
		m := map[int]bool{}
		cuts(a, m)
		cuts(b, m)
		if len(m) > 1 {
			r := c.tTrue
			hi := a.w - 1
			for i := a.w - 1; i >= 0; i-- {
				if m[i] {
					r = c.and(r, c.eq(c.extract(a, hi, i), c.extract(b, hi, i)))
					hi = i - 1
					if r == c.tFalse {
						return r
					}
				}
			}
			return r
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.intern(OEq, 0, 0, 0, "", a, b)
}

func (c *Ctx) ult(a, b *T) *T {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.boolT(a.k < b.k)
	}
	if b.isConst() && b.k == 0 {
		return c.tFalse
	}
	if a.isConst() && a.k == mask(a.w) {
		return c.tFalse
	}
	if n := min(lead0(a), lead0(b)); n > 0 && n < a.w {
		return c.ult(c.extract(a, a.w-1-n, 0), c.extract(b, b.w-1-n, 0))
	}
	if b.isConst() {
		if b.k == 1 {
			return c.eq(a, c.konst(0, a.w))
		}
		if n := lead0(a); n > 0 && b.k > mask(a.w-n) {
			return c.tTrue
		}
	}
	if a.isConst() {
		if n := lead0(b); n > 0 && a.k >= mask(b.w-n) {
			return c.tFalse
		}
		if a.k == 0 {
			return c.not(c.eq(b, a))
		}
	}
	return c.intern(OUlt, 0, 0, 0, "", a, b)
}

func (c *Ctx) ule(a, b *T) *T {
	if a == b {
		return c.tTrue
	}
	if a.isConst() && b.isConst() {
		return c.boolT(a.k <= b.k)
	}
	if b.isConst() {
		if b.k == mask(b.w) {
			return c.tTrue
		}
		return c.ult(a, c.konst(b.k+1, b.w))
	}
	if a.isConst() {
		if a.k == 0 {
			return c.tTrue
		}
		return c.ult(c.konst(a.k-1, a.w), b)
	}
	if n := min(lead0(a), lead0(b)); n > 0 && n < a.w {
		return c.ule(c.extract(a, a.w-1-n, 0), c.extract(b, b.w-1-n, 0))
	}
	return c.intern(OUle, 0, 0, 0, "", a, b)
}

func (c *Ctx) slt(a, b *T) *T {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.boolT(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if topZero(a) && topZero(b) {
		return c.ult(a, b)
	}
	if topZero(a) && b.isConst() { // b negative
		return c.tFalse
	}
	if topZero(b) && a.isConst() {
		return c.tTrue
	}
	return c.intern(OSlt, 0, 0, 0, "", a, b)
}

func (c *Ctx) sle(a, b *T) *T {
	if a == b {
		return c.tTrue
	}
	if a.isConst() && b.isConst() {
		return c.boolT(sx(a.k, a.w) <= sx(b.k, b.w))
	}
	if topZero(a) && topZero(b) {
		return c.ule(a, b)
	}
	if topZero(a) && b.isConst() {
		return c.tFalse
	}
	if topZero(b) && a.isConst() {
		return c.tTrue
	}
	return c.intern(OSle, 0, 0, 0, "", a, b)
}

func (c *Ctx) ite(cond, a, b *T) *T {
	if cond.isConst() {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return c.or(c.and(cond, a), c.and(c.not(cond), b))
	}
	if cond.op == OBNot {
		return c.ite(cond.args[0], b, a)
	}
	return c.intern(OIte, a.w, 0, 0, "", cond, a, b)
}

// fop builds a floating point operation. Operand and result floats are IEEE bit patterns.
// names: "u2f32","s2f32","u2f64","s2f64" (int->float), "f32f64","f64f32", "flt32","fle32","feq32" and 64 variants (bool result).
func (c *Ctx) fop(name string, w int, args ...*T) *T {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	if all {
		ks := make([]uint64, len(args))
		for i, a := range args {
			ks[i] = a.k
		}
		aw := args[0].w
		return c.konst(evalFop(name, aw, ks), w)
	}
	return c.intern(OFop, w, 0, 0, name, args...)
}

func f32(k uint64) float32 { return math.Float32frombits(uint32(k)) }
func f64(k uint64) float64 { return math.Float64frombits(k) }

func evalFop(name string, aw int, k []uint64) uint64 {
	switch name {
	case "u2f32":
		return uint64(math.Float32bits(float32(k[0])))
	case "s2f32":
		return uint64(math.Float32bits(float32(sx(k[0], aw))))
	case "u2f64":
		return math.Float64bits(float64(k[0]))
	case "s2f64":
		return math.Float64bits(float64(sx(k[0], aw)))
	case "f32f64":
		return math.Float64bits(float64(f32(k[0])))
	case "f64f32":
		return uint64(math.Float32bits(float32(f64(k[0]))))
	case "flt":
		if aw == 32 {
			return b2u(f32(k[0]) < f32(k[1]))
		}
		return b2u(f64(k[0]) < f64(k[1]))
	case "fle":
		if aw == 32 {
			return b2u(f32(k[0]) <= f32(k[1]))
		}
		return b2u(f64(k[0]) <= f64(k[1]))
	case "feq":
		if aw == 32 {
			return b2u(f32(k[0]) == f32(k[1]))
		}
		return b2u(f64(k[0]) == f64(k[1]))
	case "fadd", "fsub", "fmul", "fdiv":
		if aw == 32 {
			a, b := f32(k[0]), f32(k[1])
			var r float32
			switch name {
			case "fadd":
				r = a + b
			case "fsub":
				r = a - b
			case "fmul":
				r = a * b
			case "fdiv":
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := f64(k[0]), f64(k[1])
		var r float64
		switch name {
		case "fadd":
			r = a + b
		case "fsub":
			r = a - b
		case "fmul":
			r = a * b
		case "fdiv":
			r = a / b
		}
		return math.Float64bits(r)
	case "f2s32", "f2s64", "f2u32", "f2u64", "f2s8", "f2s16", "f2u8", "f2u16":
		var f float64
		if aw == 32 {
			f = float64(f32(k[0]))
		} else {
			f = f64(k[0])
		}
		if name[2] == 's' {
			return uint64(int64(f))
		}
		return uint64(f)
	}
	panic("evalFop " + name)
}

// evaluation under a model
type Model map[string]uint64

func (c *Ctx) eval(t *T, m Model, memo map[*T]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t.name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OConcat:
		for _, a := range t.args {
			r = r<<uint(a.w) | c.eval(a, m, memo)
		}
	case OExtract:
		r = c.eval(t.args[0], m, memo) >> uint(t.lo) & mask(t.w)
	case OSext:
		r = uint64(sx(c.eval(t.args[0], m, memo), t.args[0].w)) & mask(t.w)
	case OIte:
		if c.eval(t.args[0], m, memo) == 1 {
			r = c.eval(t.args[1], m, memo)
		} else {
			r = c.eval(t.args[2], m, memo)
		}
	case OSlt:
		r = b2u(sx(c.eval(t.args[0], m, memo), t.args[0].w) < sx(c.eval(t.args[1], m, memo), t.args[1].w))
	case OSle:
		r = b2u(sx(c.eval(t.args[0], m, memo), t.args[0].w) <= sx(c.eval(t.args[1], m, memo), t.args[1].w))
	case OBNot:
		r = 1 - c.eval(t.args[0], m, memo)
	case OBAnd:
		r = c.eval(t.args[0], m, memo)
		if r == 1 {
			r = c.eval(t.args[1], m, memo)
		}
	case OBOr:
		r = c.eval(t.args[0], m, memo)
		if r == 0 {
			r = c.eval(t.args[1], m, memo)
		}
	case OFop:
		ks := make([]uint64, len(t.args))
		for i, a := range t.args {
			ks[i] = c.eval(a, m, memo)
		}
		r = evalFop(t.name, t.args[0].w, ks)
		if t.w > 0 {
			r &= mask(t.w)
		}
	default:
		r = evalBin(t.op, t.args[0].w, c.eval(t.args[0], m, memo), c.eval(t.args[1], m, memo))
	}
	memo[t] = r
	return r
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(k uint64, w int) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func smtVar(name string) string { return "|" + name + "|" }

// body prints the SMT-LIB body of t given a function naming its arguments.
func (t *T) body(ref func(*T) string) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.lo+t.w-1, t.lo, ref(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OFop:
		return t.fopBody(ref)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *T) fopBody(ref func(*T) string) string {
	a := t.args[0]
	asF := func(x *T) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(x.w), ref(x)) }
	switch t.name {
	case "u2f32", "u2f64":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), ref(a))
	case "s2f32", "s2f64":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), ref(a))
	case "f32f64", "f64f32":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), asF(a))
	case "flt":
		return fmt.Sprintf("(fp.lt %s %s)", asF(a), asF(t.args[1]))
	case "fle":
		return fmt.Sprintf("(fp.leq %s %s)", asF(a), asF(t.args[1]))
	case "feq":
		return fmt.Sprintf("(fp.eq %s %s)", asF(a), asF(t.args[1]))
	case "fadd", "fsub", "fmul", "fdiv":
		return fmt.Sprintf("(fp.to_ieee_bv (fp.%s RNE %s %s))", t.name[1:], asF(a), asF(t.args[1]))
	}
	if strings.HasPrefix(t.name, "f2s") {
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, asF(a))
	}
	return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, asF(a))
}

func (t *T) String() string {
	switch t.op {
	case OConst:
		return smtConst(t.k, t.w)
	case OVar:
		return t.name
	}
	if t.size > 200 {
		return fmt.Sprintf("<term size %d>", t.size)
	}
	return t.body(func(a *T) string { return a.String() })
}
