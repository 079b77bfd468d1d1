package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// scalars: uint64 (integers and float bit patterns, masked to width), bool, *T
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct{ b []Value } // string with at least one symbolic byte

type Iface struct {
	t types.Type // nil for nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(g *G, args []Value) Value // engine-provided function
	name   string
}

// SymPtr points to an element of a scalar slice at a symbolic index (bounds already checked).
type SymPtr struct {
	arr []Value
	idx *T
	typ types.Type
}

type mapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	kt    types.Type // key type, where known
	ents  []*mapEntry
	index map[Value]*mapEntry // for concrete keys
	nsym  int                 // entries with symbolic keys
	n     int
}

type mapIter struct {
	m     *Map
	i     int
	rev   []*mapEntry
	isRev bool
}
type strIter struct {
	s Value
	i int
}

type rtypeVal struct{ t types.Type }

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// width of scalar type; bool -> 0
func widthOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return unsupported("complex")
		}
		return uint64(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	return unsupported("zero of %v", t)
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, f := range x {
			r[i] = copyVal(f)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, f := range x {
			r[i] = copyVal(f)
		}
		return r
	}
	return v
}

// storeInto writes v into cell in place, preserving addresses of nested aggregates.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) Value {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

// size in bytes of a type, for allocation accounting
var sizes = types.SizesFor("gc", "amd64")

func sizeofType(t types.Type) int64 {
	return sizes.Sizeof(t)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = byteVals[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func mkStr(b []Value) Value {
	var sb strings.Builder
	for _, x := range b {
		k, ok := x.(uint64)
		if !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
		sb.WriteByte(byte(k))
	}
	return sb.String()
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// showVal renders a value under a model (for traces)
func (r *Run) showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case uint64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *T:
		return fmt.Sprintf("%d", r.w.ctx.eval(x, r.model, r.memo))
	case *SymStr:
		return fmt.Sprintf("%q", r.concStr(x))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", types.TypeString(x.t, func(*types.Package) string { return "" }), r.showVal(x.v))
	case Slice:
		var p []string
		for i, e := range x {
			if i > 40 {
				p = append(p, "...")
				break
			}
			p = append(p, r.showVal(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, r.showVal(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return r.showVal(Slice(x))
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + r.showVal(*x)
	case *Map:
		if x == nil {
			return "map[]"
		}
		var p []string
		for _, e := range x.ents {
			if !e.dead {
				p = append(p, r.showVal(e.k)+":"+r.showVal(e.v))
			}
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

func (r *Run) concStr(x *SymStr) string {
	var sb strings.Builder
	for _, b := range x.b {
		sb.WriteByte(byte(r.concModel(b)))
	}
	return sb.String()
}

// value under the current model
func (r *Run) concModel(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		return b2u(x)
	case *T:
		return r.w.ctx.eval(x, r.model, r.memo)
	}
	panic(fmt.Sprintf("concModel %T", v))
}
