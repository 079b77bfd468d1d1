package main

import (
	"fmt"
	"go/types"
	"strings"
)

// obsVal renders an observed value under the current model exactly as sym.Observe does natively.
func (r *Run) obsVal(v Value) string {
	if iv, ok := v.(Iface); ok {
		if iv.t == nil {
			return "nil"
		}
		return r.obsT(iv.t, iv.v)
	}
	return r.showVal(v)
}

var errType = types.Universe.Lookup("error").Type()

func (r *Run) obsT(t types.Type, v Value) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch s := v.(type) {
			case string:
				return fmt.Sprintf("%q", s)
			case *SymStr:
				return fmt.Sprintf("%q", r.concStr(s))
			}
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprint(r.concModel(v) == 1)
		case u.Info()&types.IsFloat != 0:
			if widthOf(u) == 32 {
				return fmt.Sprintf("f%08x", r.concModel(v))
			}
			return fmt.Sprintf("f%016x", r.concModel(v))
		case u.Info()&types.IsInteger != 0:
			k := r.concModel(v)
			if isSigned(u) {
				return fmt.Sprint(sx(k, widthOf(u)))
			}
			return fmt.Sprint(k)
		}
	case *types.Slice:
		s, _ := v.(Slice)
		var p []string
		for _, e := range s {
			p = append(p, r.obsT(u.Elem(), e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *types.Array:
		s, _ := v.(Array)
		var p []string
		for _, e := range s {
			p = append(p, r.obsT(u.Elem(), e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *types.Struct:
		s, _ := v.(Struct)
		var p []string
		for i := range s {
			p = append(p, r.obsT(u.Field(i).Type(), s[i]))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *types.Interface:
		iv, _ := v.(Iface)
		if iv.t == nil {
			return "nil"
		}
		return r.obsT(iv.t, iv.v)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return "nil"
		}
		if types.Implements(t, errType.Underlying().(*types.Interface)) {
			return "err"
		}
		return "&" + r.obsT(u.Elem(), *p)
	}
	return "?"
}
