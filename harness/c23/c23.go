// Package c23: value extraction helpers return the value or report failure.
package c23

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/helpers/data"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

const kinds = 16

func some(k int, name string) interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return &btypes.BitString{BitUsed: sym.Byte(name), Value: sym.Bytes(name, 2)}
	case 2:
		n := sym.Choose(name+" elements", 3)
		l := make([]interface{}, 0)
		for i := 0; i < n; i++ {
			l = append(l, sym.U32(name))
		}
		return l
	case 3:
		return int(sym.I32(name))
	case 4:
		return sym.F32(name)
	case 5:
		return sym.F64(name)
	case 6:
		return sym.Bool(name)
	case 7:
		return sym.Str(name, sym.Choose(name+" octets", sym.Bound("text octets", 3, 9)))
	case 8:
		return sym.U32(name)
	case 9:
		return sym.I32(name)
	case 10:
		return null.Null{}
	case 11:
		return btypes.ObjectID{Type: btypes.ObjectType(sym.U16(name)), Instance: btypes.ObjectInstance(sym.U32(name))}
	case 12:
		return sym.Bytes(name, 2)
	case 13:
		return btypes.Enumerated(sym.U32(name))
	case 14:
		return sym.U64(name)
	}
	return []uint32{sym.U32(name)}
}

// Helpers: every helper on every kind of content, with any number of properties.
func Helpers() {
	n := sym.Choose("properties", 3)
	d := btypes.PropertyData{InvokeID: sym.U16("invoke"), ErrorCode: sym.Byte("code")}
	k, v := -1, interface{}(nil)
	for i := 0; i < n; i++ {
		p := btypes.Property{Type: btypes.PropertyType(sym.U32("property")), ArrayIndex: sym.U32("index")}
		if i == 0 {
			k = sym.Choose("kind", kinds)
			v = some(k, "value")
			p.Data = v
		} else {
			p.Data = some(sym.Choose("other kind", 9), "other")
		}
		d.Object.Properties = append(d.Object.Properties, p)
	}
	switch sym.Choose("helper", 8) {
	case 0:
		ok, out := data.ToBitString(d)
		sym.Assert(ok == (k == 1), "bit string or failure")
		if ok {
			sym.Assert(out == v.(*btypes.BitString), "the bit string")
		} else {
			sym.Assert(out == nil, "no bit string")
		}
	case 1:
		ok, out := data.ToArr(d)
		sym.Assert(ok == (k == 2), "list or failure")
		if ok {
			w := v.([]interface{})
			sym.Assert(len(out) == len(w), "every element of the list")
			for i := range w {
				sym.Assert(out[i] == w[i], "the elements of the list")
			}
		} else {
			sym.Assert(out == nil, "no list")
		}
	case 2:
		ok, out := data.ToInt(d)
		sym.Assert(ok == (k == 3), "integer or failure")
		if ok {
			sym.Assert(out == v.(int), "the integer")
		} else {
			sym.Assert(out == 0, "no integer")
		}
	case 3:
		ok, out := data.ToFloat32(d)
		sym.Assert(ok == (k == 4), "real or failure")
		if ok {
			sym.Assert(math.Float32bits(out) == math.Float32bits(v.(float32)), "the real")
		} else {
			sym.Assert(out == 0, "no real")
		}
	case 4:
		ok, out := data.ToFloat64(d)
		sym.Assert(ok == (k == 5), "double or failure")
		if ok {
			sym.Assert(math.Float64bits(out) == math.Float64bits(v.(float64)), "the double")
		} else {
			sym.Assert(out == 0, "no double")
		}
	case 5:
		ok, out := data.ToBool(d)
		sym.Assert(ok == (k == 6), "boolean or failure")
		if ok {
			sym.Assert(out == v.(bool), "the boolean")
		} else {
			sym.Assert(!out, "no boolean")
		}
	case 6:
		ok, out := data.ToStr(d)
		sym.Assert(ok == (k == 7), "text or failure")
		if ok {
			sym.Assert(ref.Same([]byte(out), []byte(v.(string))), "the text")
		} else {
			sym.Assert(out == "", "no text")
		}
	case 7:
		ok, out := data.ToUint32(d)
		sym.Assert(ok == (k == 8), "unsigned or failure")
		if ok {
			sym.Assert(out == v.(uint32), "the unsigned number")
		} else {
			sym.Assert(out == 0, "no number")
		}
	}
	sym.Reach("end")
}
