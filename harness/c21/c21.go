// Package c21: object types keep their identity through names and JSON.
package c21

import (
	"encoding/json"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// Names: every type's name maps back to it.
func Names() {
	t := btypes.ObjectType(sym.U16("type"))
	s := t.String()
	sym.Observe("name", s)
	sym.Assert(len(s) > 0, "a type has a name")
	sym.Assert(btypes.GetType(s) == t, "the name maps back to the type")
	sym.Reach("end")
}

// Distinct: different types never share a name.
func Distinct() {
	a, b := sym.U16("a"), sym.U16("b")
	sym.Assume(a != b)
	s, u := btypes.ObjectType(a).String(), btypes.ObjectType(b).String()
	sym.Assert(!ref.Same([]byte(s), []byte(u)), "different types have different names")
	sym.Reach("end")
}

// Foreign: text that is no name does not crash.
func Foreign() {
	s := sym.Str("s", sym.Choose("n", 14))
	if sym.Choose("prefix", 2) == 1 {
		s = "Unknown (" + s
	}
	btypes.GetType(s)
	sym.Reach("end")
}

func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func object(t uint16, i uint32) btypes.Object {
	o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(t), Instance: btypes.ObjectInstance(i)}}
	o.Name = ascii("name", 2)
	o.Description = ascii("description", 2)
	for k := sym.Choose("properties", 3); k > 0; k-- {
		p := btypes.Property{Type: btypes.PropertyType(sym.U32("property")), ArrayIndex: sym.U32("index"), Priority: btypes.NPDUPriority(sym.Byte("priority"))}
		switch sym.Choose("data", 3) {
		case 1:
			p.Data = ascii("text", 2)
		case 2:
			p.Data = sym.F64("number")
		}
		o.Properties = append(o.Properties, p)
	}
	return o
}

func same(a, b btypes.Object) {
	sym.Assert(a.ID.Type == b.ID.Type && a.ID.Instance == b.ID.Instance, "the object's identifier")
	sym.Assert(ref.Same([]byte(a.Name), []byte(b.Name)) && ref.Same([]byte(a.Description), []byte(b.Description)), "its name and description")
	sym.Assert(len(a.Properties) == len(b.Properties), "its properties")
	for i := range a.Properties {
		p, q := a.Properties[i], b.Properties[i]
		sym.Assert(p.Type == q.Type && p.ArrayIndex == q.ArrayIndex && p.Priority == q.Priority, "every property")
		switch x := p.Data.(type) {
		case string:
			y, ok := q.Data.(string)
			sym.Assert(ok && ref.Same([]byte(x), []byte(y)), "its text")
		case float64:
			y, ok := q.Data.(float64)
			sym.Assert(ok && x == y, "its number")
		default:
			sym.Assert(q.Data == nil, "no data")
		}
	}
}

func roundTrip(m btypes.ObjectMap, types []uint16, insts []uint32, into btypes.ObjectMap) {
	b, err := json.Marshal(m)
	if err != nil {
		// numbers that JSON has no form for
		for _, sub := range m {
			for _, o := range sub {
				for _, p := range o.Properties {
					if x, ok := p.Data.(float64); ok && (x-x != 0) {
						return
					}
				}
			}
		}
		sym.Fail("storing the map fails")
	}
	got := into
	sym.Assert(json.Unmarshal(b, &got) == nil, "loading it again")
	sym.Assert(got.Len() == m.Len(), "as many objects")
	for i := range types {
		t, n := btypes.ObjectType(types[i]), btypes.ObjectInstance(insts[i])
		g, ok := got[t][n]
		sym.Assert(ok, "every object under its type and instance")
		same(m[t][n], g)
	}
	sym.Reach("end")
}

// One object of any type, with any contents.
func One() {
	t, i := sym.U16("type"), sym.U32("instance")
	m := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): object(t, i)}}
	into := []btypes.ObjectMap{nil, {}}[sym.Choose("into", 2)]
	roundTrip(m, []uint16{t}, []uint32{i}, into)
}

// Several objects of any types and instances, the types equal or not.
func Several() {
	m := btypes.ObjectMap{}
	var types []uint16
	var insts []uint32
	n := sym.Bound("objects", 2, 3)
	for k := 0; k < n; k++ {
		t, i := sym.U16("type"), sym.U32("instance")
		o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(t), Instance: btypes.ObjectInstance(i)}, Name: string([]byte{'a' + byte(k)})}
		if m[btypes.ObjectType(t)] == nil {
			m[btypes.ObjectType(t)] = map[btypes.ObjectInstance]btypes.Object{}
		}
		m[btypes.ObjectType(t)][btypes.ObjectInstance(i)] = o
		types, insts = append(types, t), append(insts, i)
	}
	roundTrip(m, types, insts, nil)
}

// Empty maps, and a type without objects.
func Empty() {
	m := []btypes.ObjectMap{{}, {2: {}}}[sym.Choose("map", 2)]
	b, err := json.Marshal(m)
	sym.Assert(err == nil, "storing")
	var got btypes.ObjectMap
	sym.Assert(json.Unmarshal(b, &got) == nil && got.Len() == 0, "loading")
	sym.Reach("end")
}

// Malformed: text that is no object map is an error, not a crash.
func Malformed() {
	txt := []string{"", "{", "[]", "3", `"x"`, `{"AnalogInput":3}`, `{"AnalogInput":{"x":{}}}`, `{"AnalogInput":{"1":3}}`, `{"AnalogInput":{"-1":{}}}`}
	var got btypes.ObjectMap
	err := json.Unmarshal([]byte(txt[sym.Choose("text", len(txt))]), &got)
	sym.Observe("error", err != nil)
	sym.Assert(err != nil, "refused")
	sym.Reach("end")
}
