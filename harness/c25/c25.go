// Package c25: units, error codes, properties and services keep their standard names and numbers.
package c25

import (
	"strconv"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/services"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

func same(a, b string) bool { return ref.Same([]byte(a), []byte(b)) }

// named: a number prints as the name the table gives it; numbers without a name print with the number.
func named(s string, n uint64, table []string) {
	if n < uint64(len(table)) && table[n] != "" {
		sym.Assert(same(s, table[n]), "the number has its standard name")
		return
	}
	sym.Assert(strings.Contains(s, strconv.FormatUint(n, 10)), "a number without a name is printed itself")
}

// number: all numbers below some thousand and those around larger powers of two.
func number(name string, more []uint32) uint32 {
	blocks := []uint32{0xFF}
	blocks = append(blocks, more...)
	k := uint32(sym.Bound("(largest number + 1) / 256", 5, 200))
	b := uint32(sym.Choose(name+" / 256", int(k)+len(blocks)))
	if b >= k {
		b = blocks[b-k]
	}
	return b<<8 | uint32(sym.Byte(name+" mod 256"))
}

// Units: every engineering unit.
func Units() {
	n := number("unit", []uint32{0x100, 0x1000, 0xFFFFFF}) // all the 32 bits an enumerated value has
	named(units.Unit(n).String(), uint64(n), unitNames[:])
	sym.Reach("end")
}

// Errors: every error class and code.
func Errors() {
	if sym.Choose("what", 2) == 0 {
		n := number("code", []uint32{0x100, 0x1000, 0xFFFFFF})
		named(bacerr.ErrorCode(n).String(), uint64(n), codeNames[:])
	} else {
		n := number("class", nil)
		named(bacerr.ErrorClass(n).String(), uint64(n), classNames[:])
	}
	sym.Reach("end")
}

// Wide: no number above those crashes.
func Wide() {
	switch sym.Choose("what", 3) {
	case 0:
		n := sym.U32("code")
		sym.Assume(n > 136)
		sym.Assert(len(bacerr.ErrorCode(n).String()) > 0, "an error code prints")
	case 1:
		n := sym.U16("class")
		sym.Assume(n > 7)
		sym.Assert(len(bacerr.ErrorClass(n).String()) > 0, "an error class prints")
	default:
		n := sym.U32("unit")
		sym.Assume(n > 236)
		sym.Assert(len(units.Unit(n).String()) > 0, "a unit prints")
	}
	sym.Reach("end")
}

var segmentationNames = []string{"SegmentedBoth", "SegmentedTransmit", "SegmentedReceive", "NoSegmentation"}

// Small: segmentation and network message types.
func Small() {
	n := sym.Byte("n")
	named(segmentation.SegmentedType(n).String(), uint64(n), segmentationNames)
	messages := make([]string, 0x14)
	messages[0], messages[1] = "WhoIsRouterToNetwork", "IamRouterToNetwork"
	messages[0x12], messages[0x13] = "WhatIsNetworkNumber", "NetworkIs"
	named(ndpu.NetworkMessageType(n).String(), uint64(n), messages)
	sym.Reach("end")
}

// known lists the properties with a name and their standard numbers.
var known = []struct {
	key string
	n   uint32
}{
	{"AllProperties", 8}, {"Description", 28}, {"FileSize", 42}, {"FileType", 43}, {"ModelName", 70},
	{"ObjectIdentifier", 75}, {"ObjectList", 76}, {"ObjectName", 77}, {"ObjectReference", 78},
	{"ObjectType", 79}, {"PresentValue", 85}, {"PriorityArray", 87}, {"Units", 117},
}

// Properties: names and numbers of properties belong together.
func Properties() {
	p := sym.U32("property")
	s := btypes.String(btypes.PropertyType(p))
	sym.Observe("name", s)
	for _, k := range known {
		if p != k.n {
			continue
		}
		v, err := btypes.Get(k.key)
		sym.Assert(err == nil && uint32(v) == k.n, "the key gives the property's number")
		sym.Assert(strings.HasSuffix(s, " ("+strconv.FormatUint(uint64(k.n), 10)+")"), "the printed name ends in the number")
		sym.Assert(strings.Contains(strings.ReplaceAll(s, " ", ""), k.key), "the printed name is that of the key")
		sym.Reach("known")
		return
	}
	sym.Assert(s == "Unknown", "a property without a name is unknown")
	sym.Reach("unknown")
}

// Keys: text that is no key is refused; the table handed out is a copy.
func Keys() {
	i := sym.Choose("key", len(known)+2)
	var s string
	if i < len(known) {
		// one octet of a key changed
		b := []byte(known[i].key)
		b[sym.Int("at", 0, len(b)-1)] = sym.Byte("octet")
		s = string(b)
	} else {
		s = sym.Str("s", sym.Choose("n", 10))
	}
	keys := btypes.Keys()
	sym.Assert(len(keys) == len(known), "every key is listed")
	v, err := btypes.Get(s)
	w, listed := keys[s]
	sym.Assert((err == nil) == listed && v == w, "exactly the listed keys are accepted")
	hit := false
	for _, k := range known {
		if same(k.key, s) {
			hit = true
			sym.Assert(listed && uint32(w) == k.n, "a key is listed with its number")
		}
	}
	sym.Assert(hit == listed, "nothing else is listed")
	for k := range keys {
		keys[k] = btypes.PropertyType(sym.U32("other"))
	}
	keys[s] = 1
	u, err2 := btypes.Get(s)
	sym.Assert((err2 == nil) == listed && u == v, "changing the listing changes nothing")
	sym.Reach("end")
}

// Device: only the object list belongs to the device itself.
func Device() {
	p := sym.U32("property")
	sym.Assert(btypes.IsDeviceProperty(btypes.PropertyType(p)) == (p == 76), "the object list is the device property")
	sym.Reach("end")
}

// service numbers of ASHRAE 135's BACnetServicesSupported; "" where the library names none.
var serviceNames = [...]string{
	0: "acknowledgeAlarm", 1: "confirmedCOVNotification", 2: "confirmedEventNotification", 3: "getAlarmSummary",
	4: "getEnrollmentSummary", 5: "subscribeCOV", 6: "atomicReadFile", 7: "atomicWriteFile", 8: "addListElement",
	9: "removeListElement", 10: "createObject", 11: "deleteObject", 12: "readProperty", 14: "readPropertyMultiple",
	15: "writeProperty", 16: "writePropertyMultiple", 17: "deviceCommunicationControl", 18: "confirmedPrivateTransfer",
	19: "confirmedTextMessage", 20: "reinitializeDevice", 21: "vtOpen", 22: "vtClose", 23: "vtData", 26: "iAm",
	27: "iHave", 28: "unconfirmedCOVNotification", 29: "unconfirmedEventNotification", 30: "unconfirmedPrivateTransfer",
	31: "unconfirmedTextMessage", 32: "timeSynchronization", 33: "whoHas", 34: "whoIs", 35: "readRange",
	36: "utcTimeSynchronization", 37: "lifeSafetyOperation", 38: "subscribeCOVProperty", 39: "getEventInformation",
	40: "writeGroup",
}

// Services: each service is found by its name and carries its standard number.
func Services() {
	var all services.Supported
	n := sym.Choose("service", len(serviceNames)+1)
	if n == len(serviceNames) {
		s := sym.Str("s", sym.Choose("n", 8))
		t := all.GetType(s)
		for _, name := range serviceNames {
			if name != "" && same(name, s) {
				sym.Assert(t != nil, "a known name is found")
				return
			}
		}
		sym.Assert(t == nil, "an unknown name is not found")
		sym.Reach("unknown")
		return
	}
	if serviceNames[n] == "" {
		for t := range all.ListAll() {
			sym.Assert(int(t.Number) != n, "no service has the number")
		}
		return
	}
	t := all.GetType(serviceNames[n])
	sym.Assert(t != nil, "a service is found by its name")
	sym.Assert(t.Name == serviceNames[n] && int(t.Number) == n, "the service carries its name and number")
	sym.Assert(!t.Supported, "nothing is supported before it is reported")
	sym.Assert(all.GetString(*t) == serviceNames[n], "the service prints as its name")
	u := *t
	u.Number = sym.U16("number")
	s := all.GetString(u)
	sym.Assert((s == serviceNames[n]) == (u.Number == t.Number), "a service that is none is printed as unknown")
	others := 0
	for o := range all.ListAll() {
		if o.Number == t.Number || o.Index == t.Index || o.Name == t.Name {
			others++
		}
	}
	sym.Assert(others == 1, "number, position and name belong to one service")
	sym.Reach("known")
}

// Print: the text of a multiple-property answer names every object and property, whatever it holds.
func Print() {
	n := sym.Choose("objects", 3)
	var d btypes.MultiplePropertyData
	var want []string
	for i := 0; i < n; i++ {
		o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(7 * i), Instance: btypes.ObjectInstance(31 + i)}}
		want = append(want, o.ID.String())
		for j := sym.Choose("properties", 3); j > 0; j-- {
			p := btypes.Property{Type: btypes.PropertyType(75 + i + j)}
			switch sym.Choose("data", 5) {
			case 0:
				p.Data = "text" + strconv.Itoa(j)
				want = append(want, p.Data.(string))
			case 1:
				p.Data = btypes.ObjectID{Type: 2, Instance: 5}
				want = append(want, p.Data.(btypes.ObjectID).String())
			case 2:
				p.Data = []interface{}{sym.Bool("flag"), nil}
			case 3:
				p.Data = uint32(7)
				want = append(want, "7")
			}
			want = append(want, btypes.String(p.Type))
			o.Properties = append(o.Properties, p)
		}
		d.Objects = append(d.Objects, o)
	}
	s := d.String()
	sym.Assert((s == "") == (n == 0), "the answer prints")
	for _, w := range want {
		sym.Assert(strings.Contains(s, w), "the text holds every object, property and value")
	}
	sym.Reach("end")
}
