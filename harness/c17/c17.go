// Package c17: Who-Is and I-Am carry the exact range and device data.
package c17

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

const maxInstance = 0x3FFFFF

func whois(b []byte) (lo, hi int32, err error) {
	lo, hi = 77, 78
	d := encoding.NewDecoder(b)
	err = d.WhoIs(&lo, &hi)
	sym.Assert((err == nil) == (d.Error() == nil), "the decoder's error and the returned one agree")
	if err == nil {
		sym.Assert(len(d.Bytes()) == 0, "nothing is left")
	}
	return
}

// WhoIs: limits in range are sent exactly, otherwise none.
func WhoIs() {
	lo, hi := sym.I32("low"), sym.I32("high")
	e := encoding.NewEncoder()
	sym.Assert(e.WhoIs(lo, hi) == nil && e.Error() == nil, "a Who-Is is encoded")
	b := e.Bytes()
	sym.Observe("bytes", b)
	limited := ref.Cat([]byte{0x10, 8}, ref.Ctx(0, ref.Uint(uint32(lo))), ref.Ctx(1, ref.Uint(uint32(hi))))
	var a btypes.APDU
	d := encoding.NewDecoder(b)
	sym.Assert(d.APDU(&a) == nil && a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedWhoIs, "its header decodes back")
	l, h, err := whois(a.RawData)
	sym.Assert(err == nil, "it decodes back")
	switch {
	case lo < 0 || hi < 0 || lo > maxInstance || hi > maxInstance:
		sym.Assert(ref.Same(b, []byte{0x10, 8}), "no limits")
		sym.Assert(l < 0 && h < 0, "an unlimited range")
		sym.Reach("unlimited")
	case lo < maxInstance && hi < maxInstance || len(b) > 2:
		sym.Assert(ref.Same(b, limited), "exactly the limits")
		sym.Assert(l == lo && h == hi, "the same limits")
		sym.Reach("limited")
	default: // the greatest instance, a wildcard, as a limit: everyone
		sym.Assert(ref.Same(b, []byte{0x10, 8}), "no limits")
		sym.Assert(l < 0 && h < 0, "an unlimited range")
	}
}

// Decode: limits of 1 to 4 octets.
func Decode() {
	lo, hi := sym.Bytes("low", 1+sym.Choose("low octets", 4)), sym.Bytes("high", 1+sym.Choose("high octets", 4))
	l, h, err := whois(ref.Cat(ref.Ctx(0, lo), ref.Ctx(1, hi)))
	if big(lo) > maxInstance || big(hi) > maxInstance {
		sym.Assert(err != nil, "limits out of range are refused")
		return
	}
	sym.Assert(err == nil && l == int32(big(lo)) && h == int32(big(hi)), "the limits as sent")
	sym.Reach("end")
}

func big(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

func Unlimited() {
	l, h, err := whois(nil)
	sym.Assert(err == nil && l < 0 && h < 0, "an unlimited range")
	sym.Reach("end")
}

// WrongTags: other tags in place of the limits.
func WrongTags() {
	t, u := sym.Byte("first tag"), sym.Byte("second tag")
	ok := t>>3 == 1 && u>>3 == 3
	sym.Assume(!ok && t&7 == 1 && u&7 == 1)
	_, _, err := whois([]byte{t, sym.Byte("low"), u, sym.Byte("high")})
	sym.Assert(err != nil, "limits with other tags are refused")
	sym.Reach("end")
}

// One limit only.
func OneLimit() {
	b := ref.Ctx(byte(sym.Choose("tag", 2)), sym.Bytes("b", 1+sym.Choose("n", 4)))
	_, _, err := whois(b)
	sym.Assert(err != nil, "a single limit is refused")
	sym.Reach("end")
}

// IAm: all device data.
func IAm() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	apdu, seg, vendor := sym.U32("apdu"), sym.U32("segmentation"), sym.U32("vendor")
	sym.Assume(typ <= 1023 && inst <= maxInstance)
	in := btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}, MaxApdu: apdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor}
	e := encoding.NewEncoder()
	sym.Assert(e.IAm(in) == nil && e.Error() == nil, "an I-Am is encoded")
	want := ref.Cat([]byte{0x10, 0}, ref.AppID(typ, inst), ref.AppUint(apdu), ref.AppEnum(seg), ref.AppUint(vendor))
	sym.Observe("bytes", e.Bytes())
	sym.Assert(ref.Same(e.Bytes(), want), "the octets are the standard's")
	d := encoding.NewDecoder(e.Bytes())
	var a btypes.APDU
	sym.Assert(d.APDU(&a) == nil && a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedIAm, "its header decodes back")
	d = encoding.NewDecoder(a.RawData)
	var out btypes.IAm
	sym.Assert(d.IAm(&out) == nil && d.Error() == nil, "it decodes back")
	sym.Assert(out.ID == in.ID && out.MaxApdu == apdu && uint32(out.Segmentation) == seg && out.Vendor == vendor, "the same data")
	sym.Reach("end")
}

// IAmRefused: an identifier that cannot be expressed.
func IAmRefused() {
	typ, inst := sym.U16("type"), sym.U32("instance")
	sym.Assume(typ > 1023 || inst > maxInstance)
	e := encoding.NewEncoder()
	sym.Assert(e.IAm(btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(inst)}}) != nil, "refused")
	sym.Reach("end")
}

// Fields: every combination of field types; only the right one is accepted, and a field more or less is not.
func Fields() {
	right := []int{val.ObjectID, val.Uint, val.Enum, val.Uint}
	n := sym.Choose("fields", 5)
	ok := n == 4
	var b []byte
	for i := 0; i < n; i++ {
		v := val.Any("field", val.Kinds)
		if v.Kind != right[i] {
			ok = false
		}
		b = append(b, v.Wire...)
		if !ok && n == 4 && i < 3 { // the rest is as it should be
			for i++; i < 4; i++ {
				b = append(b, val.Of("rest", right[i]).Wire...)
			}
		}
	}
	d := encoding.NewDecoder(b)
	var out btypes.IAm
	err := d.IAm(&out)
	sym.Assert((err == nil) == ok, "exactly the fields of an I-Am are accepted")
	sym.Assert((err == nil) == (d.Error() == nil), "the decoder's error and the returned one agree")
	sym.Reach("end")
}

// ContextFields: context tags instead of application tags.
func ContextFields() {
	f := [][]byte{ref.AppID(8, 5), ref.AppUint(480), ref.AppEnum(3), ref.AppUint(9)}
	i := sym.Choose("field", 4)
	f[i] = append([]byte{f[i][0] | 8}, f[i][1:]...)
	d := encoding.NewDecoder(ref.Cat(f...))
	var out btypes.IAm
	sym.Assert(d.IAm(&out) != nil, "a context tagged field is refused")
	sym.Reach("end")
}

// Again: a message does not depend on those before it.
func Again() {
	switch sym.Choose("kind", 3) {
	case 0:
		WhoIs()
		WhoIs()
	case 1:
		Decode()
		Decode()
	case 2:
		IAm()
		IAm()
	}
	sym.Reach("again")
}
