// Package c18: error answers report the error class and code the device sent.
package c18

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
	"github.com/NubeDev/bacnet/zzverif/val"
)

func big(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

func decode(b []byte) (a btypes.APDU, err error) {
	d := encoding.NewDecoder(b)
	err = d.APDU(&a)
	sym.Assert((err == nil) == (d.Error() == nil), "the decoder's error and the returned one agree")
	sym.Observe("error", err != nil)
	return
}

// check decodes an Error PDU in both forms.
func check(class, code []byte) {
	invoke, service, low := sym.Byte("invoke"), sym.Byte("service"), sym.Byte("low bits")
	sym.Assume(low < 16)
	body := ref.Cat(ref.App(ref.Enumerated, class), ref.App(ref.Enumerated, code))
	if sym.Choose("wrapped", 2) == 1 {
		n := []byte{0, 1, 7, 14, 20}[sym.Choose("wrapper", 5)]
		body = ref.Cat(ref.Open(n), body, ref.Close(n))
	}
	a, err := decode(ref.Cat([]byte{0x50 | low, invoke, service}, body))
	sym.Assert(err == nil, "an Error PDU is accepted")
	sym.Assert(a.DataType == btypes.Error && a.InvokeId == invoke && byte(a.Service) == service, "invoke id and service")
	sym.Assert(uint32(a.Error.Class) == big(class) && uint32(a.Error.Code) == big(code), "class and code")
	sym.Reach("end")
}

func Sizes() {
	class, code := sym.Bytes("class", 1+sym.Choose("class octets", 2)), sym.Bytes("code", 1+sym.Choose("code octets", 4))
	check(class, code)
}

// WideClass: a class in more octets than it needs.
func WideClass() {
	c := sym.Bytes("class", 2)
	check(ref.Cat(make([]byte, 1+sym.Choose("zeros", 2)), c), []byte{sym.Byte("code")})
}

// Types: anything but two enumerated values is malformed.
func Types() {
	var b []byte
	ok := true
	first := sym.Choose("first", val.Kinds)
	second := val.Enum
	if first == val.Enum {
		second = sym.Choose("second", val.Kinds)
	}
	ok = first == val.Enum && second == val.Enum
	sym.Assume(!ok)
	b = ref.Cat(val.Of("first value", first).Wire, val.Of("second value", second).Wire)
	if sym.Choose("wrapped", 2) == 1 {
		b = ref.Cat(ref.Open(0), b, ref.Close(0))
	}
	_, err := decode(ref.Cat([]byte{0x50, sym.Byte("invoke"), sym.Byte("service")}, b))
	sym.Assert(err != nil, "other values in place of class and code are refused")
	sym.Reach("end")
}

// Truncated: every proper prefix is malformed.
func Truncated() {
	body := ref.Cat(ref.App(ref.Enumerated, sym.Bytes("class", 1+sym.Choose("class octets", 2))), ref.App(ref.Enumerated, sym.Bytes("code", 1+sym.Choose("code octets", 4))))
	if sym.Choose("wrapped", 2) == 1 {
		body = ref.Cat(ref.Open(3), body, ref.Close(3))
	}
	b := ref.Cat([]byte{0x50, sym.Byte("invoke"), sym.Byte("service")}, body)
	n := sym.Choose("n", 16)
	sym.Assume(n < len(b))
	_, err := decode(b[:n])
	sym.Assert(err != nil, "a truncated Error PDU is refused")
	sym.Reach("end")
}

// Unbalanced: a wrapper that is closed with another number or not at all.
func Unbalanced() {
	a, c := byte(sym.Choose("open", 15)), sym.Byte("close")
	sym.Assume(c != a<<4|0x0F)
	_, err := decode(ref.Cat([]byte{0x50, 1, 12}, ref.Open(a), ref.AppEnum(2), ref.AppEnum(31), []byte{c}))
	sym.Assert(err != nil, "a wrapper that is not closed is refused")
	sym.Reach("end")
}

// ContextTags: context tagged values instead of enumerated ones.
func ContextTags() {
	i := sym.Choose("which", 2)
	f := [][]byte{ref.AppEnum(2), ref.AppEnum(31)}
	f[i] = ref.Ctx(byte(sym.Choose("tag", 15)), []byte{sym.Byte("v")})
	_, err := decode(ref.Cat([]byte{0x50, 1, 12}, f[0], f[1]))
	sym.Assert(err != nil, "context tagged values are refused")
	sym.Reach("end")
}

// Again: an error does not depend on those before it.
func Again() {
	Sizes()
	Sizes()
	sym.Reach("again")
}
