// Package c45: optional values and paths below the home directory.
package c45

import (
	"os"

	"github.com/NubeDev/bacnet/helpers/homedir"
	"github.com/NubeDev/bacnet/helpers/nils"
	"github.com/NubeDev/bacnet/zzverif/ref"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// Text: an optional text is the text it was made of, a missing one is empty and recognised.
func Text() {
	s, t := sym.Str("text", sym.Choose("length", sym.Bound("text length", 3, 6))), sym.Str("other", 2)
	p, q := nils.NewString(s), nils.NewString(t)
	sym.Assert(p != nil && q != nil && p != q, "every optional text is one of its own")
	sym.Assert(nils.StringIsNil(p) == s && nils.StringIsNil(q) == t, "the text is the one given")
	sym.Assert(!nils.StringNilCheck(p), "a text is there")
	*q = "x"
	sym.Assert(*p == s, "changing one leaves the other")
	sym.Assert(nils.StringIsNil(nil) == "" && nils.StringNilCheck(nil), "a missing text is empty")
	sym.Reach("end")
}

// Numbers of every kind.
func Numbers() {
	i, j := int(sym.I32("int")), int(sym.I32("int2"))
	p, q := nils.NewInt(i), nils.NewInt(j)
	sym.Assert(p != nil && q != nil && p != q && nils.IntIsNil(p) == i && nils.IntIsNil(q) == j, "int")
	sym.Assert(!nils.IntNilCheck(p) && nils.IntNilCheck(nil) && nils.IntIsNil(nil) == 0, "int missing")
	u, v := sym.U16("u16"), sym.U16("v16")
	pu, pv := nils.NewUint16(u), nils.NewUint16(v)
	sym.Assert(pu != nil && pv != nil && pu != pv && *pu == u && nils.Unit16IsNil(pu) == u && nils.Unit16IsNil(pv) == v && nils.Unit16IsNil(nil) == 0, "uint16")
	w, x := sym.U32("u32"), sym.U32("v32")
	pw, px := nils.NewUint32(w), nils.NewUint32(x)
	sym.Assert(pw != nil && px != nil && pw != px && nils.Unit32IsNil(pw) == w && nils.Unit32IsNil(px) == x && nils.Unit32IsNil(nil) == 0, "uint32")
	sym.Assert(!nils.Unit32NilCheck(pw) && nils.Unit32NilCheck(nil), "uint32 missing")
	y := uint(sym.U64("uint"))
	sym.Assert(nils.UnitIsNil(&y) == y && nils.UnitIsNil(nil) == 0, "uint")
	sym.Reach("end")
}

// Reals, infinities included.
func Reals() {
	a, b := sym.F32("f32"), sym.F32("g32")
	sym.Assume(a == a && b == b)
	p, q := nils.NewFloat32(a), nils.NewFloat32(b)
	sym.Assert(p != nil && q != nil && p != q && nils.Float32IsNil(p) == a && nils.Float32IsNil(q) == b && nils.Float32IsNil(nil) == 0, "float32")
	c, d := sym.F64("f64"), sym.F64("g64")
	sym.Assume(c == c && d == d)
	r, s := nils.NewFloat64(c), nils.NewFloat64(d)
	sym.Assert(r != nil && s != nil && r != s && nils.Float64IsNil(r) == c && nils.Float64IsNil(s) == d && nils.Float64IsNil(nil) == 0, "float64")
	sym.Assert(!nils.FloatIsNilCheck(r) && nils.FloatIsNilCheck(nil), "float64 missing")
	sym.Reach("end")
}

// Bools.
func Bools() {
	a := sym.Bool("bool")
	p, q := nils.NewBool(a), nils.NewBool(!a)
	sym.Assert(p != nil && q != nil && p != q && nils.BoolIsNil(p) == a && nils.BoolIsNil(q) == !a, "bool")
	sym.Assert(!nils.BoolNilCheck(p) && nils.BoolNilCheck(nil) && !nils.BoolIsNil(nil), "bool missing")
	t, f := nils.NewTrue(), nils.NewFalse()
	sym.Assert(t != nil && f != nil && t != nils.NewTrue() && f != nils.NewFalse() && *t && !*f, "constants")
	*t, *f = false, true
	sym.Assert(*nils.NewTrue() && !*nils.NewFalse(), "changing one does not change those made later")
	sym.Reach("end")
}

// home sets the home directory and makes the package look again.
func home(dir string) {
	os.Setenv("HOME", dir)
	homedir.Reset()
}

// Plain paths, those that do not begin with a tilde, stay as they are.
func Plain() {
	home("/home/me")
	s := sym.Str("path", sym.Choose("length", sym.Bound("path length", 6, 9)))
	sym.Assume(s == "" || s[0] != '~')
	p, err := homedir.Expand(s)
	sym.Assert(err == nil && p == s, "the path stays as it is")
	sym.Reach("end")
}

// Tilde: the home directory of the user, and nobody else's, takes the place of the tilde.
func Tilde() {
	home("/home/me")
	rest := sym.Bytes("rest", sym.Choose("length", sym.Bound("octets after the tilde", 5, 7)))
	p, err := homedir.Expand("~" + string(rest))
	if len(rest) == 0 {
		sym.Assert(err == nil && p == "/home/me", "the home directory")
		sym.Reach("home")
		return
	}
	if rest[0] != '/' && rest[0] != '\\' {
		sym.Assert(err != nil && p == "", "other users' directories are refused")
		sym.Reach("other")
		return
	}
	sym.Assert(err == nil, "a path below the home directory is expanded")
	if rest[0] != '/' {
		return
	}
	// names without a dot, separated by any number of slashes
	want := []byte("/home/me")
	for i, c := range rest {
		if c == '.' {
			return
		}
		if c != '/' {
			if rest[i-1] == '/' {
				want = append(want, '/')
			}
			want = append(want, c)
		}
	}
	sym.Assert(len(p) == len(want) && ref.Same([]byte(p), want), "the path is below the home directory")
	sym.Reach("below")
}

// Remembered: the home directory stays the same until it is looked up anew.
func Remembered() {
	a, b := "/a"+string(letters("first", 2)), "/b"+string(letters("second", 1))
	home(a)
	d, err := homedir.Dir()
	sym.Assert(err == nil && d == a, "the home directory")
	os.Setenv("HOME", b)
	d, err = homedir.Dir()
	sym.Assert(err == nil && d == a, "it is remembered")
	homedir.DisableCache = true
	d, err = homedir.Dir()
	homedir.DisableCache = false
	sym.Assert(err == nil && d == b, "unless that is not wanted")
	os.Setenv("HOME", a)
	homedir.Reset()
	d, err = homedir.Dir()
	sym.Assert(err == nil && d == a, "it is looked up anew")
	sym.Reach("end")
}

func letters(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c >= 'a' && c <= 'z')
	}
	return b
}

// Together: lookups and resets at the same time neither block nor disturb each other.
func Together() {
	home("/home/me")
	sym.Preempt(2, 0)
	sym.Race()
	done := make(chan bool, 3)
	for i := 0; i < 2; i++ {
		go func() {
			d, err := homedir.Dir()
			done <- err == nil && d == "/home/me"
		}()
	}
	go func() {
		homedir.Reset()
		p, err := homedir.Expand("~/x")
		done <- err == nil && p == "/home/me/x"
	}()
	for i := 0; i < 3; i++ {
		sym.Assert(<-done, "every lookup finds the home directory")
	}
	sym.Reach("end")
}
