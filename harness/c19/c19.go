// Package c19: bit strings give back exactly the bits stored and never crash.
package c19

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// Set: a sequence of writes on a string of any size against a plain list of bits.
func Set() {
	n := sym.Choose("size", 16)
	bs := btypes.NewBitString(n)
	var model [128]bool
	used := 0
	for i := 0; i < sym.Bound("writes", 2, 3); i++ {
		bit, v := sym.Byte("bit"), sym.Bool("value")
		bs.SetBit(bit, v)
		if int(bit) < 8*n {
			model[bit] = v
			if int(bit)+1 > used {
				used = int(bit) + 1
			}
		}
		sym.Assert(int(bs.BitUsed) == used && int(bs.GetBitUsed()) == used, "one more than the highest bit ever set")
		sym.Assert(int(bs.BytesUsed()) == (used+7)/8, "octets used")
	}
	q := sym.Byte("query")
	want := int(q) < 8*n && model[q&127]
	sym.Assert(bs.Bit(q) == want, "reading returns the last value written")
	sym.Assert(int(bs.BitsCapacity()) == 8*n, "capacity")
	sym.Reach("end")
}

// Content: one write on a string with any content and any number of used bits.
func Content() {
	n := sym.Choose("size", sym.Bound("octets with any content", 4, 15)+1)
	bs := &btypes.BitString{Value: sym.Bytes("content", n), BitUsed: sym.Byte("used")}
	sym.Assume(int(bs.BitUsed) <= 8*n)
	used := bs.BitUsed
	bit, v, q := sym.Byte("bit"), sym.Bool("value"), sym.Byte("query")
	before := bs.Bit(q)
	bs.SetBit(bit, v)
	want := before
	if q == bit && int(bit) < 8*n {
		want = v
	}
	sym.Assert(bs.Bit(q) == want, "that bit only")
	if int(bit) < 8*n && bit >= used {
		used = bit + 1
	}
	sym.Assert(bs.BitUsed == used, "used bits")
	sym.Reach("end")
}

// Values: the list has exactly the used bits.
func Values() {
	n := sym.Choose("size", sym.Bound("octets listed", 2, 3)+1)
	used := sym.Choose("used", 8*n+1)
	bs := &btypes.BitString{Value: make([]byte, n), BitUsed: uint8(used)}
	k := sym.Choose("octet", n+1)
	if k < n {
		bs.Value[k] = sym.Byte("content")
	}
	l := bs.GetValue()
	sym.Assert(len(l) == used, "as many values as used bits")
	i := sym.Choose("i", 8*n+1)
	if i < used {
		sym.Assert(l[i] == bs.Bit(uint8(i)), "the bits in order")
	}
	sym.Reach("end")
}

// AllValues: the greatest strings, one octet variable.
func AllValues() {
	bs := btypes.NewBitString(15)
	for i := range bs.Value {
		bs.Value[i] = 0xA5 >> uint(i%3)
	}
	bs.Value[[]int{0, 7, 14}[sym.Choose("octet", 3)]] = sym.Byte("content")
	used := []int{113, 119, 120}[sym.Choose("used", 3)]
	bs.BitUsed = uint8(used)
	l := bs.GetValue()
	sym.Assert(len(l) == used, "as many values as used bits")
	for i := range l {
		sym.Assert(l[i] == (bs.Value[i/8]>>uint(i%8)&1 == 1), "the bits in order")
	}
	sym.Reach("end")
}

// Octets: storing and reading whole octets.
func Octets() {
	n := sym.Choose("size", 16)
	bs := btypes.NewBitString(n)
	i, x, j := sym.Byte("index"), sym.Byte("octet"), sym.Byte("query")
	ok := bs.SetByte(i, x)
	sym.Assert(ok == (int(i) < n), "an octet outside is not stored")
	want := byte(0)
	if ok && i == j {
		want = x
	}
	sym.Assert(bs.Byte(j) == want, "the octet as stored")
	k := sym.Byte("bit")
	if int(k) < 8*n {
		b := byte(0)
		if ok && k/8 == i {
			b = x
		}
		sym.Assert(bs.Bit(k) == (b>>(k%8)&1 == 1), "its bits")
	}
	used, unused := sym.Byte("bytes used"), sym.Byte("bits unused")
	sym.Assume(int(used) <= n && unused < 8 && (used > 0 || unused == 0))
	sym.Assert(bs.SetBitsUsed(used, unused) && bs.BitUsed == used*8-unused, "used bits")
	sym.Assert(bs.BytesUsed() == used || unused > 0 && bs.BytesUsed() <= used, "used octets")
	sym.Reach("end")
}

// AnyState: no operation crashes, whatever the fields hold.
func AnyState() {
	n := sym.Choose("size", 17)
	bs := btypes.NewBitString(n)
	bs.BitUsed = sym.Byte("used")
	if sym.Choose("nil value", 2) == 1 {
		bs.Value = nil
	}
	i := sym.Byte("i")
	switch sym.Choose("operation", 9) {
	case 0:
		bs.SetBit(i, sym.Bool("v"))
	case 1:
		bs.Bit(i)
	case 2:
		bs.SetByte(i, sym.Byte("v"))
	case 3:
		bs.Byte(i)
	case 4:
		bs.SetBitsUsed(i, sym.Byte("v"))
	case 5:
		bs.BytesUsed()
	case 6:
		bs.BitsCapacity()
	case 7:
		sym.Assume(bs.BitUsed > 240 || bs.BitUsed < 5)
		sym.Assert(len(bs.GetValue()) == int(bs.BitUsed), "as many values as used bits")
	case 8:
		sym.Assume(bs.BitUsed == 250 || bs.BitUsed < 3)
		sym.Assert(len(bs.String()) > 0, "printing works")
	}
	sym.Reach("end")
}

// Nil: the operations that accept no bit string at all.
func Nil() {
	var bs *btypes.BitString
	i := sym.Byte("i")
	sym.Assert(bs.BytesUsed() == 0 && bs.Byte(i) == 0 && !bs.SetByte(i, i) && !bs.SetBitsUsed(i, i) && bs.BitsCapacity() == 0, "no bit string")
	sym.Reach("end")
}

// Size: any size gives a usable string of at most 15 octets.
func Size() {
	n := sym.Int("size", -3, 300)
	bs := btypes.NewBitString(n)
	want := n
	if want < 0 {
		want = 0
	}
	if want > 15 {
		want = 15
	}
	sym.Assert(len(bs.Value) == want && bs.BitUsed == 0, "the size asked for, within the limits")
	sym.Reach("end")
}
