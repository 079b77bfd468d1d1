// Package c44: validation accepts exactly what is valid.
package c44

import (
	"github.com/NubeDev/bacnet/helpers/validation"
	"github.com/NubeDev/bacnet/zzverif/sym"
)

// Port accepts the numbers 0 to 65535.
func Port() {
	sym.Assert(validation.ValidPort(int(sym.U16("port"))), "a port is valid")
	sym.Reach("end")
}

// NoPort: other numbers are refused.
func NoPort() {
	n := 65536 + int(sym.U16("port"))
	if sym.Choose("negative", 2) == 1 {
		n = -1 - int(sym.U16("port"))
	}
	sym.Assert(!validation.ValidPort(n), "what is no port is invalid")
	sym.Reach("end")
}

// digits appends v in decimal.
func digits(s []byte, v byte) []byte {
	if v >= 100 {
		s = append(s, '0'+v/100)
	}
	if v >= 10 {
		s = append(s, '0'+v/10%10)
	}
	return append(s, '0'+v%10)
}

func quad(q []byte) string {
	var s []byte
	for i, b := range q {
		if i > 0 {
			s = append(s, '.')
		}
		s = digits(s, b)
	}
	return string(s)
}

// dotted is the reference: four decimal numbers up to 255 without leading zeros.
func dotted(s string) bool {
	q, v, n := 0, 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if n == 0 {
				return false
			}
			q, v, n = q+1, 0, 0
			continue
		}
		c := s[i]
		if c < '0' || c > '9' || n > 0 && v == 0 {
			return false
		}
		v, n = v*10+int(c-'0'), n+1
		if v > 255 {
			return false
		}
	}
	return q == 4
}

// Address: every dotted quad is valid, and with each mask length from 0 to 32.
func Address() {
	s := quad(sym.Bytes("ip", 4))
	switch sym.Choose("what", 4) {
	case 0:
		sym.Assert(validation.ValidIP(s), "a dotted quad is valid")
	case 1:
		sym.Assert(validation.ValidIP(s+"/32"), "a single host is valid")
	case 2:
		sym.Assert(validation.ValidCIDR(s, sym.Choose("mask", 33)), "a mask length up to 32 is valid")
	case 3:
		n := 33 + int(sym.Byte("mask"))
		if sym.Choose("negative", 2) == 1 {
			n = -1 - int(sym.Byte("mask"))
		}
		sym.Assert(!validation.ValidCIDR(s, n), "other mask lengths are invalid")
	}
	sym.Reach("end")
}

// Text: of all text without colons only a dotted quad is an address.
func Text() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("text octets", 8, 9)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '.' && s[i] <= '9' && s[i] != '/' || s[i] == ' ' || s[i] == 'a')
	}
	cidr := sym.Choose("cidr", 2) == 1
	var ok bool
	if cidr {
		ok = validation.ValidCIDR(s, sym.Choose("mask", 2)*24)
	} else {
		ok = validation.ValidIP(s)
	}
	sym.Assert(ok == dotted(s), "valid is what is a dotted quad")
	if ok {
		sym.Reach("valid")
	}
	sym.Reach("end")
}

// Edited: an address with one or two octets put in or overwritten.
func Edited() {
	s := []string{"1.2.3.4", "10.20.30.4", "192.168.100.255"}[sym.Choose("address", 3)]
	for n := 1 + sym.Choose("edits", sym.Bound("edits", 1, 2)); n > 0; n-- {
		c := sym.Str("octet", 1)
		sym.Assume(c[0] != ':' && c[0] != '/')
		at := sym.Choose("at", len(s)+1)
		rest := s[at:]
		if len(rest) > 0 && sym.Choose("overwrite", 2) == 1 {
			rest = rest[1:]
		}
		s = s[:at] + c + rest
	}
	if sym.Choose("cidr", 2) == 1 {
		sym.Assert(validation.ValidCIDR(s, 24) == dotted(s), "valid is what is a dotted quad")
	} else {
		sym.Assert(validation.ValidIP(s) == dotted(s), "valid is what is a dotted quad")
	}
	sym.Reach("end")
}

// Known: texts of other kinds.
func Known() {
	for s, ok := range map[string]bool{
		"": false, "localhost": false, "::1": true, "fe80::1": true, "fe80::1%eth0": false, "1.2.3.4/24": false, "1.2.3.4:47808": false,
		"1.2.3": false, "1.2.3.4.5": false, "01.2.3.4": false, "::ffff:1.2.3.4": true, "2001:db8::": true, "2001:db8::1/128": true,
		"::1/32": false, "1.2.3.4/32/32": false, "g::1": false, ":1": false, "1:2:3:4:5:6:7:8": true, "1:2:3:4:5:6:7:8:9": false,
	} {
		sym.Assert(validation.ValidIP(s) == ok, "whether "+s+" is valid")
	}
	for _, m := range []int{0, 64, 128, 129, -1} {
		sym.Assert(validation.ValidCIDR("2001:db8::1", m) == (m >= 0 && m <= 128), "a mask length of IPv6")
	}
	sym.Reach("end")
}
