package main

import "unsafe"

// ptrSlice views n elements from an element pointer obtained with SliceData/StringData.
func ptrSlice(f *frame, p, n Value) []Value {
	k := int(f.concInt(n, "unsafe length"))
	pv, _ := p.(*Value)
	if k == 0 || pv == nil {
		return []Value{}
	}
	return unsafe.Slice(pv, k)
}
