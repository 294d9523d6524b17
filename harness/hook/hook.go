// Package hook carries the replacement of runtime.memhash in replay builds.
package hook

import "unsafe"

// Fn is set by the replay runtime.
var Fn func(seed uint64, b []byte) uint64

func Memhash(p unsafe.Pointer, h, s uintptr) uintptr {
	b := make([]byte, int(s))
	for i := range b {
		b[i] = *(*byte)(unsafe.Pointer(uintptr(p) + uintptr(i)))
	}
	if Fn == nil {
		return 0
	}
	return uintptr(Fn(uint64(h), b))
}
