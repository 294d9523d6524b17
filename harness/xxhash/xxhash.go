// Package xxhash stands in for github.com/cespare/xxhash: the hash is an
// uninterpreted function of the content, supplied by the harness.
package xxhash

// Hook is set by the replay runtime.
var Hook func(b []byte) uint64

func Sum64(b []byte) uint64 {
	if Hook == nil {
		return uint64(len(b))
	}
	return Hook(b)
}

func Sum64String(s string) uint64 { return Sum64([]byte(s)) }
