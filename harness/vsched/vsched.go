// Package vsched is the cooperative scheduler behind the instrumented build.
// The solver-based engine replaces Yield; natively the same scheduling
// decisions are replayed.
package vsched

import "unsafe"

// StoreSlice, StoreString and StoreIface write a value of several words as a plain
// assignment does: others may see the new value of one word together with the
// old value of another, whichever it is.
func StoreSlice(dst, src unsafe.Pointer) {
	type header struct {
		data     unsafe.Pointer
		len, cap int
	}
	d, s := (*header)(dst), (*header)(src)
	old := *d
	d.len, d.cap = s.len, s.cap
	Yield()
	d.data, d.len, d.cap = s.data, old.len, old.cap
	Yield()
	d.len, d.cap = s.len, s.cap
}

func StoreString(dst, src unsafe.Pointer) {
	type header struct {
		data unsafe.Pointer
		len  int
	}
	d, s := (*header)(dst), (*header)(src)
	old := *d
	d.len = s.len
	Yield()
	d.data, d.len = s.data, old.len
	Yield()
	d.len = s.len
}

func StoreIface(dst, src unsafe.Pointer) {
	type iface struct {
		typ, data unsafe.Pointer
	}
	d, s := (*iface)(dst), (*iface)(src)
	old := *d
	d.typ = s.typ
	Yield()
	d.data, d.typ = s.data, old.typ
	Yield()
	d.typ = s.typ
}

var (
	YieldHook func()
	BlockHook func(ready func() bool)
)

// Yield marks a scheduling point.
func Yield() {
	if YieldHook != nil {
		YieldHook()
	}
}

// Mutex replaces sync.Mutex in instrumented code; the state word comes first,
// as in sync.Mutex.
type Mutex struct {
	state int32
	sema  uint32
}

func (m *Mutex) Lock() {
	for m.state != 0 {
		if BlockHook == nil {
			panic("vsched: deadlock")
		}
		BlockHook(func() bool { return m.state == 0 })
	}
	m.state = 1
}

func (m *Mutex) TryLock() bool {
	if m.state != 0 {
		return false
	}
	m.state = 1
	return true
}

func (m *Mutex) Unlock() {
	if m.state == 0 {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.state = 0
}

// RWMutex replaces sync.RWMutex: the writer flag at offset 0, the number of
// readers at offset 16, where the engine keeps them.
type RWMutex struct {
	state   int32
	waiting uint32 // writers; they keep new readers out
	_       [8]byte
	readers uint32
	_       uint32
}

func (m *RWMutex) Lock() {
	for m.state != 0 || m.readers != 0 {
		if BlockHook == nil {
			panic("vsched: deadlock")
		}
		m.waiting++
		BlockHook(func() bool { return m.state == 0 && m.readers == 0 })
		m.waiting--
	}
	m.state = 1
}

func (m *RWMutex) TryLock() bool {
	if m.state != 0 || m.readers != 0 {
		return false
	}
	m.state = 1
	return true
}

func (m *RWMutex) Unlock() {
	if m.state == 0 {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.state = 0
}

func (m *RWMutex) RLock() {
	for m.state != 0 || m.waiting != 0 {
		if BlockHook == nil {
			panic("vsched: deadlock")
		}
		BlockHook(func() bool { return m.state == 0 && m.waiting == 0 })
	}
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}
