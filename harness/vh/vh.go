// Package vh is the harness API.  The solver-based engine intercepts these
// functions by name; compiled natively they replay one assignment.
package vh

import (
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"

	"verifharness/hook"
	"verifharness/vsched"

	"github.com/cespare/xxhash"
)

type Replay struct {
	Func   string            `json:"func"`
	Inputs map[string]uint64 `json:"inputs"`
	Params map[string]int    `json:"params"`
	Label  string            `json:"label"`
	Kind   string            `json:"kind"`
}

var (
	rp     Replay
	names  = map[string]int{}
	hashes = map[string][2]uint64{}
	maxPre int
)

// AssertFailed is the panic value of a failed assertion.
type AssertFailed struct{ Label string }
type AssumeFailed struct{}

// Setup installs the assignment to replay.
func Setup(r Replay) {
	rp = r
	hook.Fn = func(seed uint64, b []byte) uint64 {
		if seed == 0 {
			if v, ok := hashes[string(b)]; ok {
				return v[0]
			}
			return rp.Inputs["mh:"+string(b)]
		}
		return rp.Inputs[fmt.Sprintf("mh@%x:%s", seed, b)]
	}
	xxhash.Hook = func(b []byte) uint64 {
		if v, ok := hashes[string(b)]; ok {
			return v[1]
		}
		return rp.Inputs["xx:"+string(b)]
	}
	vsched.YieldHook = yield
	vsched.BlockHook = block
}

func next(name string) uint64 {
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k+1)
	}
	return rp.Inputs[name]
}

func U64(name string) uint64 { return next(name) }
func Byte(name string) byte  { return byte(next(name)) }
func Bool(name string) bool  { return next(name) != 0 }
func Int(name string, lo, hi int) int {
	v := int(next(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choice is a concrete value in [0,n): the engine explores each.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(next(name))
	Assume(v < n)
	return v
}

// Param is a bound fixed by the check's configuration.
func Param(name string, def int) int {
	if v, ok := rp.Params[name]; ok {
		return v
	}
	return def
}

func Concrete(x uint64) uint64 { return x }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(AssertFailed{label})
	}
}

func Reach(label string) {}

// SetHash fixes the two hashes of a key.
func SetHash(key string, mh, xx uint64) { hashes[key] = [2]uint64{mh, xx} }

// Native reports whether the harness runs natively (replay).
func Native() bool { return true }

// RunGC runs the garbage collector (replay only).
func RunGC() {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
}

// Retained reports whether the object at addr is reachable from root through
// pointers the garbage collector follows.
func Retained(root interface{}, addr uintptr) bool { return true }

func MaxPreempt(n int) { maxPre = n }

// ---- cooperative threads

type thread struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool
	fail  interface{}
}

var (
	threads   = []*thread{{id: 0, wake: make(chan struct{}, 1)}}
	cur       int
	par       bool
	yields    int
	since     int
	preempts  int
	parMu     sync.Mutex
	failValue interface{}
)

func spawn(f func()) {
	t := &thread{id: len(threads), wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(AssertFailed); !ok {
					fmt.Fprintf(os.Stderr, "%s\n", stack())
				}
				report(r)
			}
			t.done = true
			switchTo(t, true)
		}()
		f()
	}()
}

// switchTo hands control to the next runnable thread in round-robin order.
func switchTo(t *thread, exiting bool) {
	n := len(threads)
	for i := 1; i <= n; i++ {
		o := threads[(t.id+i)%n]
		if o.done || o.ready != nil && !o.ready() {
			continue
		}
		o.ready = nil
		cur = o.id
		since = 0
		if o == t {
			return
		}
		o.wake <- struct{}{}
		if !exiting {
			<-t.wake
		}
		return
	}
	report("deadlock: all goroutines are blocked")
}

func block(ready func() bool) {
	t := threads[cur]
	t.ready = ready
	switchTo(t, false)
}

func yield() {
	if !par {
		return
	}
	live := 0
	for _, t := range threads[1:] {
		if !t.done {
			live++
		}
	}
	if live < 2 {
		return
	}
	if preempts < maxPre {
		if int(rp.Inputs[fmt.Sprintf("preempt#%d", preempts+1)]) == yields+1 {
			yields++
			preempts++
			switchTo(threads[cur], false)
			return
		}
	}
	if since >= 2000 {
		yields++
		switchTo(threads[cur], false)
		return
	}
	yields++
	since++
}

func parWait() {
	par = true
	for {
		all := true
		for _, t := range threads[1:] {
			if !t.done {
				all = false
			}
		}
		if all {
			break
		}
		block(func() bool {
			for _, t := range threads[1:] {
				if !t.done {
					return false
				}
			}
			return true
		})
	}
	par = false
	threads = threads[:1]
}

// Par runs the functions as concurrent goroutines under the scheduler.
func Par(fns ...func()) {
	for _, f := range fns {
		spawn(f)
	}
	parWait()
}

func stack() []byte {
	b := make([]byte, 1<<14)
	return b[:runtime.Stack(b, false)]
}

// report ends a replay with the outcome that was observed.
func report(r interface{}) {
	switch x := r.(type) {
	case AssertFailed:
		fmt.Printf("REPLAY assert %s\n", x.Label)
		os.Exit(11)
	case AssumeFailed:
		fmt.Printf("REPLAY assume\n")
		os.Exit(12)
	}
	fmt.Printf("REPLAY panic %v\n", r)
	os.Exit(13)
}

// Run replays f.
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AssertFailed); !ok {
				fmt.Fprintf(os.Stderr, "%s\n", stack())
			}
			report(r)
		}
		fmt.Println("REPLAY ok")
	}()
	f()
}

// ---- models of reflective or formatting library functions

func sliceLen(x interface{}) int                { panic("engine only") }
func swapElems(x interface{}, i, j int)         { panic("engine only") }
func Sprintf(f string, a ...interface{}) string { return f }
func Sprint(a ...interface{}) string            { return "" }
func Errorf(f string, a ...interface{}) error   { return errors.New(f) }

// Fprintf writes the format alone; it reads the texts it would print.
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	for _, x := range a {
		if s, ok := x.(string); ok && len(s) > 0 {
			touched += int(s[0]) + int(s[len(s)-1])
		}
	}
	return w.Write([]byte(f))
}

var touched int

// SortSlice is sort.Slice as a stable insertion sort.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(x, j, j-1)
		}
	}
}

// RuntimeError is the value of a panic of the Go runtime.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

var pools = map[*sync.Pool][]interface{}{}

func PoolGet(p *sync.Pool) interface{} {
	if s := pools[p]; len(s) > 0 {
		x := s[len(s)-1]
		pools[p] = s[:len(s)-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {
	if x != nil {
		pools[p] = append(pools[p], x)
	}
}

var maps = map[*sync.Map]map[interface{}]interface{}{}

func MapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := maps[m][k]
	return v, ok
}

func MapStore(m *sync.Map, k, v interface{}) { MapSwap(m, k, v) }

func MapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if maps[m] == nil {
		maps[m] = map[interface{}]interface{}{}
	}
	o, ok := maps[m][k]
	maps[m][k] = v
	return o, ok
}

func MapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if o, ok := maps[m][k]; ok {
		return o, true
	}
	MapSwap(m, k, v)
	return v, false
}

func MapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := maps[m][k]
	delete(maps[m], k)
	return v, ok
}

func MapDelete(m *sync.Map, k interface{}) { delete(maps[m], k) }

func MapCompareAndSwap(m *sync.Map, k, o, n interface{}) bool {
	if v, ok := maps[m][k]; !ok || v != o {
		return false
	}
	maps[m][k] = n
	return true
}

func MapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range maps[m] {
		if !f(k, v) {
			return
		}
	}
}

func MapClear(m *sync.Map) { delete(maps, m) }

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func CountByte(b []byte, c byte) (n int) {
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func CountByteString(s string, c byte) int { return CountByte([]byte(s), c) }

func IndexString(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func IndexBytes(s, t []byte) int  { return IndexString(string(s), string(t)) }
func EqualBytes(a, b []byte) bool { return string(a) == string(b) }

func CompareString(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func CompareBytes(a, b []byte) int { return CompareString(string(a), string(b)) }
