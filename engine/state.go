package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(3)
}

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endUnsupported
	endBudget
	endStop
)

type pathEnd struct {
	kind endKind
	msg  string
}

type deferRec struct {
	fn    *ssa.Function
	intr  intrinsic
	bi    string
	args  []Val
	binds []Val
	site  string
	argT  []*layout
}

type Frame struct {
	code     *Code
	pc       int
	prevBlk  int
	regs     []Val
	dst      int // register in the caller (-1: discard)
	defers   []deferRec
	epoch    uint64
	unw      uint8 // 1: being unwound by a panic, 2: recovered
	deferRun bool  // this frame runs a deferred call of the frame below
}

type goPanicRec struct {
	val       Val
	recovered bool
	msg       string
}

type thStatus uint8

const (
	thRun thStatus = iota
	thBlocked
	thDone
)

type Thread struct {
	id     int
	frames []*Frame
	status thStatus
	wait   func(st *State) bool // runnable again?
	panics []*goPanicRec
	inPar  bool
	rwWait uint64 // RWMutex this writer waits for
	chWait uint64 // unbuffered channel on which its message waits
	chSeq  uint64
	chRecv uint64 // channel it waits to receive from
}

type Event struct {
	s string
}

type State struct {
	epoch   uint64
	objs    []*Object
	globs   []*Object
	pc      *PC
	model   Model
	threads []*Thread
	cur     int
	w       *Worker
	steps   int64
	names   map[string]int // per-name counters for symbolic inputs (copied on fork)
	reach   *reachList
	// cooperative scheduling
	par         bool
	yields      int
	sinceSwitch int
	pendSwitch  bool
	preempts    int
	maxPre      int
	parN        int
	opaqueCnt   int
	trace       *traceList
	hashes      *hashRec
	dom         *domain
	cand        *cand
	seg         []access
	noNote      bool
}

type reachList struct {
	label string
	next  *reachList
}

type traceList struct {
	s    string
	next *traceList
}

var epochCtr uint64

func nextEpoch() uint64 { return atomic.AddUint64(&epochCtr, 1) }

func (fr *Frame) clone(ep uint64) *Frame {
	c := *fr
	c.regs = append([]Val(nil), fr.regs...)
	c.epoch = ep
	n := len(fr.defers)
	c.defers = fr.defers[:n:n]
	return &c
}

func (st *State) th() *Thread { return st.threads[st.cur] }

// top returns the current frame, owned by this state.
func (st *State) top() *Frame {
	t := st.threads[st.cur]
	i := len(t.frames) - 1
	if i < 0 {
		return nil
	}
	fr := t.frames[i]
	if fr.epoch != st.epoch {
		fr = fr.clone(st.epoch)
		t.frames[i] = fr
	}
	return fr
}

// clone copies the state.  Both copies get fresh epochs; the receiver's
// current top frame stays usable by the running instruction.
func (st *State) clone() *State {
	c := *st
	c.epoch = nextEpoch()
	ne := nextEpoch()
	st.seg = st.seg[:len(st.seg):len(st.seg)]
	c.seg = st.seg
	c.objs = append(make([]*Object, 0, len(st.objs)+64), st.objs...)
	c.globs = append([]*Object(nil), st.globs...)
	c.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		c.names[k] = v
	}
	c.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		nt.frames = append(make([]*Frame, 0, len(t.frames)+8), t.frames...)
		nt.panics = append([]*goPanicRec(nil), t.panics...)
		for j, p := range nt.panics {
			q := *p
			nt.panics[j] = &q
		}
		c.threads[i] = &nt
	}
	// child's own copy of the running frame
	t := c.threads[c.cur]
	if n := len(t.frames); n > 0 {
		t.frames[n-1] = t.frames[n-1].clone(c.epoch)
	}
	if pt := st.threads[st.cur]; len(pt.frames) > 0 {
		pf := pt.frames[len(pt.frames)-1]
		n := len(pf.defers)
		pf.defers = pf.defers[:n:n]
		pf.epoch = ne
	}
	st.epoch = ne
	return &c
}

// ---- exploration

type Violation struct {
	Label  string            `json:"label"`
	Kind   string            `json:"kind"` // assert | panic | fault | deadlock | hang
	Inputs map[string]uint64 `json:"inputs"`
	Stack  string            `json:"stack"`
	Msg    string            `json:"msg"`
	Yields int               `json:"yields"`
}

type Explorer struct {
	prog     *Program
	entry    *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*State
	active   int
	stopped  int32
	deadline time.Time
	workers  int

	maxSteps  int64 // per path
	stepPaths int64

	paths, assumeEnd, forks, totalSteps int64
	asserts, assertTrivial              int64
	unsupported, budget                 int64
	inconclusive                        int64
	oob                                 int64
	unsupMsgs                           map[string]int
	budgetMsgs                          map[string]int
	reach                               map[string]int64
	viol                                map[string]*Violation
	violN                               map[string]int
	violOrder                           []string
	maxViol                             int
	funcs                               sync.Map
	timedOut                            bool
	samples                             []map[string]uint64
	lastInputs                          map[string]uint64
	stopOnViol                          bool
	params                              map[string]int
}

type Worker struct {
	ex     *Explorer
	solver *Solver
	id     int
}

func newExplorer(p *Program, fn *ssa.Function, workers int, budget time.Duration) *Explorer {
	ex := &Explorer{prog: p, entry: fn, workers: workers, deadline: time.Now().Add(budget),
		maxSteps: 40_000_000, unsupMsgs: map[string]int{}, budgetMsgs: map[string]int{}, reach: map[string]int64{},
		viol: map[string]*Violation{}, violN: map[string]int{}, maxViol: 12}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(st *State) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, st)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *State {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if atomic.LoadInt32(&ex.stopped) != 0 {
			return nil
		}
		if n := len(ex.queue); n > 0 {
			st := ex.queue[n-1]
			ex.queue[n-1] = nil
			ex.queue = ex.queue[:n-1]
			ex.active++
			return st
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) stop() {
	atomic.StoreInt32(&ex.stopped, 1)
	ex.cond.Broadcast()
}

func (ex *Explorer) run() {
	root := ex.prog.newState()
	fr := newFrame(root, ex.prog.code(ex.entry), nil, nil)
	root.threads = []*Thread{{frames: []*Frame{fr}}}
	ex.push(root)
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		w := &Worker{ex: ex, id: i}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if w.solver != nil {
					w.solver.close()
				}
			}()
			for {
				st := ex.pop()
				if st == nil {
					return
				}
				if w.solver == nil {
					w.solver = newSolver()
				}
				w.runState(st)
				ex.done()
			}
		}()
	}
	tick := time.NewTicker(200 * time.Millisecond)
	fin := make(chan struct{})
	go func() {
		for {
			select {
			case <-fin:
				return
			case <-tick.C:
				if time.Now().After(ex.deadline) {
					ex.mu.Lock()
					ex.timedOut = true
					ex.mu.Unlock()
					ex.stop()
				}
			}
		}
	}()
	wg.Wait()
	close(fin)
	tick.Stop()
}

func (w *Worker) runState(st *State) {
	st.w = w
	ex := w.ex
	start := st.steps
	end := w.exec(st)
	if end.kind != endStop {
		st.abandon()
	}
	atomic.AddInt64(&ex.totalSteps, st.steps-start)
	switch end.kind {
	case endDone:
		n := atomic.AddInt64(&ex.paths, 1)
		ex.mu.Lock()
		for r := st.reach; r != nil; r = r.next {
			ex.reach[r.label]++
		}
		if len(ex.samples) < 3 || (n&(n-1)) == 0 && len(ex.samples) < 8 {
			ex.samples = append(ex.samples, st.inputs(st.model))
		}
		ex.mu.Unlock()
	case endAssume:
		atomic.AddInt64(&ex.assumeEnd, 1)
	case endViolation:
		atomic.AddInt64(&ex.paths, 1)
	case endUnsupported:
		atomic.AddInt64(&ex.unsupported, 1)
		ex.mu.Lock()
		ex.unsupMsgs[end.msg]++
		ex.mu.Unlock()
	case endBudget:
		atomic.AddInt64(&ex.budget, 1)
		ex.mu.Lock()
		ex.budgetMsgs[end.msg]++
		ex.mu.Unlock()
	}
}

func (w *Worker) exec(st *State) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				return
			}
			if os.Getenv("GOSYM_PANIC") != "" {
				panic(r)
			}
			// an engine limitation must never look like a verdict
			end = pathEnd{kind: endUnsupported, msg: fmt.Sprintf("engine: %v at %s", r, st.where())}
		}
	}()
	return st.run()
}

// inputs lists the symbolic inputs with their model values.
func (st *State) inputs(m Model) map[string]uint64 {
	out := map[string]uint64{}
	n := numVars()
	for i := 0; i < n; i++ {
		v := varByIdx(i)
		out[v.name] = m.get(uint64(i)) & mask(v.w)
	}
	return out
}

func (st *State) violation(kind, label, msg string, m Model) {
	ex := st.w.ex
	key := kind + ":" + label
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.violN[key]++
	if _, ok := ex.viol[key]; ok {
		return
	}
	in := st.inputs(m)
	ex.viol[key] = &Violation{Label: label, Kind: kind, Inputs: in, Msg: msg, Stack: st.stack(), Yields: st.yields}
	ex.violOrder = append(ex.violOrder, key)
	if len(ex.viol) >= ex.maxViol {
		go ex.stop()
	}
}

func (st *State) stack() string {
	s := ""
	t := st.th()
	for i := len(t.frames) - 1; i >= 0; i-- {
		fr := t.frames[i]
		s += fr.code.fn.String() + " " + fr.code.pos(fr.pc) + "\n"
		if len(s) > 3000 {
			s += "...\n"
			break
		}
	}
	return s
}

func (st *State) where() string {
	t := st.th()
	if len(t.frames) == 0 {
		return "?"
	}
	fr := t.frames[len(t.frames)-1]
	return fr.code.fn.String() + " " + fr.code.pos(fr.pc)
}

// ---- decisions

func (st *State) decide(c E) bool {
	if c.n == nil {
		return c.c != 0
	}
	n := c.n
	if v, ok := st.pc.known(n); ok {
		return v
	}
	mv := st.model.eval(n) != 0
	this, other := n, bnot(c).n
	if !mv {
		this, other = other, this
	}
	res, m := st.w.solver.check(st.pc, other, st.model)
	switch res {
	case resUnsat:
		st.pc = st.pc.push(this, true)
	case resUnknown:
		atomic.AddInt64(&st.w.ex.inconclusive, 1)
		st.pc = st.pc.push(this, false)
	case resSat:
		ch := st.clone()
		ch.pc = st.pc.push(other, false)
		ch.model = m
		atomic.AddInt64(&st.w.ex.forks, 1)
		st.w.ex.push(ch)
		st.pc = st.pc.push(this, false)
	}
	return mv
}

func (st *State) concretize(e E, w uint8) uint64 {
	if e.n == nil {
		return e.c
	}
	v := st.model.eval(e.n)
	st.decide(cmp(OEq, w, e, E{c: v}))
	return v
}

// must reports whether c holds on every model of the path condition.
func (st *State) assume(c E) {
	if c.n == nil {
		if c.c == 0 {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	if v, ok := st.pc.known(c.n); ok {
		if !v {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	if st.model.eval(c.n) != 0 {
		st.pc = st.pc.push(c.n, false)
		return
	}
	res, m := st.w.solver.check(st.pc, c.n, st.model)
	if res == resUnsat {
		panic(pathEnd{kind: endAssume})
	}
	if res == resUnknown {
		atomic.AddInt64(&st.w.ex.inconclusive, 1)
		panic(pathEnd{kind: endAssume})
	}
	st.model = m
	st.pc = st.pc.push(c.n, false)
}

func (st *State) assert(c E, label string) {
	ex := st.w.ex
	atomic.AddInt64(&ex.asserts, 1)
	if c.n == nil {
		atomic.AddInt64(&ex.assertTrivial, 1)
		if c.c == 0 {
			st.violation("assert", label, "assertion failed", st.model)
			panic(pathEnd{kind: endViolation})
		}
		return
	}
	if v, ok := st.pc.known(c.n); ok {
		if !v {
			st.violation("assert", label, "assertion failed", st.model)
			panic(pathEnd{kind: endViolation})
		}
		return
	}
	if st.model.eval(c.n) == 0 {
		st.violation("assert", label, "assertion failed", st.model)
		st.assume(c)
		return
	}
	res, m := st.w.solver.check(st.pc, bnot(c).n, st.model)
	switch res {
	case resUnsat:
		st.pc = st.pc.push(c.n, true)
	case resSat:
		st.violation("assert", label, "assertion failed", m)
		st.pc = st.pc.push(c.n, false)
	default:
		atomic.AddInt64(&ex.inconclusive, 1)
		st.pc = st.pc.push(c.n, false)
	}
}
