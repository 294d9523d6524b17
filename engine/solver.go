package main

// A z3 process per worker, kept alive, assertion stack synchronised with the
// path-condition prefix.  A global cache keyed by (relevant path conditions,
// query) avoids repeated queries.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// PC is a persistent list of path conditions.
type PC struct {
	n       *Node // asserted boolean term
	implied bool  // entailed by the parents: known, but not sent to the solver
	parent  *PC
	depth   int
}

func (p *PC) push(n *Node, implied bool) *PC {
	d := 0
	if p != nil {
		d = p.depth
	}
	return &PC{n: n, implied: implied, parent: p, depth: d + 1}
}

// known reports whether the (OBNot-normalised) condition was decided before.
func (p *PC) known(n *Node) (val, ok bool) {
	pos := n
	want := true
	if n.op == OBNot {
		pos, want = n.a, false
	}
	for q := p; q != nil; q = q.parent {
		m := q.n
		if m == pos {
			return want, true
		}
		if m.op == OBNot && m.a == pos {
			return !want, true
		}
	}
	return false, false
}

type satRes int8

const (
	resUnknown satRes = iota
	resSat
	resUnsat
)

type cacheEnt struct {
	res satRes
	m   Model
}

type solverStats struct {
	queries, cacheHits, modelHits, unknowns int64
	nanos                                   int64
}

var (
	sstats  solverStats
	qcache  sync.Map
	qcacheN int64
	// optional cross check sampling
	crossEvery int64
	crossMu    sync.Mutex
	crossList  []crossQ
)

type crossQ struct {
	text string
	res  satRes
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	stack   []*PC
	nvars   int // declared at base level
	timeout int
	dead    bool
}

func solverBin() string {
	if s := os.Getenv("GOSYM_Z3"); s != "" {
		return s
	}
	return "z3"
}

func newSolver() *Solver {
	s := &Solver{timeout: 20000}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(solverBin(), "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	s.cmd, s.inC, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.stack, s.nvars = nil, 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// declare all variables known so far; only legal at stack depth 0, so pop first.
func (s *Solver) declare() {
	n := numVars()
	if s.nvars == n {
		return
	}
	if len(s.stack) > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack))
		s.stack = s.stack[:0]
	}
	for ; s.nvars < n; s.nvars++ {
		v := varByIdx(s.nvars)
		if v.w == 0 {
			fmt.Fprintf(s.in, "(declare-const %s Bool)\n", varSym(uint64(s.nvars)))
		} else {
			fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", varSym(uint64(s.nvars)), v.w)
		}
	}
}

func (s *Solver) sync(pc *PC) {
	// collect real path conditions
	var want []*PC
	for p := pc; p != nil; p = p.parent {
		if !p.implied {
			want = append(want, p)
		}
	}
	for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	k := 0
	for k < len(want) && k < len(s.stack) && want[k].n == s.stack[k].n {
		k++
	}
	if k < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(want); k++ {
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", smt(want[k].n))
		s.stack = append(s.stack, want[k])
	}
}

func relevant(pc *PC, q *Node) []*Node {
	vs := q.vs
	var all []*Node
	for p := pc; p != nil; p = p.parent {
		if !p.implied {
			all = append(all, p.n)
		}
	}
	in := make([]bool, len(all))
	var out []*Node
	for changed := true; changed; {
		changed = false
		for i, n := range all {
			if in[i] {
				continue
			}
			if n.vs[0]&vs[0] != 0 || n.vs[1]&vs[1] != 0 {
				in[i] = true
				out = append(out, n)
				if n.vs[0]&^vs[0] != 0 || n.vs[1]&^vs[1] != 0 {
					vs[0] |= n.vs[0]
					vs[1] |= n.vs[1]
					changed = true
				}
			}
		}
	}
	return out
}

// check decides pc && q.  base is a model of pc, used to complete the
// assignment of variables that are independent of q.
func (s *Solver) check(pc *PC, q *Node, base Model) (satRes, Model) {
	rel := relevant(pc, q)
	ids := make([]int, len(rel))
	for i, n := range rel {
		ids[i] = int(n.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, id := range ids {
		if id == last {
			continue
		}
		last = id
		kb.WriteString(strconv.FormatInt(int64(id), 36))
		kb.WriteByte(',')
	}
	kb.WriteByte('?')
	kb.WriteString(strconv.FormatInt(int64(q.id), 36))
	key := kb.String()
	vs := q.vs
	for _, n := range rel {
		vs[0] |= n.vs[0]
		vs[1] |= n.vs[1]
	}
	merge := func(m Model) Model {
		n := numVars()
		out := make(Model, n)
		for i := 0; i < n; i++ {
			var in bool
			if i < 64 {
				in = vs[0]>>uint(i)&1 != 0
			} else {
				in = vs[1]>>uint(i-64)&1 != 0
			}
			if in {
				out[i] = m.get(uint64(i))
			} else {
				out[i] = base.get(uint64(i))
			}
		}
		return out
	}
	if v, ok := qcache.Load(key); ok {
		atomic.AddInt64(&sstats.cacheHits, 1)
		ent := v.(*cacheEnt)
		if ent.res == resSat {
			return resSat, merge(ent.m)
		}
		return ent.res, nil
	}
	t0 := time.Now()
	res, m := s.run(pc, q, vs)
	dt := time.Since(t0)
	atomic.AddInt64(&sstats.nanos, int64(dt))
	nq := atomic.AddInt64(&sstats.queries, 1)
	if crossEvery > 0 && nq%crossEvery == 0 && res != resUnknown {
		var b strings.Builder
		for _, n := range rel {
			b.WriteString("(assert " + smt(n) + ")\n")
		}
		b.WriteString("(assert " + smt(q) + ")\n")
		crossMu.Lock()
		crossList = append(crossList, crossQ{b.String(), res})
		crossMu.Unlock()
	}
	if res == resUnknown {
		atomic.AddInt64(&sstats.unknowns, 1)
		return res, nil
	}
	if atomic.AddInt64(&qcacheN, 1) < 3000000 {
		qcache.Store(key, &cacheEnt{res, m})
	}
	if res == resSat {
		return res, merge(m)
	}
	return res, nil
}

func (s *Solver) run(pc *PC, q *Node, vs [2]uint64) (satRes, Model) {
	s.declare()
	s.sync(pc)
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n", smt(q))
	s.in.Flush()
	line, err := s.line()
	if err != nil {
		s.restart()
		return resUnknown, nil
	}
	var res satRes
	var m Model
	switch line {
	case "sat":
		res = resSat
		var names []string
		var idx []int
		for i := 0; i < s.nvars; i++ {
			if i < 64 && vs[0]>>uint(i)&1 != 0 || i >= 64 && vs[1]>>uint(i-64)&1 != 0 {
				names = append(names, varSym(uint64(i)))
				idx = append(idx, i)
			}
		}
		m = make(Model, s.nvars)
		if len(names) > 0 {
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(names, " "))
			s.in.Flush()
			txt, err := s.sexpr()
			if err != nil {
				s.restart()
				return resUnknown, nil
			}
			vals := parseValues(txt)
			if len(vals) != len(idx) {
				fatal("solver: cannot parse model %q", txt)
			}
			for i, v := range vals {
				m[idx[i]] = v
			}
		}
	case "unsat":
		res = resUnsat
	default:
		if strings.HasPrefix(line, "(error") {
			fatal("solver error: %s", line)
		}
		res = resUnknown
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexpr() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(b.String()) != "" {
			return b.String(), nil
		}
	}
}

func parseValues(txt string) []uint64 {
	var out []uint64
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] != 'v' {
			continue
		}
		t := toks[i+1]
		switch {
		case t == "true":
			out = append(out, 1)
		case t == "false":
			out = append(out, 0)
		case strings.HasPrefix(t, "#x"):
			v, _ := strconv.ParseUint(t[2:], 16, 64)
			out = append(out, v)
		case strings.HasPrefix(t, "#b"):
			v, _ := strconv.ParseUint(t[2:], 2, 64)
			out = append(out, v)
		case t == "_":
			v, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			out = append(out, v)
		default:
			return nil
		}
		i++
	}
	return out
}

// crossCheck re-decides sampled queries with cvc5; returns (agreed, disagreed).
func crossCheck() (agree, disagree int) {
	crossMu.Lock()
	list := crossList
	crossMu.Unlock()
	if len(list) == 0 {
		return
	}
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	for i := 0; i < numVars(); i++ {
		v := varByIdx(i)
		if v.w == 0 {
			fmt.Fprintf(&b, "(declare-const %s Bool)\n", varSym(uint64(i)))
		} else {
			fmt.Fprintf(&b, "(declare-const %s (_ BitVec %d))\n", varSym(uint64(i)), v.w)
		}
	}
	for _, q := range list {
		b.WriteString("(push 1)\n" + q.text + "(check-sat)\n(pop 1)\n")
	}
	cmd := exec.Command("timeout", "120", "cvc5", "--incremental", "--lang=smt2")
	cmd.Stdin = strings.NewReader(b.String())
	out, _ := cmd.Output()
	lines := strings.Fields(string(out))
	for i, q := range list {
		if i >= len(lines) {
			break
		}
		want := "sat"
		if q.res == resUnsat {
			want = "unsat"
		}
		if lines[i] == want {
			agree++
		} else if lines[i] == "sat" || lines[i] == "unsat" {
			disagree++
		}
	}
	return
}
