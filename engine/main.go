// Command gosym decides properties of the code in /repo by symbolic execution
// of its SSA form with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
	goBin    = envOr("VERIF_GO", "/opt/veriftools/go1.23.12/bin")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type runCfg struct {
	Name   string         `json:"name"`
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	// overrides for the thorough tier
	Thorough map[string]int `json:"thorough"`
	Only     string         `json:"only"` // "thorough": not part of the quick tier
	Share    float64        `json:"share"`
	Reach    []string       `json:"reach"`
	Sched    bool           `json:"sched"`
	Bounds   string         `json:"bounds"`
}

type propCfg struct {
	Title    string   `json:"title"`
	Runs     []runCfg `json:"runs"`
	Quick    int      `json:"quick_s"`
	Thorough int      `json:"thorough_s"`
	Outside  string   `json:"outside"`
	Assumes  []string `json:"assumptions"`
}

type config struct {
	Properties map[string]*propCfg `json:"properties"`
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("PATH", goBin+":"+os.Getenv("PATH"))
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOWORK", "off")
	set("GOFLAGS", "-mod=mod")
	set("CGO_ENABLED", "0")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	return env
}

func interpPkg(path string) bool { return !isStd(path) }

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym check PROP [quick|thorough] | run FUNC")
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "exec":
		execMain(os.Args[2], os.Args[3])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "run":
		runMain(os.Args[2:])
	case "list":
		c := loadConfig()
		var ks []string
		for k := range c.Properties {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, c.Properties[k].Title)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func loadConfig() *config {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	var c config
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("checks.json: %v", err)
	}
	return &c
}

// scratch holds everything a run writes outside /verif/evidence.
type scratch struct {
	dir    string
	binOf  map[bool]string
	binErr map[bool]error
}

func newScratch() *scratch {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	return &scratch{dir: d, binOf: map[bool]string{}, binErr: map[bool]error{}}
}

func (s *scratch) close() { os.RemoveAll(s.dir) }

// modfile copies the harness go.mod/go.sum so that the committed ones are
// never rewritten.
func (s *scratch) modfile() string {
	mf := filepath.Join(s.dir, "go.mod")
	if _, err := os.Stat(mf); err == nil {
		return mf
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	b = []byte(strings.Replace(string(b), "=> /repo", "=> "+repoDir, 1))
	b = []byte(strings.Replace(string(b), "=> ./xxhash", "=> "+filepath.Join(verifDir, "harness", "xxhash"), 1))
	os.WriteFile(mf, b, 0o644)
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	os.WriteFile(filepath.Join(s.dir, "go.sum"), sum, 0o644)
	return mf
}

func (s *scratch) load(sched bool) (*Program, map[string][]byte, error) {
	var ov map[string][]byte
	mf := s.modfile()
	if sched {
		var err error
		if mf, err = s.schedModfile(); err != nil {
			return nil, nil, err
		}
	}
	env := goEnv()
	for i, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") {
			env[i] = "GOFLAGS=-mod=mod -modfile=" + mf
		}
	}
	p, err := loadProgram(filepath.Join(verifDir, "harness"), "./h", ov, env, interpPkg)
	if err != nil {
		return nil, nil, err
	}
	if err := p.initBase(); err != nil {
		return nil, nil, err
	}
	return p, ov, nil
}

type runResult struct {
	cfg     runCfg
	params  map[string]int
	ex      *Explorer
	stats   solverStats
	secs    float64
	missing []string
}

func explore(p *Program, rc runCfg, params map[string]int, budget time.Duration, workers int) (*runResult, error) {
	fn := p.main.Func(rc.Fn)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", rc.Fn)
	}
	before := sstats
	t0 := time.Now()
	ex := newExplorer(p, fn, workers, budget)
	ex.params = params
	ex.run()
	after := sstats
	r := &runResult{cfg: rc, params: params, ex: ex, secs: time.Since(t0).Seconds()}
	r.stats = solverStats{after.queries - before.queries, after.cacheHits - before.cacheHits, after.modelHits - before.modelHits, after.unknowns - before.unknowns, after.nanos - before.nanos}
	for _, l := range rc.Reach {
		if ex.reach[l] == 0 {
			r.missing = append(r.missing, l)
		}
	}
	resetVars()
	return r, nil
}

func (r *runResult) summary() string {
	ex := r.ex
	return fmt.Sprintf("%s: paths=%d pruned=%d forks=%d asserts=%d(trivial %d) steps=%d queries=%d cached=%d solver=%.1fs unknown=%d unsupported=%d budget=%d timeout=%v left=%d wall=%.1fs viol=%d",
		r.cfg.Name, ex.paths, ex.assumeEnd, ex.forks, ex.asserts, ex.assertTrivial, ex.totalSteps, r.stats.queries, r.stats.cacheHits, float64(r.stats.nanos)/1e9, r.stats.unknowns+ex.inconclusive, ex.unsupported, ex.budget, ex.timedOut, len(ex.queue), r.secs, len(ex.viol))
}

func defaultWorkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// runMain is the debugging entry: explore one harness function.
func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	sched := fs.Bool("sched", false, "instrumented build")
	budget := fs.Duration("t", 60*time.Second, "time budget")
	params := fs.String("p", "", "k=v,...")
	workers := fs.Int("j", defaultWorkers(), "workers")
	replay := fs.Bool("replay", false, "replay violations")
	prof := fs.String("prof", "", "cpu profile")
	var names []string
	for len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		names = append(names, args[0])
		args = args[1:]
	}
	fs.Parse(args)
	s := newScratch()
	defer s.close()
	t0 := time.Now()
	p, _, err := s.load(*sched)
	if err != nil {
		fmt.Println("load:", err)
		return
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, n := range names {
		pm := parseParams(*params)
		r, err := explore(p, runCfg{Name: n, Fn: n, Sched: *sched}, pm, *budget, *workers)
		if err != nil {
			fmt.Println(err)
			continue
		}
		fmt.Println(r.summary())
		for k, v := range r.ex.unsupMsgs {
			fmt.Println("  unsupported:", v, k)
		}
		for k, v := range r.ex.reach {
			fmt.Println("  reach:", k, v)
		}
		for _, k := range r.ex.violOrder {
			v := r.ex.viol[k]
			fmt.Printf("  VIOL %s x%d: %s\n", k, r.ex.violN[k], v.Msg)
			fmt.Println("   inputs:", fmtInputs(v.Inputs))
			fmt.Print(indent(v.Stack))
			if *replay {
				rep := s.replay(p, n, pm, v, *sched)
				fmt.Printf("   replay: confirmed=%v outcome=%s\n", rep.confirmed, rep.outcome)
				if os.Getenv("V") != "" {
					fmt.Println(indent(rep.output))
				}
			}
		}
	}
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Split(s, ",") {
		if kv := strings.SplitN(f, "=", 2); len(kv) == 2 {
			var n int
			fmt.Sscan(kv[1], &n)
			m[kv[0]] = n
		}
	}
	return m
}

func fmtInputs(in map[string]uint64) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		if in[k] != 0 {
			fmt.Fprintf(&b, "%s=0x%x ", k, in[k])
		}
	}
	return b.String()
}

func indent(s string) string {
	return "     " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n     ") + "\n"
}

func funcList(ex *Explorer, p *Program) []string {
	var out []string
	ex.funcs.Range(func(k, _ interface{}) bool {
		fn := k.(*ssa.Function)
		pkg, _ := fnKey(fn)
		if strings.HasPrefix(pkg, "github.com/kazu") || strings.HasPrefix(pkg, "github.com/lk4d4") {
			out = append(out, strings.ReplaceAll(fn.RelString(nil), "github.com/kazu/", ""))
		}
		return true
	})
	sort.Strings(out)
	return out
}
