package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// One process per run: the variable table and the caches are per process.

type execReq struct {
	Prop   string         `json:"prop"`
	Run    runCfg         `json:"run"`
	Params map[string]int `json:"params"`
	Budget float64        `json:"budget_s"`
	Tier   string         `json:"tier"`
	Dir    string         `json:"dir"` // replay files go here
}

type violRes struct {
	Label     string            `json:"label"`
	Kind      string            `json:"kind"`
	Msg       string            `json:"msg"`
	Inputs    map[string]uint64 `json:"inputs"`
	Stack     string            `json:"stack"`
	Count     int               `json:"count"`
	Confirmed bool              `json:"confirmed"`
	Outcome   string            `json:"outcome"`
	Output    string            `json:"output"`
	Replay    string            `json:"replay"`
	FromTrace bool              `json:"from_trace_validation,omitempty"`
}

type execRes struct {
	Err       string              `json:"err,omitempty"`
	Paths     int64               `json:"paths"`
	Pruned    int64               `json:"pruned_by_assumption"`
	Forks     int64               `json:"forks"`
	Asserts   int64               `json:"assertions_decided"`
	Trivial   int64               `json:"assertions_decided_without_solver"`
	Steps     int64               `json:"ssa_instructions"`
	Queries   int64               `json:"solver_queries"`
	Cached    int64               `json:"queries_answered_from_cache"`
	SolverS   float64             `json:"solver_s"`
	Unknown   int64               `json:"unknown"`
	Unsup     int64               `json:"paths_not_encoded"`
	UnsupMsg  map[string]int      `json:"not_encoded_because,omitempty"`
	Budget    int64               `json:"paths_over_step_budget"`
	OOB       int64               `json:"stray_reads_havocked"`
	TimedOut  bool                `json:"timed_out"`
	Left      int                 `json:"states_left"`
	Reach     map[string]int64    `json:"reach"`
	Missing   []string            `json:"reach_missing,omitempty"`
	Funcs     []string            `json:"funcs"`
	Viol      []violRes           `json:"violations"`
	Samples   []map[string]uint64 `json:"samples"`
	Validated int                 `json:"traces_validated"`
	Mismatch  []string            `json:"trace_mismatches,omitempty"`
	CrossN    int                 `json:"queries_cross_checked_cvc5"`
	CrossBad  int                 `json:"cvc5_disagreements"`
	WallS     float64             `json:"wall_s"`
}

func execMain(in, out string) {
	b, err := os.ReadFile(in)
	if err != nil {
		fatal("%v", err)
	}
	var rq execReq
	if err := json.Unmarshal(b, &rq); err != nil {
		fatal("%v", err)
	}
	res := execOne(&rq)
	j, _ := json.Marshal(res)
	if err := os.WriteFile(out, j, 0o644); err != nil {
		fatal("%v", err)
	}
}

func execOne(rq *execReq) *execRes {
	t0 := time.Now()
	res := &execRes{}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	s := newScratch()
	defer s.close()
	p, _, err := s.load(rq.Run.Sched)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	// the native build overlaps with the exploration
	built := make(chan struct{})
	go func() { s.replayBin(rq.Run.Sched); close(built) }()
	if rq.Tier == "thorough" {
		crossEvery = 200
	}
	left := rq.Budget - time.Since(t0).Seconds()
	if left < 2 {
		left = 2
	}
	r, err := explore(p, rq.Run, rq.Params, time.Duration(left*float64(time.Second)), defaultWorkers())
	if err != nil {
		res.Err = err.Error()
		return res
	}
	ex := r.ex
	res.Paths, res.Pruned, res.Forks = ex.paths, ex.assumeEnd, ex.forks
	res.Asserts, res.Trivial, res.Steps = ex.asserts, ex.assertTrivial, ex.totalSteps
	res.Queries, res.Cached = r.stats.queries, r.stats.cacheHits
	res.SolverS = float64(r.stats.nanos) / 1e9
	res.Unknown = r.stats.unknowns + ex.inconclusive
	res.Unsup, res.UnsupMsg, res.Budget, res.OOB = ex.unsupported, ex.unsupMsgs, ex.budget, atomic.LoadInt64(&ex.oob)
	res.TimedOut, res.Left = ex.timedOut, len(ex.queue)
	res.Reach, res.Missing = ex.reach, r.missing
	res.Funcs = funcList(ex, p)
	if crossEvery > 0 {
		res.CrossN, res.CrossBad = crossCheck()
	}
	<-built
	if _, err := s.replayBin(rq.Run.Sched); err != nil {
		res.Err = err.Error()
		return res
	}
	os.MkdirAll(rq.Dir, 0o755)
	for i, k := range ex.violOrder {
		v := ex.viol[k]
		f := filepath.Join(rq.Dir, fmt.Sprintf("%s-%s-%d.json", rq.Prop, rq.Run.Name, i+1))
		writeReplay(f, rq.Run.Fn, rq.Params, v, rq.Run.Sched)
		bin, _ := s.replayBin(rq.Run.Sched)
		rp := runReplay(bin, f, v)
		res.Viol = append(res.Viol, violRes{Label: v.Label, Kind: v.Kind, Msg: v.Msg, Inputs: nonzero(v.Inputs), Stack: v.Stack,
			Count: ex.violN[k], Confirmed: rp.confirmed, Outcome: rp.outcome, Output: rp.output, Replay: f})
	}
	// completed paths, replayed natively: the encoding and the compiled code agree
	for i, in := range ex.samples {
		if i >= 6 {
			break
		}
		v := &Violation{Label: "trace", Kind: "trace", Inputs: in}
		f := filepath.Join(s.dir, fmt.Sprintf("trace%d.json", i))
		writeReplay(f, rq.Run.Fn, rq.Params, v, rq.Run.Sched)
		bin, _ := s.replayBin(rq.Run.Sched)
		rp := runReplay(bin, f, v)
		res.Samples = append(res.Samples, nonzero(in))
		if rp.outcome == "ok" {
			res.Validated++
			continue
		}
		res.Mismatch = append(res.Mismatch, fmt.Sprintf("%s: %s", rp.outcome, fmtInputs(in)))
		if rp.confirmed && rp.outcome != "timeout" {
			f2 := filepath.Join(rq.Dir, fmt.Sprintf("%s-%s-trace%d.json", rq.Prop, rq.Run.Name, i))
			label := "native run of a verified path fails"
			if j := strings.Index(rp.output, "REPLAY assert "); j >= 0 {
				label = strings.SplitN(rp.output[j+len("REPLAY assert "):], "\n", 2)[0]
			}
			v.Label = label
			writeReplay(f2, rq.Run.Fn, rq.Params, v, rq.Run.Sched)
			if again := runReplay(bin, f2, v); again.confirmed && again.outcome == rp.outcome {
				res.Viol = append(res.Viol, violRes{Label: label, Kind: "trace", Inputs: nonzero(in), Confirmed: true, Outcome: rp.outcome, Output: rp.output, Replay: f2, Count: 1, FromTrace: true})
			}
		}
	}
	return res
}

func nonzero(in map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range in {
		if v != 0 {
			out[k] = v
		}
	}
	return out
}

// ---- known findings

type knownFinding struct {
	prop, run, label, text string
}

// loadKnown reads known-findings.txt: lines
//
//	known: property=C09 run=collide label="..." what fails
//	fixed: property=C05 <commit> what failed        (suppresses nothing)
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "known: ")
		for {
			rest = strings.TrimSpace(rest)
			switch {
			case strings.HasPrefix(rest, "property="):
				k.prop, rest = word(rest[len("property="):])
				continue
			case strings.HasPrefix(rest, "run="):
				k.run, rest = word(rest[len("run="):])
				continue
			case strings.HasPrefix(rest, "label=\""):
				rest = rest[len("label=\""):]
				if i := strings.Index(rest, "\""); i >= 0 {
					k.label, rest = rest[:i], rest[i+1:]
				}
				continue
			}
			break
		}
		k.text = rest
		out = append(out, k)
	}
	return out
}

func word(s string) (string, string) {
	if i := strings.IndexByte(s, ' '); i >= 0 {
		return s[:i], s[i:]
	}
	return s, ""
}

// ---- the check

func checkMain(prop, tier string) int {
	t0 := time.Now()
	c := loadConfig()
	pc := c.Properties[prop]
	if pc == nil {
		fatal("no property %s in checks.json", prop)
	}
	budget := float64(pc.Quick)
	if tier == "thorough" {
		budget = float64(pc.Thorough)
	}
	if budget == 0 {
		budget = 60
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var runs []runCfg
	for _, r := range pc.Runs {
		if r.Only != "" && r.Only != tier {
			continue
		}
		if r.Name == "" {
			r.Name = r.Fn
		}
		if r.Share == 0 {
			r.Share = 1
		}
		runs = append(runs, r)
	}
	evDir := filepath.Join(verifDir, "evidence")
	repDir := filepath.Join(evDir, "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	tmp, err := os.MkdirTemp("", "gosymc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	known := loadKnown()
	self, _ := os.Executable()
	failed, errored, decided := false, false, 0
	var totalShare float64
	for _, r := range runs {
		totalShare += r.Share
	}
	type done struct {
		rc     runCfg
		params map[string]int
		res    *execRes
	}
	var all []done
	nviol := 0
	seenKnown := map[string]bool{}
	// runs that hit their share of the time get what the others left over
	first := len(runs)
	var again []runCfg
	retried := map[string]int{}
	for i := 0; i < len(runs) || len(again) > 0; i++ {
		if i == len(runs) {
			if i > first || budget-time.Since(t0).Seconds() < 20*float64(len(again)) {
				break
			}
			runs = append(runs, again...)
			again = nil
			for _, r := range runs[first:] {
				totalShare += r.Share
			}
		}
		rc := runs[i]
		params := map[string]int{}
		for k, v := range rc.Params {
			params[k] = v
		}
		if tier == "thorough" {
			for k, v := range rc.Thorough {
				params[k] = v
			}
		}
		left := budget - time.Since(t0).Seconds()
		b := left * rc.Share / totalShare
		totalShare -= rc.Share
		if b < 5 {
			b = 5
		}
		rq := &execReq{Prop: prop, Run: rc, Params: params, Budget: b, Tier: tier, Dir: repDir}
		in, out := filepath.Join(tmp, fmt.Sprintf("in%d.json", i)), filepath.Join(tmp, fmt.Sprintf("out%d.json", i))
		j, _ := json.Marshal(rq)
		os.WriteFile(in, j, 0o644)
		cmd := exec.Command(self, "exec", in, out)
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &eb, &eb
		err := cmd.Run()
		res := &execRes{}
		if ob, rerr := os.ReadFile(out); rerr != nil {
			res.Err = fmt.Sprintf("run aborted: %v %s", err, tail(eb.String(), 2000))
		} else if err := json.Unmarshal(ob, res); err != nil {
			res.Err = err.Error()
		}
		if at, ok := retried[rc.Name]; ok && i >= first && all[at].res.WallS < res.WallS {
			all[at] = done{rc, params, res}
		} else if !ok || i < first {
			all = append(all, done{rc, params, res})
		}
		if res.TimedOut && i < first && res.Err == "" {
			retried[rc.Name] = len(all) - 1
			again = append(again, rc)
		}
		if res.Err != "" {
			fmt.Printf("ERROR property=%s run=%s: %s\n", prop, rc.Name, tail(res.Err, 3000))
			errored = true
			continue
		}
		decided++
		fmt.Printf("run %s: paths=%d asserts=%d queries=%d solver=%.1fs unknown=%d not-encoded=%d over-budget=%d timeout=%v left=%d validated=%d wall=%.1fs\n",
			rc.Name, res.Paths, res.Asserts, res.Queries, res.SolverS, res.Unknown, res.Unsup, res.Budget, res.TimedOut, res.Left, res.Validated, res.WallS)
		for _, m := range res.Missing {
			fmt.Printf("NOTE property=%s run=%s: label %q not reached: that part of the run decided nothing\n", prop, rc.Name, m)
		}
		for m, n := range res.UnsupMsg {
			fmt.Printf("NOTE property=%s run=%s: %d paths not encoded: %s\n", prop, rc.Name, n, m)
		}
		for _, m := range res.Mismatch {
			fmt.Printf("NOTE property=%s run=%s: trace validation: %s\n", prop, rc.Name, m)
		}
		for _, v := range res.Viol {
			if !v.Confirmed {
				fmt.Printf("UNCONFIRMED property=%s run=%s %s: %q (native replay: %s) inputs: %s\n", prop, rc.Name, v.Kind, v.Label, v.Outcome, fmtInputs(v.Inputs))
				continue
			}
			if k := findKnown(known, prop, rc.Name, v.Label); k != nil {
				if !seenKnown[k.text] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, strings.TrimSpace(k.text))
					seenKnown[k.text] = true
				}
				continue
			}
			nviol++
			failed = true
			fmt.Printf("  %s %q in run %s (native replay: %s)\n  inputs: %s\n%s", v.Kind, v.Label, rc.Name, v.Outcome, fmtInputs(v.Inputs), indent(tail(v.Stack, 1500)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.Replay)
		}
		if failed && tier == "quick" {
			break
		}
	}
	// evidence
	var states, steps, asserts, queries, cached, validated int64
	var solver float64
	var exhaustive = !errored
	funcs := map[string]bool{}
	var samples []interface{}
	var perRun []interface{}
	for _, d := range all {
		r := d.res
		states += r.Paths + r.Forks
		steps += r.Steps
		asserts += r.Asserts
		queries += r.Queries
		cached += r.Cached
		solver += r.SolverS
		validated += int64(r.Validated)
		if r.TimedOut || r.Unsup > 0 || r.Unknown > 0 || r.Budget > 0 {
			exhaustive = false
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"run": d.rc.Name, "inputs": hexmap(s)})
			}
		}
		perRun = append(perRun, map[string]interface{}{
			"run": d.rc.Name, "harness": d.rc.Fn, "params": d.params, "bounds": d.rc.Bounds, "instrumented_scheduler": d.rc.Sched,
			"paths": r.Paths, "paths_cut_by_assumptions": r.Pruned, "forks": r.Forks, "assertions_decided": r.Asserts,
			"decided_without_a_query": r.Trivial, "ssa_instructions": r.Steps, "solver_queries": r.Queries, "cached_queries": r.Cached,
			"solver_s": r.SolverS, "unknown_answers": r.Unknown, "paths_not_encoded": r.Unsup, "not_encoded_because": r.UnsupMsg,
			"paths_over_step_budget": r.Budget, "stray_reads_havocked": r.OOB, "timed_out": r.TimedOut, "states_left": r.Left,
			"reach": r.Reach, "reach_missing": r.Missing, "traces_validated": r.Validated, "trace_mismatches": r.Mismatch,
			"cvc5_cross_checked": r.CrossN, "cvc5_disagreements": r.CrossBad, "violations": r.Viol, "wall_s": r.WallS, "error": r.Err,
			"complete_within_bounds": !r.TimedOut && r.Unsup == 0 && r.Unknown == 0 && r.Budget == 0 && r.Err == "",
		})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": append([]string{
			"bounded: every claim holds for all values of the symbolic inputs within the bounds listed per run; " + pc.Outside,
			"trusted: the SSA builder (golang.org/x/tools/go/ssa), the engine's instruction semantics, z3 " + "(each violation is replayed on the compiled code; sampled verified paths are too)",
		}, pc.Assumes...),
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
			"assertions_decided": asserts, "solver_queries": queries, "queries_answered_from_cache": cached, "solver_s": solver,
			"functions_encoded": fl, "runs": perRun,
			"explanation": "states = symbolic paths completed + forks taken; transitions = SSA instructions executed symbolically; exhaustive = every path within the bounds was decided",
		},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(j, '\n'), 0o644)
	switch {
	case failed:
		return 1
	case errored && decided == 0:
		return 2
	case errored:
		fmt.Printf("NOTE property=%s: only %d of %d runs decided something; the evidence says which\n", prop, decided, len(runs))
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(t0).Seconds())
	return 0
}

func findKnown(ks []knownFinding, prop, run, label string) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.prop == prop && k.run == run && k.label == label {
			return k
		}
	}
	return nil
}

func hexmap(in map[string]uint64) map[string]string {
	out := map[string]string{}
	for k, v := range in {
		out[k] = fmt.Sprintf("0x%x", v)
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
