package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type replayResult struct {
	confirmed bool
	outcome   string
	output    string
	path      string
}

// replayBin builds the harness natively, hashes hooked, with the same overlay
// the engine used.
func (s *scratch) replayBin(sched bool) (string, error) {
	if b, ok := s.binOf[sched]; ok {
		return b, s.binErr[sched]
	}
	bin, err := s.buildReplay(sched)
	s.binOf[sched], s.binErr[sched] = bin, err
	return bin, err
}

func harnessFuncs() []string {
	var out []string
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, filepath.Join(verifDir, "harness", "h"), nil, 0)
	if err != nil {
		return nil
	}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 {
					out = append(out, fd.Name.Name)
				}
			}
		}
	}
	return out
}

func (s *scratch) buildReplay(sched bool) (string, error) {
	ov := map[string][]byte{}
	mf, root := s.modfile(), repoDir
	if sched {
		var err error
		if mf, err = s.schedModfile(); err != nil {
			return "", err
		}
		root = filepath.Join(s.dir, "sched", "repo")
	}
	if err := hookMemhash(ov, root); err != nil {
		return "", err
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\t\"verifharness/h\"\n\t\"verifharness/vh\"\n)\n\nvar all = map[string]func(){\n")
	for _, f := range harnessFuncs() {
		fmt.Fprintf(&b, "\t%q: h.%s,\n", f, f)
	}
	b.WriteString("}\n\nfunc main() {\n\tb, err := os.ReadFile(os.Args[1])\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tvar r vh.Replay\n\tif err := json.Unmarshal(b, &r); err != nil {\n\t\tpanic(err)\n\t}\n\tvh.Setup(r)\n\tvh.Run(all[r.Func])\n}\n")
	ov[filepath.Join(verifDir, "harness", "cmd", "replay", "main.go")] = []byte(b.String())
	tag := "plain"
	if sched {
		tag = "sched"
	}
	od := filepath.Join(s.dir, "ov-"+tag)
	os.MkdirAll(od, 0o755)
	rep := map[string]string{}
	i := 0
	for k, v := range ov {
		f := filepath.Join(od, fmt.Sprintf("%d.go", i))
		i++
		if err := os.WriteFile(f, v, 0o644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	oj := filepath.Join(s.dir, "overlay-"+tag+".json")
	os.WriteFile(oj, j, 0o644)
	bin := filepath.Join(s.dir, "replay-"+tag)
	cmd := exec.Command(filepath.Join(goBin, "go"), "build", "-overlay", oj, "-modfile", mf, "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

// hookMemhash rewrites the body-less linkname declaration of runtime.memhash
// in the repository so that replay uses the solver's hash values.
func hookMemhash(ov map[string][]byte, root string) error {
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != root {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	for _, f := range files {
		src, ok := ov[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			src = b
		}
		if !bytes.Contains(src, []byte("runtime.memhash")) {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return err
		}
		out := append([]byte(nil), src...)
		type edit struct {
			pos int
			ins string
			del int
		}
		var eds []edit
		for _, cg := range af.Comments {
			for _, c := range cg.List {
				fs := strings.Fields(c.Text)
				if len(fs) == 3 && fs[0] == "//go:linkname" && fs[2] == "runtime.memhash" {
					for _, d := range af.Decls {
						fd, ok := d.(*ast.FuncDecl)
						if !ok || fd.Name.Name != fs[1] || fd.Body != nil {
							continue
						}
						var ps []string
						for _, p := range fd.Type.Params.List {
							for _, n := range p.Names {
								ps = append(ps, n.Name)
							}
						}
						if len(ps) != 3 {
							continue
						}
						eds = append(eds, edit{pos: fset.Position(fd.End()).Offset, ins: fmt.Sprintf(" { return vhook.Memhash(%s) }", strings.Join(ps, ", "))})
						eds = append(eds, edit{pos: fset.Position(c.Pos()).Offset, ins: "// ", del: 0})
						if fd.Doc != nil {
							for _, dc := range fd.Doc.List {
								if strings.HasPrefix(dc.Text, "//go:noescape") {
									eds = append(eds, edit{pos: fset.Position(dc.Pos()).Offset, ins: "// "})
								}
							}
						}
					}
				}
			}
		}
		if len(eds) == 0 {
			continue
		}
		eds = append(eds, edit{pos: fset.Position(af.Name.End()).Offset, ins: "; import vhook \"verifharness/hook\""})
		for len(eds) > 0 {
			k := 0
			for i := range eds {
				if eds[i].pos > eds[k].pos {
					k = i
				}
			}
			e := eds[k]
			eds = append(eds[:k], eds[k+1:]...)
			out = append(out[:e.pos:e.pos], append([]byte(e.ins), out[e.pos:]...)...)
		}
		ov[f] = out
	}
	return nil
}

// replay runs the concrete assignment against the real code.
func (s *scratch) replay(p *Program, fn string, params map[string]int, v *Violation, sched bool) replayResult {
	bin, err := s.replayBin(sched)
	if err != nil {
		return replayResult{outcome: "replay build failed", output: err.Error()}
	}
	f := filepath.Join(s.dir, "in.json")
	writeReplay(f, fn, params, v, sched)
	return runReplay(bin, f, v)
}

func writeReplay(path, fn string, params map[string]int, v *Violation, sched bool) {
	if params == nil {
		params = map[string]int{}
	}
	in := map[string]uint64{}
	for k, x := range v.Inputs {
		if x != 0 || strings.HasPrefix(k, mapOrder) {
			in[k] = x
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"func": fn, "inputs": in, "params": params, "label": v.Label, "kind": v.Kind, "sched": sched, "msg": v.Msg, "stack": strings.Split(v.Stack, "\n"),
	}, "", "  ")
	os.WriteFile(path, b, 0o644)
}

// runReplay repeats a replay that depends on the order of a map, which Go
// chooses anew every time.
func runReplay(bin, f string, v *Violation) replayResult {
	n := 1
	if b, _ := os.ReadFile(f); bytes.Contains(b, []byte(mapOrder)) {
		n = 60
	}
	var r replayResult
	for ; n > 0 && !r.confirmed; n-- {
		r = runReplay1(bin, f, v)
	}
	return r
}

func runReplay1(bin, f string, v *Violation) replayResult {
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", bin, f)
	cmd.Env = append(os.Environ(), "GODEBUG=clobberfree=1", "GOMAXPROCS=4", "GOTRACEBACK=single")
	var out limitBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	r := replayResult{output: out.String()}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case ctx.Err() != nil:
		r.outcome = "timeout"
		r.confirmed = true
	case code == 11:
		r.outcome = "assert"
		r.confirmed = true
	case code == 12:
		r.outcome = "assume"
	case code == 0:
		r.outcome = "ok"
	default:
		r.outcome = fmt.Sprintf("crash (exit %d)", code)
		r.confirmed = true
	}
	return r
}

type limitBuf struct{ bytes.Buffer }

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.Len() < 8192 {
		n := 8192 - l.Len()
		if n > len(p) {
			n = len(p)
		}
		l.Buffer.Write(p[:n])
	}
	return len(p), nil
}

// replayMain runs one recorded counterexample against /repo.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Sched bool `json:"sched"`
	}
	json.Unmarshal(b, &r)
	s := newScratch()
	defer s.close()
	bin, err := s.replayBin(r.Sched)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	abs, _ := filepath.Abs(file)
	rr := runReplay(bin, abs, nil)
	fmt.Println(rr.output)
	fmt.Println("outcome:", rr.outcome)
	if rr.confirmed {
		return 1
	}
	return 0
}
