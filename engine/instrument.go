package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumented build decides properties of concurrent use.  The packages
// that hold shared state are copied to the scratch directory and
// vsched.Yield() is inserted before every statement that touches memory
// another goroutine may reach; locks become cooperative ones.  The engine and
// the native replay are built from the same copies, so that a schedule (the
// numbers of the yields at which a goroutine is preempted) means the same in
// both.

type schedMod struct {
	path string // module path
	subs []string
}

var schedMods = []schedMod{
	{path: "github.com/kazu/elist_head", subs: []string{"."}},
	{path: "github.com/kazu/loncha", subs: []string{".", "lista_encabezado"}},
	{path: "github.com/lk4d4/trylock", subs: []string{"."}},
}

const vschedImport = "verifharness/vsched"

// schedModfile writes the instrumented copies once and returns the go.mod
// that uses them.
func (s *scratch) schedModfile() (string, error) {
	root := filepath.Join(s.dir, "sched")
	mf := filepath.Join(root, "go.mod")
	if _, err := os.Stat(mf); err == nil {
		return mf, nil
	}
	if err := os.MkdirAll(root, 0o755); err != nil {
		return "", err
	}
	base, err := os.ReadFile(s.modfile())
	if err != nil {
		return "", err
	}
	cmd := exec.Command(filepath.Join(goBin, "go"), "list", "-modfile", s.modfile(), "-deps", "-f", "{{with .Module}}{{.Path}}\t{{.Dir}}{{end}}", "./h")
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = goEnv()
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	dirs := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.SplitN(l, "\t", 2); len(f) == 2 && f[1] != "" {
			dirs[f[0]] = f[1]
		}
	}
	var reps strings.Builder
	copyMod := func(path, dir, dst string, subs []string) error {
		for _, sub := range subs {
			if err := instrumentDir(filepath.Join(dir, sub), filepath.Join(dst, sub)); err != nil {
				return err
			}
		}
		gm, err := os.ReadFile(filepath.Join(dir, "go.mod"))
		if err != nil {
			gm = []byte("module " + path + "\n\ngo 1.17\n")
		}
		return os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0o644)
	}
	// the repository: every package directory
	subs := map[string]bool{}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repoDir {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			r, _ := filepath.Rel(repoDir, filepath.Dir(p))
			subs[r] = true
		}
		return nil
	})
	var sl []string
	for k := range subs {
		sl = append(sl, k)
	}
	sort.Strings(sl)
	if err := copyMod("github.com/kazu/skiplistmap", repoDir, filepath.Join(root, "repo"), sl); err != nil {
		return "", err
	}
	txt := strings.Replace(string(base), "=> "+repoDir, "=> "+filepath.Join(root, "repo"), 1)
	for _, m := range schedMods {
		d, ok := dirs[m.path]
		if !ok {
			return "", fmt.Errorf("module %s not found: %v %s", m.path, err, se.String())
		}
		dst := filepath.Join(root, filepath.Base(m.path))
		if err := copyMod(m.path, d, dst, m.subs); err != nil {
			return "", err
		}
		fmt.Fprintf(&reps, "\nreplace %s => %s\n", m.path, dst)
	}
	sum, _ := os.ReadFile(filepath.Join(s.dir, "go.sum"))
	os.WriteFile(filepath.Join(root, "go.sum"), sum, 0o644)
	if err := os.WriteFile(mf, []byte(txt+reps.String()), 0o644); err != nil {
		return "", err
	}
	return mf, nil
}

// instrumentDir writes instrumented copies of the non-test Go files of dir.
func instrumentDir(dir, dst string) error {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	wide := wideFields(dir, es)
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if !strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, ".s") && !strings.HasSuffix(n, ".h") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		if strings.HasSuffix(n, ".go") {
			src, err = instrumentFile(n, src, wide)
			if err != nil {
				return err
			}
		}
		if err := os.WriteFile(filepath.Join(dst, n), src, 0o644); err != nil {
			return err
		}
	}
	return nil
}

type insertion struct {
	pos int
	del int
	txt string
	seq int
}

type instr struct {
	fset *token.FileSet
	src  []byte
	pkgs map[string]bool // names of imported packages
	ins  []insertion
	wide map[string]string
	used bool // of package unsafe
}

// wideFields names the struct fields of the package whose values take more
// than one word, so that a plain assignment is more than one write.
func wideFields(dir string, es []os.DirEntry) map[string]string {
	fset := token.NewFileSet()
	named := map[string]ast.Expr{}
	var structs []*ast.StructType
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.TypeSpec:
				named[n.Name.Name] = n.Type
			case *ast.StructType:
				structs = append(structs, n)
			}
			return true
		})
	}
	var kind func(t ast.Expr, depth int) string
	kind = func(t ast.Expr, depth int) string {
		switch t := t.(type) {
		case *ast.ArrayType:
			if t.Len == nil {
				return "Slice"
			}
		case *ast.InterfaceType:
			return "Iface"
		case *ast.Ident:
			if t.Name == "any" || t.Name == "error" {
				return "Iface"
			}
			if t.Name == "string" {
				return "String"
			}
			if u, ok := named[t.Name]; ok && depth < 8 {
				return kind(u, depth+1)
			}
		}
		return ""
	}
	r := map[string]string{}
	for _, s := range structs {
		for _, f := range s.Fields.List {
			k := kind(f.Type, 0)
			for _, n := range f.Names {
				if o, ok := r[n.Name]; ok && o != k {
					r[n.Name] = ""
				} else {
					r[n.Name] = k
				}
			}
		}
	}
	return r
}

func (x *instr) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *instr) add(p int, del int, txt string) {
	x.ins = append(x.ins, insertion{p, del, txt, len(x.ins)})
}
func (x *instr) text(n ast.Node) string { return string(x.src[x.off(n.Pos()):x.off(n.End())]) }

func instrumentFile(name string, src []byte, wide map[string]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	x := &instr{fset: fset, src: src, wide: wide, pkgs: map[string]bool{}}
	syncName := ""
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		x.pkgs[n] = true
		if p == "sync" {
			syncName = n
		}
	}
	used := false
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body == nil {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				x.list(n.List)
			case *ast.CaseClause:
				x.list(n.Body)
			case *ast.CommClause:
				x.list(n.Body)
			case *ast.ForStmt:
				if n.Cond != nil && x.touches(n.Cond) || n.Post != nil && x.touches(n.Post) {
					x.add(x.off(n.Body.Lbrace)+1, 0, " vsched.Yield(); ")
				}
			case *ast.SelectorExpr:
				if id, ok := n.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && (n.Sel.Name == "Mutex" || n.Sel.Name == "RWMutex") {
					x.add(x.off(id.Pos()), len(id.Name), "vsched")
					used = true
				}
			}
			return true
		})
	}
	if len(x.ins) == 0 {
		return src, nil
	}
	tail := ""
	if used {
		tail = "\n\nvar _ " + syncName + ".Locker\n"
	}
	imp := "; import vsched \"" + vschedImport + "\""
	if x.used {
		imp += "; import vunsafe \"unsafe\""
	}
	x.add(x.off(f.Name.End()), 0, imp)
	sort.SliceStable(x.ins, func(i, j int) bool {
		if x.ins[i].pos != x.ins[j].pos {
			return x.ins[i].pos < x.ins[j].pos
		}
		return x.ins[i].seq < x.ins[j].seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range x.ins {
		if e.pos < at {
			// inside a replaced statement
			continue
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.txt)
		at = e.pos + e.del
	}
	out.Write(src[at:])
	out.WriteString(tail)
	if !bytes.Contains(out.Bytes(), []byte("vsched.")) {
		return src, nil
	}
	return out.Bytes(), nil
}

// list inserts the scheduling points of a statement list.
func (x *instr) list(l []ast.Stmt) {
	for _, s := range l {
		inner := s
		for {
			ls, ok := inner.(*ast.LabeledStmt)
			if !ok {
				break
			}
			inner = ls.Stmt
		}
		if inner == s && x.split(s) {
			continue
		}
		if x.stmtTouches(inner) {
			x.add(x.off(s.Pos()), 0, "vsched.Yield(); ")
		}
	}
}

// split turns an unsynchronised read-modify-write into its two accesses.
func (x *instr) split(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !x.touches(s.X) || hasCall(s.X) {
			return false
		}
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		l := x.text(s.X)
		x.add(x.off(s.Pos()), x.off(s.End())-x.off(s.Pos()), fmt.Sprintf("vsched.Yield(); { vt_ := %s; vsched.Yield(); %s = vt_ %s 1 }", l, l, op))
		return true
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
			// a slice or an interface is written word by word
			f, ok := s.Lhs[0].(*ast.SelectorExpr)
			if !ok || hasCall(f.X) || x.wide[f.Sel.Name] == "" || hasFunc(s.Rhs[0]) {
				return false
			}
			if id, ok := f.X.(*ast.Ident); ok && id.Obj == nil && x.pkgs[id.Name] {
				return false
			}
			l, r := x.text(f), x.text(s.Rhs[0])
			x.used = true
			x.add(x.off(s.Pos()), x.off(s.End())-x.off(s.Pos()), fmt.Sprintf("vsched.Yield(); { vt_ := %s; vt_ = %s; vsched.Store%s(vunsafe.Pointer(&%s), vunsafe.Pointer(&vt_)) }", l, r, x.wide[f.Sel.Name], l))
			return true
		}
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE || len(s.Lhs) != 1 || !x.touches(s.Lhs[0]) || hasCall(s.Lhs[0]) || hasCall(s.Rhs[0]) {
			return false
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		l, r := x.text(s.Lhs[0]), x.text(s.Rhs[0])
		if strings.Contains(r, "\n") {
			return false
		}
		x.add(x.off(s.Pos()), x.off(s.End())-x.off(s.Pos()), fmt.Sprintf("vsched.Yield(); { vt_ := %s; vsched.Yield(); %s = vt_ %s (%s) }", l, l, op, r))
		return true
	}
	return false
}

func hasFunc(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			r = true
		}
		return !r
	})
	return r
}

func hasCall(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return !r
	})
	return r
}

// stmtTouches looks at the parts of a statement that run before its blocks.
func (x *instr) stmtTouches(s ast.Stmt) bool {
	opt := func(ns ...ast.Node) bool {
		for _, n := range ns {
			if n != nil && x.touches(n) {
				return true
			}
		}
		return false
	}
	st := func(s ast.Stmt) ast.Node {
		if s == nil {
			return nil
		}
		return s
	}
	ex := func(e ast.Expr) ast.Node {
		if e == nil {
			return nil
		}
		return e
	}
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.IfStmt:
		if opt(st(s.Init), ex(s.Cond)) {
			return true
		}
		for e := s.Else; e != nil; {
			i, ok := e.(*ast.IfStmt)
			if !ok {
				break
			}
			if opt(st(i.Init), ex(i.Cond)) {
				return true
			}
			e = i.Else
		}
		return false
	case *ast.ForStmt:
		return opt(st(s.Init), ex(s.Cond))
	case *ast.RangeStmt:
		return opt(s.X)
	case *ast.SwitchStmt:
		return opt(st(s.Init), ex(s.Tag))
	case *ast.TypeSwitchStmt:
		return opt(st(s.Init), st(s.Assign))
	case *ast.SelectStmt:
		return true
	case *ast.GoStmt:
		return false
	case *ast.DeclStmt:
		return opt(s)
	}
	return x.touches(s)
}

// touches reports whether evaluating n may read or write shared memory
// itself (what its callees do has scheduling points of its own).
func (x *instr) touches(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if r {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.ParenExpr:
				if _, ok := f.X.(*ast.StarExpr); ok { // a conversion
					for _, a := range n.Args {
						if x.touches(a) {
							r = true
						}
					}
					return false
				}
			case *ast.SelectorExpr:
				if id, ok := f.X.(*ast.Ident); ok && id.Obj == nil && x.pkgs[id.Name] {
					switch {
					case strings.HasPrefix(id.Name, "atomic"):
						r = true
						return false
					case id.Name == "unsafe" || id.Name == "bits":
						// the arguments decide
					}
				} else {
					switch f.Sel.Name {
					case "Load", "Store", "Swap", "CompareAndSwap", "Add":
						r = true
						return false
					}
					// a method call: the receiver decides
					if x.touches(f.X) {
						r = true
						return false
					}
				}
				for _, a := range n.Args {
					if x.touches(a) {
						r = true
					}
				}
				return false
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && id.Obj == nil && x.pkgs[id.Name] {
				return false
			}
			r = true
			return false
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				// taking an address reads nothing by itself
				if s, ok := n.X.(*ast.SelectorExpr); ok {
					if _, ok := s.X.(*ast.Ident); ok {
						return false
					}
				}
				if _, ok := n.X.(*ast.CompositeLit); ok {
					return true
				}
			}
			if n.Op == token.ARROW {
				r = true
				return false
			}
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.SendStmt:
			r = true
			return false
		case *ast.TypeAssertExpr:
			if x.touches(n.X) {
				r = true
			}
			return false
		case *ast.ValueSpec:
			for _, v := range n.Values {
				if x.touches(v) {
					r = true
				}
			}
			return false
		case *ast.CompositeLit:
			for _, v := range n.Elts {
				if x.touches(v) {
					r = true
				}
			}
			return false
		case *ast.KeyValueExpr:
			if x.touches(n.Value) {
				r = true
			}
			return false
		}
		return true
	})
	return r
}
