package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	main  *ssa.Package
	pkgs  []*ssa.Package
	base  *State
	codes sync.Map // *ssa.Function -> *Code
	mu    sync.Mutex
	built map[*ssa.Package]bool
	// functions whose declaration carries //go:linkname X runtime.memhash
	memhash map[string]bool
	srcDirs map[string]string // package path -> dir (for reporting)
	modPkgs map[string]bool   // packages interpreted in full (init included)
	msets   sync.Map
}

var (
	gMu   sync.RWMutex
	gIdx  = map[*ssa.Global]int{}
	gList []*ssa.Global
	fMu   sync.RWMutex
	fIdx  = map[*ssa.Function]int{}
	fList []*ssa.Function
)

func globalAddr(g *ssa.Global) uint64 {
	gMu.Lock()
	defer gMu.Unlock()
	i, ok := gIdx[g]
	if !ok {
		i = len(gList)
		gIdx[g] = i
		gList = append(gList, g)
	}
	return globalBase + uint64(i)<<objShift
}

func globalByIdx(i int) *ssa.Global {
	gMu.RLock()
	defer gMu.RUnlock()
	if i >= len(gList) {
		return nil
	}
	return gList[i]
}

func fnAddr(f *ssa.Function) uint64 {
	fMu.Lock()
	defer fMu.Unlock()
	i, ok := fIdx[f]
	if !ok {
		i = len(fList)
		fIdx[f] = i
		fList = append(fList, f)
	}
	return fnBase + uint64(i)*16 + 16
}

func fnByAddr(a uint64) *ssa.Function {
	if a < fnBase+16 || a >= fnBase+regionEnd {
		return nil
	}
	fMu.RLock()
	defer fMu.RUnlock()
	i := (a - fnBase - 16) / 16
	if i >= uint64(len(fList)) || (a-fnBase)%16 != 0 {
		return nil
	}
	return fList[i]
}

func loadProgram(dir, pattern string, overlay map[string][]byte, env []string, interp func(pkgPath string) bool) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if interp(p.PkgPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: cfg.Fset, built: map[*ssa.Package]bool{}, memhash: map[string]bool{}, modPkgs: map[string]bool{}, srcDirs: map[string]string{}}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !interp(pk.PkgPath) {
			return
		}
		p.modPkgs[pk.PkgPath] = true
		if len(pk.GoFiles) > 0 {
			p.srcDirs[pk.PkgPath] = filepath.Dir(pk.GoFiles[0])
		}
		for _, f := range pk.Syntax {
			scanLinkname(p, pk.PkgPath, f)
		}
	})
	for _, sp := range prog.AllPackages() {
		if p.modPkgs[sp.Pkg.Path()] {
			sp.Build()
			p.built[sp] = true
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			p.main = sp
			p.pkgs = append(p.pkgs, sp)
		}
	}
	if p.main == nil {
		return nil, fmt.Errorf("no package for %s", pattern)
	}
	return p, nil
}

func scanLinkname(p *Program, pkg string, f *ast.File) {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			fs := strings.Fields(c.Text)
			if len(fs) == 3 && fs[0] == "//go:linkname" {
				switch fs[2] {
				case "runtime.memhash", "runtime.strhash", "runtime.memhash64", "runtime.memhash32":
					p.memhash[pkg+"."+fs[1]] = true
				}
			}
		}
	}
}

// ensure the function's package has SSA bodies.
func (p *Program) ensureBuilt(fn *ssa.Function) {
	pk := fn.Package()
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Package()
		}
	}
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (p *Program) code(fn *ssa.Function) *Code {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	p.ensureBuilt(fn)
	c := p.compile(fn)
	act, _ := p.codes.LoadOrStore(fn, c)
	return act.(*Code)
}

func (p *Program) newState() *State {
	st := p.base
	c := *st
	c.epoch = nextEpoch()
	c.objs = append(make([]*Object, 0, len(st.objs)+256), st.objs...)
	c.globs = append([]*Object(nil), st.globs...)
	c.names = map[string]int{}
	c.model = Model{}
	c.maxPre = 0
	return &c
}

// initBase runs package initialisation concretely.
func (p *Program) initBase() error {
	st := &State{epoch: nextEpoch(), names: map[string]int{}}
	ex := newExplorer(p, nil, 1, 1<<40)
	ex.maxSteps = 1 << 40
	w := &Worker{ex: ex}
	st.w = w
	fn := p.main.Func("init")
	fr := newFrame(st, p.code(fn), nil, nil)
	st.threads = []*Thread{{frames: []*Frame{fr}}}
	end := w.exec(st)
	if end.kind != endDone {
		for _, v := range ex.viol {
			fmt.Fprintf(os.Stderr, "init: %+v\n", v)
		}
		return fmt.Errorf("package initialisation could not be interpreted: %v %s", end.kind, end.msg)
	}
	st.threads = nil
	st.steps = 0
	p.base = st
	return nil
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if f, ok := p.msets.Load(k); ok {
		return f.(*ssa.Function)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f != nil {
		p.msets.Store(k, f)
	}
	return f
}

func isStd(path string) bool {
	i := strings.IndexByte(path, '/')
	first := path
	if i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".") && first != "verifharness"
}
