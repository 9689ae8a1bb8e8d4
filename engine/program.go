package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var stringType types.Type = types.Typ[types.String]

type Program struct {
	prog      *ssa.Program
	mu        sync.Mutex
	pureCache sync.Map
	built     sync.Map
	pkgs      map[string]*ssa.Package
	rtErr     types.Type
}

func loadProgram(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.rtErr = t.Type()
		}
	}
	if p.rtErr == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	return p, nil
}

func (p *Program) build(f *ssa.Function) {
	pkg := f.Pkg
	if pkg == nil {
		if o := f.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg == nil {
		return
	}
	if _, ok := p.built.Load(pkg); ok {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, ok := p.built.Load(pkg); ok {
		return
	}
	pkg.Build()
	p.built.Store(pkg, true)
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic("package " + pkg + " not loaded")
	}
	f := sp.Func(name)
	if f == nil {
		panic("function " + pkg + "." + name + " not found")
	}
	return f
}

// packages whose initialisers are interpreted
func initWanted(path string) bool {
	if strings.HasPrefix(path, "github.com/lyraproj/") || strings.HasPrefix(path, "vpharness") {
		return true
	}
	switch path {
	case "io", "strings", "bytes", "strconv", "unicode", "unicode/utf8", "sort", "slices", "math", "math/bits", "container/list", "container/heap", "path", "bufio", "text/scanner", "internal/bytealg", "internal/stringslite", "io/fs", "internal/oserror":
		return true
	}
	return false
}

func (in *Interp) needInit(pkg *ssa.Package) {
	if pkg == nil || in.inits[pkg] {
		return
	}
	in.inits[pkg] = true
	path := pkg.Pkg.Path()
	if !initWanted(path) {
		return
	}
	if path == "internal/bytealg" {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	// save path state: initialisation is independent of it
	wasInit, spec, fr, steps := in.initing, in.spec, in.curFr, in.steps
	in.initing, in.spec, in.curFr = true, 0, nil
	in.callFn(in.fn(f), nil, nil, nil)
	in.initing, in.spec, in.curFr, in.steps = wasInit, spec, fr, steps
}
