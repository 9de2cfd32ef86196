package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/datawire/ocibuild"

var repoDir = "/repo"

type Program struct {
	prog           *ssa.Program
	pkgs           []*packages.Package
	spkgs          map[string]*ssa.Package
	fset           *token.FileSet
	infos          map[*ssa.Function]*fnInfo
	ids            map[ssa.Instruction]int
	globals        *State
	mutableGlobals map[string]bool
	fns            []*ssa.Function // all repository functions with bodies, deterministic order
	initNotes      []string
}

func (p *Program) instrID(in ssa.Instruction) int {
	if i, ok := p.ids[in]; ok {
		return i
	}
	i := len(p.ids) + 1
	p.ids[in] = i
	return i
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func loadProgram(tags string) (*Program, error) {
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GO111MODULE": "on", "GOWORK": "off"} {
		os.Setenv(k, v)
	}
	os.Unsetenv("GOROOT")
	// dlib needs Go 1.20 (see /opt/vp/env.sh); the go command is looked up in this process's PATH
	tc := "/root/go/pkg/mod/golang.org/toolchain@v0.0.1-go1.20.14.linux-amd64/bin"
	if _, err := os.Stat(tc + "/go"); err == nil && !strings.HasPrefix(os.Getenv("PATH"), tc) {
		os.Setenv("PATH", tc+":"+os.Getenv("PATH"))
	}
	env := os.Environ()
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule,
		Dir:   repoDir,
		Env:   env,
		Tests: false,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	for _, p := range pkgs {
		if p.IllTyped && len(errs) == 0 {
			errs = append(errs, p.PkgPath+" is ill-typed")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, fset: prog.Fset, infos: map[*ssa.Function]*fnInfo{}, ids: map[ssa.Instruction]int{}, mutableGlobals: map[string]bool{}}
	for i, p := range sp {
		if p != nil {
			P.spkgs[pkgs[i].PkgPath] = p
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if len(f.Blocks) > 0 && inRepo(f) && f.Synthetic == "" || (len(f.Blocks) > 0 && f.Synthetic == "package initializer" && inRepo(f)) {
			P.fns = append(P.fns, f)
		}
	}
	sort.Slice(P.fns, func(i, j int) bool {
		if P.fns[i].String() != P.fns[j].String() {
			return P.fns[i].String() < P.fns[j].String()
		}
		return P.fns[i].Pos() < P.fns[j].Pos()
	})
	// fix instruction numbering
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				P.instrID(in)
			}
		}
	}
	P.findMutableGlobals()
	return P, nil
}

func (p *Program) findMutableGlobals() {
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			return false
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for _, f := range p.fns {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					switch in.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue // element reads; stores through them are caught by name below
					}
					p.mutableGlobals[g.Pkg.Pkg.Path()+"."+g.Name()] = true
				}
			}
		}
	}
}

// evalInits interprets the package initialisers so that package-level tables are known values.
func (p *Program) evalInits() {
	st := newState()
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if seen[sp.Pkg] {
			return
		}
		seen[sp.Pkg] = true
		imps := append([]*types.Package{}, sp.Pkg.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if d := p.spkgs[i.Path()]; d != nil {
				visit(d)
			}
		}
		order = append(order, sp)
	}
	var paths []string
	for k := range p.spkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(p.spkgs[k])
	}
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		e := p.engine()
		e.initMode = true
		e.noCallbacks = true
		e.opaque[modPath+"/pkg/python/pep440.ParseVersion"] = true
		e.hooks.Model = func(e *Eng, s *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn != nil && ev.Fn.Name() == "init" && ev.Fn.Synthetic == "package initializer" {
				return []callOut{{s, tNil}}, true
			}
			return nil, false
		}
		p.globals = st
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.initNotes = append(p.initNotes, fmt.Sprintf("package initialiser of %s not evaluated: %v", sp.Pkg.Path(), r))
				}
			}()
			s := st.clone()
			s.mem[e.globalTerm(sp.Var("init$guard"))] = tFalse
			exits := e.runFn(fn, "init:"+sp.Pkg.Path()+";", nil, nil, s)
			var rets []exit
			for _, x := range exits {
				if x.kind == exitRet {
					rets = append(rets, x)
				}
			}
			if os.Getenv("OCHECK_DEBUG") != "" {
				fmt.Println("init", sp.Pkg.Path(), len(exits), len(rets), e.steps)
			}
			if len(rets) == 0 {
				p.initNotes = append(p.initNotes, "package initialiser of "+sp.Pkg.Path()+" has no normal exit")
				return
			}
			m := rets[0].st
			for _, x := range rets[1:] {
				for k, v := range m.mem {
					if x.st.mem[k] != v {
						delete(m.mem, k)
					}
				}
			}
			m.facts = map[*Term]bool{}
			m.eq = map[*Term]*Term{}
			m.rng = map[*Term]rng{}
			m.marks = map[string]*Term{}
			m.trace = nil
			st = m
		}()
	}
	st.regs = nil
	p.globals = st
	baseMem = st
}

func (p *Program) engine() *Eng {
	return &Eng{P: p, opaque: map[string]bool{}, maxSteps: 40_000_000, maxRec: 0, inflow: map[*Term]map[*Term]bool{}, fns: map[*ssa.Function]bool{}, callsites: map[ssa.Instruction]bool{}, mergeAt: 400}
}

// fn finds a package-level function or method: pkg "pkg/dir", name "LayerFromDir" or "(*T).M"/"T.M".
func (p *Program) fn(pkg, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.spkgs[path]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		mn := name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.prog.MethodSets.MethodSet(ty)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == mn {
					f := p.prog.MethodValue(ms.At(j))
					if f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}
