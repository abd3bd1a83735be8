package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked and SSA-lowered program under analysis.
type Prog struct {
	leaves  map[*ssa.Function]bool
	wparam  map[*ssa.Parameter]int
	Dir     string
	Overlay map[string][]byte
	Module  string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*ssa.Package
	local   map[*ssa.Package]bool
	all     []*ssa.Function // every repo function incl. instances, wrappers
}

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	return loadFor(dir, overlay, "", "./...")
}

// loadFor loads packages as built for another operating system.
func loadFor(dir string, overlay map[string][]byte, goos, pattern string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	if goos != "" {
		cfg.Env = append(cfg.Env, "GOOS="+goos)
	}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Overlay: overlay, ByPath: map[string]*ssa.Package{}, local: map[*ssa.Package]bool{}}
	var errs []string
	for _, q := range ps {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
		if q.Module != nil && p.Module == "" {
			p.Module = q.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	p.Pkgs = ps
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.ByPath[ps[i].PkgPath] = sp
		p.local[sp] = true
	}
	// method sets of generic instances are built lazily: iterate to a fixpoint
	fns := ssautil.AllFunctions(prog)
	for n := -1; n != len(fns); {
		n = len(fns)
		fns = ssautil.AllFunctions(prog)
	}
	for f := range fns {
		if p.isLocal(f) {
			p.all = append(p.all, f)
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
	return p, nil
}

// isLocal reports whether fn's body belongs to the repository.
func (p *Prog) isLocal(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if pk := pkgOf(fn); pk != nil {
		return strings.HasPrefix(pk.Path(), p.Module)
	}
	return false
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg()
		}
	}
	return nil
}

// short path under the module, e.g. "lightstep/sdk/metric".
func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ByPath[p.Module]
	}
	return p.ByPath[p.Module+"/"+rel]
}

func (p *Prog) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) typ(rel, name string) *types.Named {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	m := pk.Type(name)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// method finds method `name` on T or *T.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Prog) methodOf(rel, typ, name string) *ssa.Function {
	t := p.typ(rel, typ)
	if t == nil {
		return nil
	}
	return p.method(t, name)
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Prog) posOf(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest positioned instruction in the block, else the function
	b := in.Block()
	if b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for d := 1; d < len(b.Instrs); d++ {
			for _, j := range []int{idx - d, idx + d} {
				if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
					return p.pos(b.Instrs[j].Pos())
				}
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

func (p *Prog) isTestFile(pos token.Pos) bool {
	return strings.HasSuffix(p.Fset.Position(pos).Filename, "_test.go")
}

// fnName is a readable name without instantiation noise.
func (p *Prog) fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, p.Module+"/", "")
	if i := strings.Index(s, "["); i >= 0 && f.Origin() != nil {
		s = strings.ReplaceAll(f.Origin().String(), p.Module+"/", "")
	}
	return s
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// originName is pkgpath-relative "pkg.Type" of a (possibly generic) named type.
func originName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	o := n.Origin().Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := derefT(t).Underlying().(*types.Struct)
	return s
}

// fieldOf returns the field accessed by a FieldAddr/Field instruction.
func fieldOf(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if s := structOf(x.X.Type()); s != nil {
			return s.Field(x.Field)
		}
	case *ssa.Field:
		if s := structOf(x.X.Type()); s != nil {
			return s.Field(x.Field)
		}
	}
	return nil
}
