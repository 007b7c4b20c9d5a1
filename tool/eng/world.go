package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded, type-checked program in SSA form.
type World struct {
	Prog *ssa.Program
	Pkgs []*packages.Package
	SSA  map[string]*ssa.Package // by path below the module
	Dir  string
}

// Load reads the repository from its current working tree.
func Load(dir string, overlay map[string][]byte, patterns ...string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: env}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, RepoMod) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), RepoMod) || followed[p.Pkg.Path()] {
			p.Build()
		}
	}
	w := &World{Prog: prog, Pkgs: ps, SSA: map[string]*ssa.Package{}, Dir: dir}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == RepoMod {
			w.SSA[""] = p
		} else if strings.HasPrefix(p.Pkg.Path(), RepoMod+"/") {
			w.SSA[strings.TrimPrefix(p.Pkg.Path(), RepoMod+"/")] = p
		}
	}
	return w, nil
}

// Func finds a package-level function.
func (w *World) Func(pkg, name string) *ssa.Function {
	p := w.SSA[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method finds a method of a named type.
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	p := w.SSA[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := w.Prog.MethodSets.MethodSet(tt)
		if s := ms.Lookup(p.Pkg, name); s != nil {
			if f := w.Prog.MethodValue(s); f != nil {
				return f
			}
		}
	}
	return nil
}

// Funcs lists the module's functions and methods with bodies.
func (w *World) Funcs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(w.Prog) {
		if p := PkgOf(f); p != nil && strings.HasPrefix(p.Path(), RepoMod) && len(f.Blocks) > 0 && !template(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// Type finds a named type.
func (w *World) Type(pkg, name string) types.Type {
	if p := w.SSA[pkg]; p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

// Init runs package initialisers abstractly.
func (x *Interp) Init(st *State, pkgs ...*ssa.Package) *State {
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		if f := p.Func("init"); f != nil {
			_, ns := x.Call(st, f, nil, nil, "init:"+p.Pkg.Path(), nil)
			if ns == nil {
				x.problem("package %s: initialiser does not return", p.Pkg.Path())
				continue
			}
			st = ns
		}
	}
	return st
}

// NewState is an empty memory.
func NewState() *State { return newState() }

// SymVal builds a symbolic value of type t named name.
func (x *Interp) SymVal(name string, t types.Type) Value {
	if ty, ok := tyOf(t); ok {
		return Sym(name, ty)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return x.NewSym(name, u.Elem())
	case *types.Slice:
		o := x.newObj(name, u.Elem())
		o.sym = true
		o.arr = true
		if x.Shape != nil {
			o.n = x.Shape(x, Key{o, ""}, u.Elem())
		}
		if o.n == nil {
			o.n = Fn("len", TI64, Str(name))
		}
		return &SliceV{&Ptr{obj: o}, I(0), o.n, o.n}
	case *types.Signature:
		return &FuncV{sym: name}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.SymVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	}
	return unk("symbolic %s", name)
}

// Run calls a function.
func (x *Interp) Run(st *State, fn *ssa.Function, args ...Value) (Value, *State) {
	x.nrun++
	return x.Call(st, fn, args, nil, fmt.Sprintf("run%d", x.nrun), nil)
}

// Load reads memory.
func (x *Interp) Load(st *State, p Value, t types.Type) Value { return x.load(st, p, t) }

// Store writes memory.
func (x *Interp) Store(st *State, p Value, t types.Type, v Value) { x.store(st, p, t, v, True()) }

// Elem addresses an element of a slice value.
func Elem(s Value, i *Term) Value {
	switch y := s.(type) {
	case *SliceV:
		return y.base.elem(Add(y.off, i))
	case *Ptr:
		return y.elem(i)
	case *IteV:
		return mkIte(y.c, Elem(y.a, i), Elem(y.b, i))
	}
	return unk("element of %s", ShowVal(s))
}

// Field addresses a struct field by name.
func (x *Interp) Field(p Value, name string) (Value, types.Type) {
	switch y := p.(type) {
	case *Ptr:
		t := ptrElem(y)
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return y.field(i), s.Field(i).Type()
				}
			}
		}
	case *IteV:
		a, t := x.Field(y.a, name)
		b, t2 := x.Field(y.b, name)
		if t == nil {
			t = t2
		}
		return mkIte(y.c, a, b), t
	}
	return unk("field %s", name), nil
}

// DumpFilter restricts Dump.
var DumpFilter *regexp.Regexp

// Dump prints the memory reachable from v (debugging).
func (x *Interp) Dump(st *State, v Value) {
	keys := st.AllKeys()
	var ks []Key
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return x.keyName(ks[i]) < x.keyName(ks[j]) })
	for _, k := range ks {
		if strings.HasPrefix(k.obj.name, "params.") || strings.HasPrefix(k.obj.name, "init.") {
			continue
		}
		c := st.get(k)
		if c.upd == nil {
			continue
		}
		if DumpFilter != nil && !DumpFilter.MatchString(x.keyName(k)) {
			continue
		}
		u := x.allCells(k)
		r := x.read(st, c, u.idx)
		s := ShowVal(r)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		fmt.Printf("   %s%v = %s\n", x.keyName(k), u.idx, s)
	}
}

// AllFuncs lists the library's functions with bodies (without main packages and the reference definitions).
func (w *World) AllFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs() {
		if w.InRepo(f) && PkgOf(f).Name() != "main" {
			r = append(r, f)
		}
	}
	return r
}

// Exported lists the library's exported functions and methods as declared.
func (w *World) Exported() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.AllFuncs() {
		if f.Pkg != nil && f.Synthetic == "" && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			r = append(r, f)
		}
	}
	return r
}

// Follow reports a function whose body is analysed.
func (w *World) Follow(f *ssa.Function) bool {
	p := PkgOf(f)
	return p != nil && len(f.Blocks) > 0 && followed[p.Path()] || w.InRepo(f)
}

// Analysed lists the library's functions and the instances of followed ones.
func (w *World) Analysed() []*ssa.Function {
	r := w.AllFuncs()
	for f := range ssautil.AllFunctions(w.Prog) {
		if w.Follow(f) && !w.InRepo(f) && !template(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// PkgOf is the package a function comes from, also for instances of generic functions, closures and wrappers.
func PkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	return nil
}

// template reports a generic function that is not instantiated.
func template(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.TypeParams().Len() > 0 && len(g.TypeArgs()) == 0 {
			return true
		}
	}
	return false
}

// followed are packages outside the repository whose functions are analysed like the repository's.
var followed = map[string]bool{"slices": true}

// InRepo reports a function of the repository.
func (w *World) InRepo(f *ssa.Function) bool {
	p := PkgOf(f)
	return p != nil && strings.HasPrefix(p.Path(), RepoMod) && !strings.HasSuffix(p.Path(), "zz_verifspec")
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	q := w.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			f = f[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
