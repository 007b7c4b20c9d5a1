package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model replaces the body of a function.
type Model func(x *Interp, st *State, args []Value, ctx string) (Value, bool)

// Interp is the dataflow engine: it computes, for a function and symbolic inputs, the final
// abstract memory as guarded array terms. Control-flow joins merge, loops are summarised.
var interpSeq int

type Interp struct {
	seq      int
	Prog     *ssa.Program
	Fset     *token.FileSet
	InScope  func(*ssa.Function) bool
	Shape    func(x *Interp, k Key, elem types.Type) *Term
	Models   map[string]Model
	roots    map[Key]*Content
	children map[Key]*Obj
	sites    map[string]*Obj
	globals  map[*ssa.Global]*Obj
	instrIDs map[ssa.Instruction]int
	loopsOf  map[*ssa.Function]*loopForest
	nobj     int
	nalloc   int
	active   []actVar
	depth    int

	Problems []string
	Panics   []PanicRec
	Bounds   []BoundRec
	NBounds  int
	Funcs    map[string]bool // analysed functions
	work     int
	NLoops   map[string]string
	Calls    map[string]int

	Conc    bool // record the events of concurrent execution
	Ev      []*Event
	spawn   *Event
	ghosts  map[Key]*Obj
	waitEv  []*Event
	epochs  []int
	PoolGet func(st *State, pool Value) (Value, bool)
	held    []string
	quiet   int
	budget  int
	nrun    int
}

type actVar struct {
	v *Term
	n *Term
}

// PanicRec is a reachable explicit panic.
type PanicRec struct {
	Fn, Pos, Msg string
	Cond         *Term
	Certain      bool
}

// BoundRec is an index obligation that was not discharged.
type BoundRec struct {
	Fn, Pos  string
	Cond     *Term
	Definite bool
	Unsafe   bool
	What     string
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	ctx    string
	defers []deferred
	rets   []retEdge
	parent *frame
	cur    ssa.Instruction
}

type deferred struct {
	instr *ssa.Defer
	fn    Value
	args  []Value
	pc    *pcNode
}

type retEdge struct {
	st   *State
	vals []Value
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	env      map[ssa.Value]Value // values of an unrolled loop at this exit
}

func NewInterp(prog *ssa.Program) *Interp {
	interpSeq++
	return &Interp{seq: interpSeq, Prog: prog, Fset: prog.Fset, Models: map[string]Model{}, roots: map[Key]*Content{}, children: map[Key]*Obj{},
		sites: map[string]*Obj{}, globals: map[*ssa.Global]*Obj{}, instrIDs: map[ssa.Instruction]int{},
		loopsOf: map[*ssa.Function]*loopForest{}, Funcs: map[string]bool{}, NLoops: map[string]string{}, Calls: map[string]int{}, budget: 40_000_000}
}

func (x *Interp) problem(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, p := range x.Problems {
		if p == s {
			return
		}
	}
	x.Problems = append(x.Problems, s)
}

func (x *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Interp) instrID(i ssa.Instruction) int {
	if n, ok := x.instrIDs[i]; ok {
		return n
	}
	n := len(x.instrIDs) + 1
	x.instrIDs[i] = n
	return n
}

// NewSym makes a caller-provided object.
func (x *Interp) NewSym(name string, t types.Type) *Ptr {
	o := x.newObj(name, t)
	o.sym = true
	return &Ptr{obj: o}
}

// NewSymSlice makes a caller-provided slice with n elements.
func (x *Interp) NewSymSlice(name string, elem types.Type, n *Term) *SliceV {
	o := x.newObj(name, elem)
	o.sym = true
	o.arr = true
	o.n = n
	return &SliceV{&Ptr{obj: o}, I(0), n, n}
}

// alloc creates (or reuses, for the same site and context) an object.
func (x *Interp) alloc(fr *frame, instr ssa.Instruction, what string, t types.Type, n *Term) *Ptr {
	key := fmt.Sprintf("%s@%d%s", fr.ctx, x.instrID(instr), what)
	o, ok := x.sites[key]
	if !ok {
		o = x.newObj(fmt.Sprintf("%s.%s#%d", fr.fn.Name(), allocName(instr), x.nobj+1), t)
		o.Where = x.pos(instr.Pos())
		o.nfam = len(x.active)
		x.sites[key] = o
	}
	x.nalloc++
	o.born = x.nalloc
	o.typ = t
	if n != nil {
		o.arr = true
		o.n = n
	}
	o.famN = nil
	p := &Ptr{obj: o}
	for _, a := range x.active {
		p.fam = append(p.fam, a.v)
		o.famN = append(o.famN, a.n)
	}
	return p
}

func allocName(i ssa.Instruction) string {
	switch a := i.(type) {
	case *ssa.Alloc:
		if a.Comment != "" {
			return a.Comment
		}
	}
	return "obj"
}

// Global returns the object of a package-level variable.
func (x *Interp) Global(g *ssa.Global) *Ptr {
	o, ok := x.globals[g]
	if !ok {
		o = x.newObj(g.Pkg.Pkg.Name()+"."+g.Name(), g.Type().Underlying().(*types.Pointer).Elem())
		if !x.inScopePkg(g.Pkg) {
			o.sym = true
		}
		o.Tag = "global"
		x.globals[g] = o
	}
	return &Ptr{obj: o}
}

func (x *Interp) inScopePkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), RepoMod)
}

// RepoMod is the module path of the analysed repository.
var RepoMod = "github.com/thedonutfactory/go-tfhe"

// ---------------------------------------------------------------- values

func (x *Interp) val(fr *frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return x.Global(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return &FuncV{bi: c}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return unkOf(v.Type(), "undefined "+v.Name()+" in "+fr.fn.Name())
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	ty, ok := tyOf(c.Type())
	if !ok {
		return unk("const %s", c)
	}
	switch ty {
	case TBool:
		return Bool(constant.BoolVal(c.Value))
	case TStr:
		return Str(constant.StringVal(c.Value))
	case TF64:
		v := constant.ToFloat(c.Value)
		// a float constant has the value of the nearest double
		f, _ := constant.Float64Val(v)
		return Float(f)
	case TC128:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Fn("complex", TC128, Float(re), Float(im))
	}
	iv := constant.ToInt(c.Value)
	if i, ok := constant.Int64Val(iv); ok {
		return Int(ty, i)
	}
	if u, ok := constant.Uint64Val(iv); ok {
		return Int(ty, int64(u))
	}
	return unk("const %s", c)
}

func (x *Interp) term(fr *frame, v ssa.Value) *Term {
	if t, ok := x.val(fr, v).(*Term); ok {
		return t
	}
	if ty, ok := tyOf(v.Type()); ok {
		return opaque("scalar "+v.Name(), ty)
	}
	return opaque("scalar", TI64)
}

func asIndex(t *Term) *Term {
	if t.ty == TI64 {
		return t
	}
	if t.ty == TU64 {
		// values used as indices are below 2^63
		return Conv(t, TI64)
	}
	return Conv(t, TI64)
}

// ---------------------------------------------------------------- loops of a function

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
}

type loopForest struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	inner map[*ssa.BasicBlock]*Loop // innermost loop of a block
	rpo   []*ssa.BasicBlock
	bad   bool
}

func (x *Interp) forest(fn *ssa.Function) *loopForest {
	if f, ok := x.loopsOf[fn]; ok {
		return f
	}
	f := &loopForest{loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		f.rpo = append(f.rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(f.rpo)-1; i < j; i, j = i+1, j-1 {
		f.rpo[i], f.rpo[j] = f.rpo[j], f.rpo[i]
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range f.rpo {
		num[b] = i
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					f.bad = true
					continue
				}
				L := f.loops[s]
				if L == nil {
					L = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.loops[s] = L
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if L.blocks[w] || !seen[w] {
						continue
					}
					L.blocks[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
	}
	var ls []*Loop
	for _, L := range f.loops {
		ls = append(ls, L)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].blocks) < len(ls[j].blocks) })
	for i, L := range ls {
		for _, M := range ls[i+1:] {
			if M.blocks[L.header] && M != L {
				L.parent = M
				break
			}
		}
		for b := range L.blocks {
			if f.inner[b] == nil {
				f.inner[b] = L
			}
		}
	}
	for _, L := range ls {
		for p := L; p != nil; p = p.parent {
			L.depth++
		}
	}
	x.loopsOf[fn] = f
	return f
}

// ---------------------------------------------------------------- function execution

// Call runs fn on args from st and returns its result and the final state (nil if it never returns).
func (x *Interp) Call(st *State, fn *ssa.Function, args []Value, binds []Value, ctx string, parent *frame) (Value, *State) {
	if x.depth > 60 {
		x.problem("call depth exceeded in %s", fn)
		return unkOf(fn.Signature.Results(), "recursion"), st
	}
	x.depth++
	defer func() { x.depth-- }()
	x.Funcs[fn.String()] = true
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, ctx: ctx, parent: parent}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	f := x.forest(fn)
	if f.bad {
		x.problem("irreducible control flow in %s", fn)
		return unkOf(fn.Signature.Results(), "irreducible"), st
	}
	basePC := st.pc
	x.execRegion(fr, f, nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], st.fork(), nil}}, nil)
	if len(fr.rets) == 0 {
		return unkOf(fn.Signature.Results(), "no return"), nil
	}
	cur := fr.rets[0]
	for _, r := range fr.rets[1:] {
		ns, sel := x.mergeStates(cur.st, r.st)
		vals := make([]Value, len(cur.vals))
		for i := range vals {
			vals[i] = mkIte(sel, cur.vals[i], r.vals[i])
		}
		cur = retEdge{ns, vals}
	}
	// facts established by panicking guards stay; facts about branches inside are dropped by the merge
	_ = basePC
	var rv Value
	switch len(cur.vals) {
	case 0:
		rv = &TupleV{}
	case 1:
		rv = cur.vals[0]
	default:
		rv = &TupleV{cur.vals}
	}
	return rv, cur.st
}

// execRegion executes the blocks of L (nil: whole function) from entry; edges leaving the region
// or returning to the region header are returned.
func (x *Interp) execRegion(fr *frame, f *loopForest, L *Loop, entry *ssa.BasicBlock, ins []edge, phiPre map[*ssa.Phi]Value) []edge {
	pending := map[*ssa.BasicBlock][]edge{entry: ins}
	var out []edge
	inRegion := func(b *ssa.BasicBlock) bool { return L == nil || L.blocks[b] }
	emit := func(es []edge) {
		for _, e := range es {
			if e.st == nil {
				continue
			}
			if !inRegion(e.to) || (L != nil && e.to == L.header) {
				out = append(out, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range f.rpo {
		if !inRegion(b) {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		pending[b] = nil
		if M := f.loops[b]; M != nil && M != L {
			emit(x.execLoop(fr, f, M, es))
			continue
		}
		pre := phiPre
		if b != entry {
			pre = nil
		}
		st := x.enter(fr, b, es, pre)
		if st == nil {
			continue
		}
		emit(x.execBlock(fr, b, st))
	}
	return out
}

// enter merges incoming edges and evaluates phis.
func (x *Interp) enter(fr *frame, b *ssa.BasicBlock, es []edge, pre map[*ssa.Phi]Value) *State {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if pre != nil {
		for _, p := range phis {
			fr.env[p] = pre[p]
		}
		st := es[0].st
		for _, e := range es[1:] {
			st, _ = x.mergeStates(st, e.st)
		}
		return st
	}
	st, vals := x.mergeEdges(fr, b, es, phis)
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return st
}

func (x *Interp) mergeEdges(fr *frame, b *ssa.BasicBlock, es []edge, phis []*ssa.Phi) (*State, []Value) {
	predIdx := func(from *ssa.BasicBlock) int {
		for i, p := range b.Preds {
			if p == from {
				return i
			}
		}
		return -1
	}
	var st *State
	var vals []Value
	var env map[ssa.Value]Value
	for _, e := range es {
		k := predIdx(e.from)
		cur := make([]Value, len(phis))
		for i, p := range phis {
			if k >= 0 {
				cur[i] = x.val(fr, p.Edges[k])
				if e.env != nil {
					if v, ok := e.env[p.Edges[k]]; ok {
						cur[i] = v
					}
				}
			}
		}
		if st == nil {
			st, vals = e.st, cur
			env = e.env
			continue
		}
		ns, sel := x.mergeStates(st, e.st)
		for i := range vals {
			vals[i] = mkIte(sel, vals[i], cur[i])
		}
		if e.env != nil || env != nil {
			ne := map[ssa.Value]Value{}
			get := func(m map[ssa.Value]Value, k ssa.Value) Value {
				if v, ok := m[k]; ok {
					return v
				}
				return fr.env[k]
			}
			for k := range env {
				ne[k] = nil
			}
			for k := range e.env {
				ne[k] = nil
			}
			for k := range ne {
				a, b := get(env, k), get(e.env, k)
				if a == nil {
					a = b
				}
				if b == nil {
					b = a
				}
				ne[k] = mkIte(sel, a, b)
			}
			env = ne
		}
		st = ns
	}
	for k, v := range env {
		fr.env[k] = v
	}
	return st, vals
}

// execBlock runs a block's instructions.
func (x *Interp) execBlock(fr *frame, b *ssa.BasicBlock, st *State) []edge {
	x.work++
	for _, in := range b.Instrs {
		x.budget--
		if x.budget < 0 {
			x.problem("analysis budget exceeded")
			return nil
		}
		fr.cur = in
		here.x, here.fr, here.cnt = x, fr, nil
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st, nil}}
		case *ssa.If:
			c := x.simp(st, x.term(fr, i.Cond))
			if c.isTrue() {
				return []edge{{b, b.Succs[0], st, nil}}
			}
			if c.isFalse() {
				return []edge{{b, b.Succs[1], st, nil}}
			}
			s1, s2 := st.fork(), st.fork()
			s1.assume(c)
			s2.assume(Not(c))
			return []edge{{b, b.Succs[0], s1, nil}, {b, b.Succs[1], s2, nil}}
		case *ssa.Return:
			var vs []Value
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r))
			}
			fr.rets = append(fr.rets, retEdge{st, vs})
			return nil
		case *ssa.Panic:
			msg := ""
			if v, ok := x.val(fr, i.X).(*IfaceV); ok {
				if t, ok := v.v.(*Term); ok {
					msg = t.String()
				}
			}
			if x.quiet == 0 {
				c := And(x.pcLits(st, nil)...)
				x.Panics = append(x.Panics, PanicRec{fr.fn.String(), x.pos(i.Pos()), msg, c, c.isTrue()})
			}
			return nil
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				_, ns := x.invoke(fr, st, d.fn, d.args, d.instr, fr.ctx+fmt.Sprintf("/d%d", x.instrID(d.instr)))
				if ns == nil {
					return nil
				}
				st = ns
			}
			fr.defers = nil
		case *ssa.Store:
			x.store(st, x.val(fr, i.Addr), i.Val.Type(), x.val(fr, i.Val), True())
		case *ssa.Defer:
			fv, args := x.callee(fr, st, &i.Call)
			fr.defers = append(fr.defers, deferred{i, fv, args, st.pc})
		case *ssa.Go:
			fv, args := x.callee(fr, st, &i.Call)
			st = x.doGo(fr, st, i, fv, args)
			if st == nil {
				return nil
			}
		case *ssa.Call:
			fv, args := x.callee(fr, st, &i.Call)
			r, ns := x.invoke(fr, st, fv, args, i, fmt.Sprintf("%s/%d", fr.ctx, x.instrID(i)))
			if ns == nil {
				return nil
			}
			st = ns
			if r == nil {
				r = unkOf(i.Type(), "call result")
			}
			fr.env[i] = r
		case *ssa.MapUpdate:
			x.mapUpdate(fr, st, i)
		case *ssa.Send, *ssa.Select:
			x.problem("unsupported instruction %T in %s", in, fr.fn)
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = x.eval(fr, st, v, in)
			} else {
				x.problem("unsupported instruction %T in %s", in, fr.fn)
			}
		}
	}
	return nil
}

func (x *Interp) callee(fr *frame, st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		if iv, ok := recv.(*IfaceV); ok {
			if m := x.Prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				return &FuncV{fn: m}, append([]Value{iv.v}, args...)
			}
		}
		return unk("dynamic call %s", c.Method), append([]Value{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return x.val(fr, c.Value), args
}

func (x *Interp) invoke(fr *frame, st *State, fv Value, args []Value, call ssa.Instruction, ctx string) (Value, *State) {
	switch f := fv.(type) {
	case *IteV:
		s1, s2 := st.fork(), st.fork()
		s1.assume(f.c)
		s2.assume(Not(f.c))
		r1, t1 := x.invoke(fr, s1, f.a, args, call, ctx+"t")
		r2, t2 := x.invoke(fr, s2, f.b, args, call, ctx+"f")
		if t1 == nil {
			return r2, t2
		}
		if t2 == nil {
			return r1, t1
		}
		ns, sel := x.mergeStates(t1, t2)
		return mkIte(sel, r1, r2), ns
	case *FuncV:
		if f.bi != nil {
			return x.builtin(fr, st, f.bi, args, call), st
		}
		if f.sym != "" {
			return x.symCall(f, args, call), st
		}
		fn := f.fn
		name := fnName(fn)
		x.Calls[name]++
		if m, ok := x.Models[name]; ok {
			if r, ok := m(x, st, args, ctx); ok {
				return r, st
			}
		}
		if len(fn.Blocks) == 0 || !x.inScope(fn) {
			return x.external(fr, st, fn, name, args, call, ctx), st
		}
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn {
				x.problem("recursive call of %s", fn)
				return unkOf(fn.Signature.Results(), "recursion"), st
			}
		}
		return x.Call(st, fn, args, f.binds, ctx, fr)
	}
	if c, ok := call.(ssa.CallInstruction); ok {
		x.problem("call of unknown function in %s at %s", fr.fn, x.pos(call.Pos()))
		return unkResults(c.Common().Signature().Results(), "unknown call"), st
	}
	return unk("unknown call"), st
}

func unkResults(t *types.Tuple, why string) Value {
	if t.Len() == 1 {
		return unkOf(t.At(0).Type(), why)
	}
	return unkOf(t, why)
}

// fnName is a stable readable function name (generic origin for instances).
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.String(), RepoMod+"/", "")
}

func (x *Interp) inScope(fn *ssa.Function) bool {
	if x.InScope != nil {
		return x.InScope(fn)
	}
	p := PkgOf(fn)
	return p != nil && (strings.HasPrefix(p.Path(), RepoMod) || followed[p.Path()])
}

// symCall applies an uninterpreted function value.
func (x *Interp) symCall(f *FuncV, args []Value, call ssa.Instruction) Value {
	var ts []*Term
	for _, a := range args {
		if t, ok := a.(*Term); ok {
			ts = append(ts, t)
		}
	}
	if c, ok := call.(ssa.CallInstruction); ok {
		r := c.Common().Signature().Results()
		if r.Len() == 1 {
			if ty, ok := tyOf(r.At(0).Type()); ok {
				return Fn(f.sym, ty, ts...)
			}
		}
		if r.Len() == 0 {
			return &TupleV{}
		}
		return unkResults(r, "uninterpreted "+f.sym)
	}
	return unk("uninterpreted %s", f.sym)
}

// ---------------------------------------------------------------- bounds obligations

func (x *Interp) checkIndex(fr *frame, st *State, i, n *Term, pos token.Pos, uns bool, what string) {
	if x.quiet > 0 {
		return
	}
	x.NBounds++
	if n == nil {
		return
	}
	lo := Not(Lt0(i))
	hi := Lt0(Sub(i, n))
	if lo.isTrue() && hi.isTrue() {
		return
	}
	c := x.simp(st, And(lo, hi))
	if c.isTrue() {
		return
	}
	x.Bounds = append(x.Bounds, BoundRec{fr.fn.String(), x.pos(pos), c, c.isFalse(), uns, what})
}

// ---------------------------------------------------------------- instructions

func (x *Interp) eval(fr *frame, st *State, v ssa.Value, in ssa.Instruction) Value {
	switch i := v.(type) {
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		p := x.alloc(fr, i, "", et, nil)
		x.zeroInit(st, p, et)
		return p
	case *ssa.MakeSlice:
		n := asIndex(x.term(fr, i.Len))
		c := asIndex(x.term(fr, i.Cap))
		et := i.Type().Underlying().(*types.Slice).Elem()
		p := x.alloc(fr, i, "", et, c)
		return &SliceV{p, I(0), n, c}
	case *ssa.FieldAddr:
		return x.fieldAddr(x.val(fr, i.X), i.Field)
	case *ssa.Field:
		return fieldOf(x.val(fr, i.X), i.Field)
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, x.val(fr, i.X), i.X.Type(), asIndex(x.term(fr, i.Index)), i.Pos())
	case *ssa.Index:
		a := x.val(fr, i.X)
		idx := asIndex(x.term(fr, i.Index))
		if av, ok := a.(*ArrV); ok {
			if idx.op == OConst && idx.iv >= 0 && int(idx.iv) < len(av.e) {
				return av.e[idx.iv]
			}
			var r Value
			for k := len(av.e) - 1; k >= 0; k-- {
				if r == nil {
					r = av.e[k]
				} else {
					r = mkIte(Eq(idx, I(int64(k))), av.e[k], r)
				}
			}
			return r
		}
		return unkOf(i.Type(), "index of unknown array")
	case *ssa.UnOp:
		return x.unop(fr, st, i)
	case *ssa.BinOp:
		return x.binop(i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Type(), i.Y.Type())
	case *ssa.Convert:
		return x.convert(fr, st, i)
	case *ssa.ChangeType:
		return x.val(fr, i.X)
	case *ssa.ChangeInterface:
		return x.val(fr, i.X)
	case *ssa.MultiConvert:
		return unkOf(i.Type(), "multiconvert")
	case *ssa.MakeInterface:
		return &IfaceV{i.X.Type(), x.val(fr, i.X)}
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(fr, b))
		}
		return f
	case *ssa.Extract:
		return extract(x.val(fr, i.Tuple), i.Index, i.Type())
	case *ssa.Slice:
		return x.slice(fr, st, i)
	case *ssa.SliceToArrayPointer:
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s, ok := x.val(fr, i.X).(*SliceV); ok {
			x.checkIndex(fr, st, I(n-1), s.len, i.Pos(), false, "slice to array pointer")
			p := s.base.elem(s.off)
			p.win = n
			return p
		}
		return unk("slice to array pointer")
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, i)
	case *ssa.Lookup:
		if t, ok := x.val(fr, i.X).(*Term); ok && t.ty == TStr {
			return opaque("string index", TU8)
		}
		return x.mapLookup(fr, st, i)
	case *ssa.MakeMap:
		return x.alloc(fr, i, "", i.Type(), nil)
	case *ssa.MakeChan, *ssa.Range, *ssa.Next:
		return unkOf(v.Type(), fmt.Sprintf("%T", v))
	}
	x.problem("unsupported value %T in %s", v, fr.fn)
	return unkOf(v.Type(), fmt.Sprintf("%T", v))
}

// zeroInit resets a reused allocation in straight-line re-execution (no-op for fresh objects).
func (x *Interp) zeroInit(st *State, p *Ptr, t types.Type) {
	// a site executed again in the same context and with the same family index only occurs when a
	// pass is repeated from the same entry state, where the object is still untouched
}

func (x *Interp) fieldAddr(pv Value, f int) Value {
	switch p := pv.(type) {
	case *Ptr:
		return p.field(f)
	case *IteV:
		return mkIte(p.c, x.fieldAddr(p.a, f), x.fieldAddr(p.b, f))
	case NilV:
		return unk("field of nil")
	}
	return unk("field of unknown pointer")
}

func fieldOf(v Value, f int) Value {
	switch s := v.(type) {
	case *StructV:
		return s.f[f]
	case *IteV:
		return mkIte(s.c, fieldOf(s.a, f), fieldOf(s.b, f))
	}
	return unk("field of unknown struct")
}

func extract(v Value, k int, t types.Type) Value {
	switch s := v.(type) {
	case *TupleV:
		if k < len(s.e) {
			return s.e[k]
		}
	case *IteV:
		return mkIte(s.c, extract(s.a, k, t), extract(s.b, k, t))
	}
	return unkOf(t, "extract")
}

func (x *Interp) indexAddr(fr *frame, st *State, b Value, bt types.Type, idx *Term, pos token.Pos) Value {
	switch p := b.(type) {
	case *SliceV:
		x.checkIndex(fr, st, idx, p.len, pos, false, "index")
		return p.base.elem(Add(p.off, idx))
	case *Ptr: // pointer to array
		n := int64(-1)
		if pt, ok := bt.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n = at.Len()
			}
		}
		if n >= 0 {
			x.checkIndex(fr, st, idx, I(n), pos, false, "array index")
		}
		return p.elem(idx)
	case *IteV:
		return mkIte(p.c, x.indexAddr(fr, st, p.a, bt, idx, pos), x.indexAddr(fr, st, p.b, bt, idx, pos))
	}
	return unk("index of unknown")
}

func (x *Interp) slice(fr *frame, st *State, i *ssa.Slice) Value {
	b := x.val(fr, i.X)
	var lo, hi, mx *Term
	lo = I(0)
	if i.Low != nil {
		lo = asIndex(x.term(fr, i.Low))
	}
	if i.High != nil {
		hi = asIndex(x.term(fr, i.High))
	}
	if i.Max != nil {
		mx = asIndex(x.term(fr, i.Max))
	}
	var do func(b Value) Value
	do = func(b Value) Value {
		switch p := b.(type) {
		case *SliceV:
			h := hi
			if h == nil {
				h = p.len
			}
			c := p.cap
			if mx != nil {
				c = mx
			}
			x.checkIndex(fr, st, lo, AddI(h, 1), i.Pos(), false, "slice low")
			x.checkIndex(fr, st, h, AddI(p.cap, 1), i.Pos(), false, "slice high")
			return &SliceV{p.base, Add(p.off, lo), Sub(h, lo), Sub(c, lo)}
		case *Ptr:
			pt, ok := i.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return unk("slice of pointer")
			}
			at, ok := pt.Elem().Underlying().(*types.Array)
			if !ok {
				return unk("slice of pointer")
			}
			n := I(at.Len())
			h := hi
			if h == nil {
				h = n
			}
			base := p
			off := lo
			if p.win > 0 {
				l := p.path[len(p.path)-1]
				base = &Ptr{obj: p.obj, fam: p.fam, path: p.path[:len(p.path)-1]}
				off = Add(l.idx, lo)
			}
			return &SliceV{base, off, Sub(h, lo), Sub(n, lo)}
		case *IteV:
			return mkIte(p.c, do(p.a), do(p.b))
		case NilV:
			if i.X.Type().Underlying() != nil {
				return NilV{}
			}
		case *Term:
			if p.ty == TStr {
				return opaque("substring", TStr)
			}
		}
		return unk("slice of unknown")
	}
	return do(b)
}

func (x *Interp) unop(fr *frame, st *State, i *ssa.UnOp) Value {
	v := x.val(fr, i.X)
	switch i.Op {
	case token.MUL:
		return x.load(st, v, i.Type())
	case token.NOT:
		if t, ok := v.(*Term); ok {
			return Not(t)
		}
	case token.SUB:
		if t, ok := v.(*Term); ok && t.ty.ring() {
			return Neg(t)
		}
		if t, ok := v.(*Term); ok && t.ty == TC128 {
			return Fn("cneg", TC128, t)
		}
	case token.XOR:
		if t, ok := v.(*Term); ok && t.ty.isInt() {
			return AddI(Neg(t), -1)
		}
	case token.ARROW:
		x.problem("channel receive in %s", fr.fn)
	}
	return unkOf(i.Type(), "unop "+i.Op.String())
}

func (x *Interp) binop(op token.Token, a, b Value, at, rt, bt types.Type) Value {
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if !oka || !okb {
		if op == token.EQL || op == token.NEQ {
			r := refEq(a, b)
			if op == token.NEQ {
				r = Not(r)
			}
			return r
		}
		return unkOf(rt, "binop on unknown")
	}
	if ta.ty == TC128 || tb.ty == TC128 {
		switch op {
		case token.EQL:
			return Eq(ta, tb)
		case token.NEQ:
			return Not(Eq(ta, tb))
		}
		return Fn("c"+op.String(), TC128, ta, tb)
	}
	if ta.ty == TStr {
		switch op {
		case token.ADD:
			if ta.op == OConst && tb.op == OConst {
				return Str(ta.name + tb.name)
			}
			return Fn("strcat", TStr, ta, tb)
		case token.EQL:
			return Eq(ta, tb)
		case token.NEQ:
			return Not(Eq(ta, tb))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return Fn("str"+op.String(), TBool, ta, tb)
		}
	}
	switch op {
	case token.SHL, token.SHR:
		s := tb
		if op == token.SHL {
			if s.op == OConst {
				return Shl(ta, Conv(s, ta.ty))
			}
			return Shl(ta, Conv(s, TI64))
		}
		if s.op == OConst {
			return Shr(ta, Conv(s, ta.ty))
		}
		return Shr(ta, Conv(s, TI64))
	}
	if ta.ty != tb.ty {
		x.problem("binop %s type mismatch %v %v", op, ta.ty, tb.ty)
		return unkOf(rt, "binop")
	}
	switch op {
	case token.ADD:
		return Add(ta, tb)
	case token.SUB:
		return Sub(ta, tb)
	case token.MUL:
		return Mul(ta, tb)
	case token.QUO:
		return Div(ta, tb)
	case token.REM:
		return Rem(ta, tb)
	case token.AND:
		if ta.ty == TBool {
			return And(ta, tb)
		}
		return BAnd(ta, tb)
	case token.OR:
		if ta.ty == TBool {
			return Or(ta, tb)
		}
		return BOr(ta, tb)
	case token.XOR:
		if ta.ty == TBool {
			return Not(Eq(ta, tb))
		}
		return BXor(ta, tb)
	case token.AND_NOT:
		return BAnd(ta, AddI(Neg(tb), -1))
	case token.EQL:
		return Eq(ta, tb)
	case token.NEQ:
		return Not(Eq(ta, tb))
	case token.LSS:
		return Lt(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.LEQ:
		return Not(Lt(tb, ta))
	case token.GEQ:
		return Not(Lt(ta, tb))
	}
	return unkOf(rt, "binop "+op.String())
}

// refEq compares reference values.
func refEq(a, b Value) *Term {
	if p, ok := a.(*IteV); ok {
		return Ite(p.c, refEq(p.a, b), refEq(p.b, b))
	}
	if p, ok := b.(*IteV); ok {
		return Ite(p.c, refEq(a, p.a), refEq(a, p.b))
	}
	_, na := a.(NilV)
	_, nb := b.(NilV)
	nonNil := func(v Value) bool {
		switch v.(type) {
		case *Ptr, *SliceV, *FuncV, *IfaceV:
			return true
		}
		return false
	}
	if na && nb {
		return True()
	}
	if (na && nonNil(b)) || (nb && nonNil(a)) {
		return False()
	}
	pa, ok1 := a.(*Ptr)
	pb, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		if pa.obj != pb.obj || len(pa.path) != len(pb.path) || len(pa.fam) != len(pb.fam) {
			return False()
		}
		var cs []*Term
		for i := range pa.fam {
			cs = append(cs, Eq(pa.fam[i], pb.fam[i]))
		}
		for i := range pa.path {
			if pa.path[i].f != pb.path[i].f {
				return False()
			}
			if pa.path[i].f < 0 {
				cs = append(cs, Eq(pa.path[i].idx, pb.path[i].idx))
			}
		}
		return And(cs...)
	}
	return opaque("reference comparison", TBool)
}

func (x *Interp) convert(fr *frame, st *State, i *ssa.Convert) Value {
	v := x.val(fr, i.X)
	to := i.Type().Underlying()
	if t, ok := v.(*Term); ok {
		if ty, ok := tyOf(i.Type()); ok && t.ty != TStr && ty != TStr && t.ty != TC128 && ty != TC128 && t.ty != TRef {
			return Conv(t, ty)
		}
		return unkOf(i.Type(), "conversion")
	}
	// unsafe pointer conversions
	var cv func(v Value) Value
	cv = func(v Value) Value {
		switch p := v.(type) {
		case *IteV:
			return mkIte(p.c, cv(p.a), cv(p.b))
		case NilV:
			return p
		case *Ptr:
			if b, ok := to.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return p
			}
			if pt, ok := to.(*types.Pointer); ok {
				et := pt.Elem()
				cur := ptrElem(p)
				if at, ok := et.Underlying().(*types.Array); ok {
					if cur != nil && types.Identical(cur.Underlying(), at.Elem().Underlying()) && len(p.path) > 0 && p.path[len(p.path)-1].f < 0 {
						l := p.path[len(p.path)-1].idx
						n := arrLen(p)
						x.checkIndex(fr, st, AddI(l, at.Len()-1), n, i.Pos(), true, "unsafe window end")
						x.checkIndex(fr, st, l, n, i.Pos(), true, "unsafe window start")
						return &Ptr{obj: p.obj, fam: p.fam, path: p.path, win: at.Len()}
					}
				}
				if cur != nil && types.Identical(cur.Underlying(), et.Underlying()) {
					return p
				}
			}
		}
		x.problem("unsupported pointer conversion to %s at %s", i.Type(), x.pos(i.Pos()))
		return unk("pointer conversion")
	}
	if _, ok := v.(*Unk); ok {
		return unkOf(i.Type(), "conversion of unknown")
	}
	return cv(v)
}

// ptrElem is the type a pointer's path designates.
func ptrElem(p *Ptr) types.Type {
	k, _ := leafKey(p)
	return pathType(p.obj, k.path)
}

// arrLen is the extent of the innermost array index of p.
func arrLen(p *Ptr) *Term {
	if len(p.path) == 1 && p.obj.arr {
		return p.obj.n
	}
	q := &Ptr{obj: p.obj, fam: p.fam, path: p.path[:len(p.path)-1]}
	k, _ := leafKey(q)
	if at, ok := pathType(p.obj, k.path).Underlying().(*types.Array); ok {
		return I(at.Len())
	}
	return nil
}

func (x *Interp) typeAssert(fr *frame, st *State, i *ssa.TypeAssert) Value {
	v := x.val(fr, i.X)
	if iv, ok := v.(*IfaceV); ok {
		if !types.IsInterface(i.AssertedType) {
			ok := types.Identical(iv.typ, i.AssertedType)
			if i.CommaOk {
				if ok {
					return &TupleV{[]Value{iv.v, True()}}
				}
				return &TupleV{[]Value{zeroVal(i.AssertedType), False()}}
			}
			if ok {
				return iv.v
			}
		} else {
			if i.CommaOk {
				return &TupleV{[]Value{iv, Bool(types.AssertableTo(i.AssertedType.Underlying().(*types.Interface), iv.typ))}}
			}
			return iv
		}
	}
	if it, ok := v.(*IteV); ok && !i.CommaOk {
		f := func(w Value) Value {
			if iv, ok := w.(*IfaceV); ok && types.Identical(iv.typ, i.AssertedType) {
				return iv.v
			}
			return unk("type assertion")
		}
		return mkIte(it.c, f(it.a), f(it.b))
	}
	return unkOf(i.Type(), "type assertion")
}

// ---------------------------------------------------------------- builtins

func (x *Interp) builtin(fr *frame, st *State, b *ssa.Builtin, args []Value, call ssa.Instruction) Value {
	switch b.Name() {
	case "len":
		return x.lenOf(args[0], call, 0)
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return s.cap
		}
		return x.lenOf(args[0], call, 0)
	case "copy":
		return x.copySlice(fr, st, args[0], args[1], call.Pos())
	case "append":
		return x.appendSlice(fr, st, args, call)
	case "min", "max":
		r, ok := args[0].(*Term)
		for _, a := range args[1:] {
			t, ok2 := a.(*Term)
			if !ok || !ok2 {
				return unk("min/max")
			}
			if b.Name() == "min" {
				r = Ite(Lt(t, r), t, r)
			} else {
				r = Ite(Lt(r, t), t, r)
			}
		}
		return r
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			et := elemOfSlice(s)
			x.bulkTyped(st, s, s.len, et, func(j *Term) Value { return zeroVal(et) })
			return &TupleV{}
		}
	case "real", "imag":
		if t, ok := args[0].(*Term); ok {
			if t.op == OFn && t.name == "complex" {
				if b.Name() == "real" {
					return t.args[0]
				}
				return t.args[1]
			}
			return Fn(b.Name(), TF64, t)
		}
	case "complex":
		a, ok1 := args[0].(*Term)
		c, ok2 := args[1].(*Term)
		if ok1 && ok2 {
			return Fn("complex", TC128, a, c)
		}
	case "print", "println", "recover", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			return args[0]
		}
		return &TupleV{}
	}
	x.problem("unsupported builtin %s in %s", b.Name(), fr.fn)
	if v, ok := call.(ssa.Value); ok {
		return unkOf(v.Type(), "builtin "+b.Name())
	}
	return &TupleV{}
}

func elemOfSlice(s *SliceV) types.Type {
	return ptrElem(s.base.elem(I(0)))
}

// bulkTyped writes val(j) of element type et (struct elements leaf by leaf).
func (x *Interp) bulkTyped(st *State, s *SliceV, n *Term, et types.Type, val func(j *Term) Value) {
	if n.op == OConst && n.iv <= 0 {
		return
	}
	hi := int64(1<<62 - 1)
	if _, h := Bounds(n); h < inf {
		hi = h
	}
	j := NewVar("j", 0, hi)
	v := val(j)
	var rec func(p *Ptr, t types.Type, v Value)
	rec = func(p *Ptr, t types.Type, v Value) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for f := 0; f < u.NumFields(); f++ {
				rec(p.field(f), u.Field(f).Type(), fieldOf(v, f))
			}
			return
		case *types.Array:
			av, ok := v.(*ArrV)
			if u.Len() > 64 {
				x.problem("bulk write of large arrays")
				return
			}
			for e := int64(0); e < u.Len(); e++ {
				var ev Value = unkOf(u.Elem(), "bulk array")
				if ok {
					ev = av.e[e]
				}
				rec(p.elem(I(e)), u.Elem(), ev)
			}
			return
		}
		k, idx := leafKey(p)
		x.logAccessQ(st, k, idx, true, []*Term{j}, []*Term{n})
		c := x.content(st, k)
		st.set(k, c.push(&Upd{vars: []*Term{j}, n: []*Term{n}, idx: idx, guard: True(), val: v}))
	}
	rec(s.base.elem(Add(s.off, j)), et, v)
}

func (x *Interp) lenOf(v Value, call ssa.Instruction, d int) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.len
	case NilV:
		return I(0)
	case *ArrV:
		return I(int64(len(s.e)))
	case *IteV:
		return Ite(s.c, x.lenOf(s.a, call, d+1), x.lenOf(s.b, call, d+1))
	case *Term:
		if s.ty == TStr {
			if s.op == OConst {
				return I(int64(len(s.name)))
			}
			return Fn("len", TI64, s)
		}
	}
	if c, ok := call.(ssa.CallInstruction); ok {
		t := c.Common().Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return I(a.Len())
		}
	}
	return opaque("len", TI64)
}

func (x *Interp) copySlice(fr *frame, st *State, d, s Value, pos token.Pos) Value {
	if it, ok := d.(*IteV); ok {
		x.problem("copy to a conditional destination at %s", x.pos(pos))
		_ = it
		return opaque("copy", TI64)
	}
	if _, ok := d.(NilV); ok {
		return I(0)
	}
	if _, ok := s.(NilV); ok {
		return I(0)
	}
	ds, ok1 := d.(*SliceV)
	if !ok1 {
		x.problem("copy to unknown destination at %s", x.pos(pos))
		return opaque("copy", TI64)
	}
	n := x.lenOf(s, nil, 0)
	var cnt *Term
	c := x.simp(st, Lt(n, ds.len))
	if c.isTrue() {
		cnt = n
	} else if c.isFalse() {
		cnt = ds.len
	} else {
		cnt = Ite(c, n, ds.len)
	}
	snap := st // reads happen before the writes: contents are persistent, so read from the old contents
	et := elemOfSlice(ds)
	rd := func(j *Term) Value { return x.elemAt(snap, s, j, et) }
	x.bulkTyped(st, ds, cnt, et, rd)
	return cnt
}

// elemAt reads element j of a slice value.
func (x *Interp) elemAt(st *State, s Value, j *Term, et types.Type) Value {
	switch v := s.(type) {
	case *SliceV:
		return x.load(st, v.base.elem(Add(v.off, j)), et)
	case *IteV:
		return mkIte(v.c, x.elemAt(st, v.a, j, et), x.elemAt(st, v.b, j, et))
	}
	return unkOf(et, "element of unknown slice")
}

func (x *Interp) appendSlice(fr *frame, st *State, args []Value, call ssa.Instruction) Value {
	s := args[0]
	v, _ := call.(ssa.Value)
	et := v.Type().Underlying().(*types.Slice).Elem()
	if _, ok := s.(NilV); ok {
		p := x.alloc(fr, call, "append", et, I(0))
		p.obj.grow = true
		p.obj.n = nil
		s = &SliceV{p, I(0), I(0), I(0)}
	}
	ds, ok := s.(*SliceV)
	if !ok {
		x.problem("append to unknown slice at %s", x.pos(call.Pos()))
		return unkOf(v.Type(), "append")
	}
	if len(args) < 2 {
		return ds
	}
	n := x.lenOf(args[1], nil, 0)
	newLen := Add(ds.len, n)
	fits := Not(Lt(ds.cap, newLen))
	dst := ds
	if !ds.base.obj.grow && !x.simp(st, fits).isTrue() {
		// reallocation: copy to a fresh growable array
		p := x.alloc(fr, call, "regrow", et, I(0))
		p.obj.grow = true
		p.obj.n = nil
		dst = &SliceV{p, I(0), ds.len, newLen}
		old := ds
		x.bulkTyped(st, dst, ds.len, et, func(j *Term) Value { return x.elemAt(st, old, j, et) })
	}
	src := args[1]
	tail := &SliceV{dst.base, Add(dst.off, ds.len), n, n}
	if n.op == OConst && n.iv <= 16 {
		for k := int64(0); k < n.iv; k++ {
			x.store(st, tail.base.elem(AddI(tail.off, k)), et, x.elemAt(st, src, I(k), et), True())
		}
	} else {
		x.bulkTyped(st, tail, n, et, func(j *Term) Value { return x.elemAt(st, src, j, et) })
	}
	cp := ds.cap
	if dst.base.obj.grow {
		cp = newLen
	}
	return &SliceV{dst.base, dst.off, newLen, cp}
}

// ---------------------------------------------------------------- goroutines and sync

// external models calls outside the repository.
func (x *Interp) external(fr *frame, st *State, fn *ssa.Function, name string, args []Value, call ssa.Instruction, ctx string) Value {
	res := fn.Signature.Results()
	switch {
	case strings.HasPrefix(name, "(*sync."):
		if v, ok := x.syncCall(fr, st, fn, name, args, call, ctx); ok {
			return v
		}
		x.problem("call of %s is not modelled", name)
		return unkResultsOrEmpty(res, name)
	case strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "(*math/rand.Rand).") || strings.HasPrefix(name, "math/rand/v2.") || strings.HasPrefix(name, "(*math/rand/v2.Rand)."):
		if fn.Signature.Recv() != nil && len(args) > 0 {
			// a generator is not safe for concurrent use
			if p, ok := args[0].(*Ptr); ok {
				k, idx := leafKey(p)
				x.logAccess(st, k, idx, true)
			}
		}
		if res.Len() == 1 {
			if ty, ok := tyOf(res.At(0).Type()); ok {
				var ts []*Term
				for _, a := range x.active {
					ts = append(ts, a.v)
				}
				extra := ""
				for _, a := range args {
					if t, ok := a.(*Term); ok && t.op == OConst {
						extra += "," + t.String()
					}
				}
				return Fn(fmt.Sprintf("rnd:%s(%s)@%s", fn.Name(), strings.TrimPrefix(extra, ","), ctx), ty, ts...)
			}
			p := x.alloc(fr, call, "rng", types.NewStruct(nil, nil), nil)
			p.obj.Tag = "rng"
			return p
		}
	case name == "unsafe.Pointer":
	}
	if name == "math.Modf" {
		if t, ok := args[0].(*Term); ok {
			f := FnSimp("math.Mod", TF64, []*Term{t, Rat(big.NewRat(1, 1))})
			return &TupleV{[]Value{Sub(t, f), f}}
		}
	}
	// pure scalar functions
	if p := fn.Pkg; p != nil && (p.Pkg.Path() == "math" || p.Pkg.Path() == "math/cmplx" || p.Pkg.Path() == "math/bits" || p.Pkg.Path() == "strings" || p.Pkg.Path() == "strconv") {
		var ts []*Term
		for _, a := range args {
			if t, ok := a.(*Term); ok {
				ts = append(ts, t)
			} else {
				return unkResults(res, name)
			}
		}
		if res.Len() == 1 {
			if ty, ok := tyOf(res.At(0).Type()); ok {
				return mathFn(p.Pkg.Path()+"."+fn.Name(), ty, ts)
			}
		}
	}
	return unkResultsOrEmpty(res, name)
}

func unkResultsOrEmpty(res *types.Tuple, name string) Value {
	if res.Len() == 0 {
		return &TupleV{}
	}
	return unkResults(res, name)
}

func poolNewField(fn *ssa.Function) int {
	t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == "New" {
			return i
		}
	}
	return 0
}

// foldBits evaluates functions of math/bits on constants.
func foldBits(name string, ty Ty, as []*Term) *Term {
	var v []uint64
	for _, a := range as {
		if a.op != OConst {
			return nil
		}
		v = append(v, uint64(a.iv))
	}
	fn := strings.TrimPrefix(name, "math/bits.")
	w := uint(64)
	for _, s := range []string{"8", "16", "32", "64"} {
		if strings.HasSuffix(fn, s) {
			fn = strings.TrimSuffix(fn, s)
			fmt.Sscan(s, &w)
		}
	}
	x := v[0]
	if w < 64 {
		x &= 1<<w - 1
	}
	var r int
	switch fn {
	case "Len":
		r = bits.Len64(x)
	case "TrailingZeros":
		if r = bits.TrailingZeros64(x); x == 0 {
			r = int(w)
		}
	case "LeadingZeros":
		r = int(w) - bits.Len64(x)
	case "OnesCount":
		r = bits.OnesCount64(x)
	default:
		return nil
	}
	return Int(ty, int64(r))
}

// mathFn normalises a few math functions that are exact on the ring abstraction.
func mathFn(name string, ty Ty, as []*Term) *Term {
	if strings.HasPrefix(name, "math/bits.") {
		if r := foldBits(name, ty, as); r != nil {
			return r
		}
	}
	switch name {
	case "math.Trunc":
		if r := FnSimp(name, ty, as); r.op != OFn {
			return r
		}
		return Sub(as[0], FnSimp("math.Mod", TF64, []*Term{as[0], Rat(big.NewRat(1, 1))}))
	case "math.Ldexp":
		if n := as[1]; n.op == OConst && n.iv > -1000 && n.iv < 1000 {
			r := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(abs64(n.iv))))
			if n.iv < 0 {
				r.Inv(r)
			}
			return Mul(as[0], Rat(r))
		}
	case "math.Exp2":
		if c, ok := constF(as[0]); ok && c == float64(int(c)) && c > -64 && c < 64 {
			r := new(big.Rat).SetInt64(1)
			two := big.NewRat(2, 1)
			if c < 0 {
				two = big.NewRat(1, 2)
				c = -c
			}
			for k := 0; k < int(c); k++ {
				r.Mul(r, two)
			}
			return Rat(r)
		}
	}
	return FnSimp(name, ty, as)
}
