package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C07",
		Rule:        "Every random draw in library code is a method call on a generator whose definitions (traced backwards through calls, returns, fields, variables and closures) are all constructions over a source owned by the repository; every such source yields 64 and 63 bits taken one to one from fresh bytes of the operating system's generator, gives up when that fails, and shares no buffered state with another generator; no generator state is copied, kept in a package variable or replaced.",
		Assumptions: []string{"crypto/rand.Reader delivers independent uniform bytes", "math/rand derives its draws from the source as documented"},
		Min:         20,
		Units: func(w *eng.World) []Unit {
			return []Unit{{"rng.provenance", checkRandProvenance}, {"rng.source", checkRandSources}}
		},
	})
}

func isRandPkg(p string) bool { return p == "math/rand" || p == "math/rand/v2" }

func randFn(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && isRandPkg(f.Pkg.Pkg.Path())
}

func isRandType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && isRandPkg(n.Obj().Pkg().Path()) && n.Obj().Name() == "Rand"
}

// tracer follows values backwards to their definitions, field- and type-based across memory.
type tracer struct {
	w     *eng.World
	funcs []*ssa.Function
	calls map[*ssa.Function][]*ssa.CallCommon
	taken map[*ssa.Function]bool
	seen  map[ssa.Value]bool
	leaf  func(v ssa.Value)
	bad   func(v ssa.Value, why string)
}

func newTracer(w *eng.World) *tracer {
	t := &tracer{w: w, funcs: w.AllFuncs(), calls: map[*ssa.Function][]*ssa.CallCommon{}, taken: map[*ssa.Function]bool{}}
	for _, f := range t.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
					if s := c.Common().StaticCallee(); s != nil {
						t.calls[s] = append(t.calls[s], c.Common())
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						t.taken[g] = true
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					for _, ref := range *m.Referrers() {
						c, isC := ref.(ssa.CallInstruction)
						if !isC || c.Common().Value != m {
							t.taken[m.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	return t
}

func (t *tracer) each(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range t.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

func (t *tracer) trace(v ssa.Value) {
	if t.seen[v] {
		return
	}
	t.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.trace(e)
		}
	case *ssa.ChangeType:
		t.trace(x.X)
	case *ssa.ChangeInterface:
		t.trace(x.X)
	case *ssa.MakeInterface:
		t.trace(x.X)
	case *ssa.Extract:
		t.result(x.Tuple, x.Index)
	case *ssa.Call:
		t.result(x, 0)
	case *ssa.Parameter:
		fn := x.Parent()
		if t.taken[fn] {
			t.bad(v, "is a parameter of a function called indirectly")
		}
		k := -1
		for i, p := range fn.Params {
			if p == x {
				k = i
			}
		}
		for _, c := range t.calls[fn] {
			t.trace(c.Args[k])
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		k := -1
		for i, p := range fn.FreeVars {
			if p == x {
				k = i
			}
		}
		t.each(func(_ *ssa.Function, in ssa.Instruction) {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				t.trace(m.Bindings[k])
			}
		})
	case *ssa.TypeAssert:
		t.each(func(_ *ssa.Function, in ssa.Instruction) {
			if m, ok := in.(*ssa.MakeInterface); ok && types.Identical(m.X.Type(), x.AssertedType) {
				t.trace(m.X)
			}
		})
	case *ssa.Alloc:
		// the variable itself: everything stored to it
		t.stores(x)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			t.bad(v, "comes from a channel")
			return
		}
		t.stores(x.X)
	default:
		t.bad(v, "has an untracked definition")
	}
}

func (t *tracer) result(v ssa.Value, k int) {
	switch c := v.(type) {
	case *ssa.Call:
		f := c.Common().StaticCallee()
		if randFn(f) {
			t.leaf(c)
			return
		}
		if f == nil || !t.w.InRepo(f) || len(f.Blocks) == 0 {
			t.bad(v, "is the result of a call outside the repository")
			return
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) {
				t.trace(r.Results[k])
			}
		}
	case *ssa.TypeAssert:
		t.trace(c)
	default:
		t.bad(v, "has an untracked definition")
	}
}

// stores traces everything that may be stored at an address.
func (t *tracer) stores(addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Global:
		t.bad(a, "is kept in a package variable, shared by all callers")
		return
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Phi:
		if t.seen[addr] {
			return
		}
		t.trace(addr)
		return
	}
	t.each(func(_ *ssa.Function, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		hit := false
		switch a := addr.(type) {
		case *ssa.Alloc:
			hit = s.Addr == a
			if fv, ok := s.Addr.(*ssa.FreeVar); ok && types.Identical(fv.Type(), a.Type()) {
				hit = true
			}
		case *ssa.FieldAddr:
			f, ok := s.Addr.(*ssa.FieldAddr)
			hit = ok && f.Field == a.Field && types.Identical(f.X.Type(), a.X.Type())
		case *ssa.IndexAddr:
			_, ok := s.Addr.(*ssa.IndexAddr)
			hit = ok && types.Identical(s.Addr.Type(), a.Type())
		default:
			hit = types.Identical(s.Addr.Type(), addr.Type())
		}
		if hit {
			t.trace(s.Val)
		}
	})
}

// bufferedState reports whether a value of type t holds generator or reader state by value.
func bufferedState(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if p == "bufio" || isRandPkg(p) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return p + "." + n.Obj().Name()
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := bufferedState(u.Field(i).Type(), seen); s != "" {
				return s
			}
		}
	case *types.Array:
		return bufferedState(u.Elem(), seen)
	}
	return ""
}

func checkRandProvenance(w *eng.World, r *Rep) {
	t := newTracer(w)
	pos := func(p token.Pos) string {
		q := w.Prog.Fset.Position(p)
		return strings.TrimPrefix(q.Filename, w.Dir+"/") + fmt.Sprintf(":%d", q.Line)
	}
	name := func(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), eng.RepoMod+"/", "") }
	fns := map[string]bool{}
	draws := 0
	t.each(func(fn *ssa.Function, in ssa.Instruction) {
		fns[name(fn)] = true
		if s, ok := in.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
				r.ok("system-generator", name(fn), false, "%s replaces the system generator at %s", name(fn), pos(s.Pos()))
			}
		}
		if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL {
			if s := bufferedState(l.Type(), map[types.Type]bool{}); s != "" {
				r.ok("no-copied-state", name(fn), false, "%s copies generator state (%s) at %s: both copies deliver the same numbers", name(fn), s, pos(l.Pos()))
			}
		}
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Function); ok && randFn(g) {
				c, isCall := in.(ssa.CallInstruction)
				if !isCall || c.Common().Value != *op {
					r.ok("system-generator", name(fn), false, "%s uses %s as a value at %s", name(fn), g, pos(in.Pos()))
				}
			}
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := c.Common()
		if cc.IsInvoke() {
			if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && isRandPkg(n.Obj().Pkg().Path()) {
				r.ok("system-generator", name(fn), false, "%s draws directly from a source at %s", name(fn), pos(in.Pos()))
			}
			return
		}
		f := cc.StaticCallee()
		if !randFn(f) || f.Name() == "init" {
			return
		}
		draws++
		where := fmt.Sprintf("%s at %s", name(fn), pos(in.Pos()))
		if f.Signature.Recv() == nil {
			r.ok("system-generator", name(fn), f.Name() == "New", "%s calls %s, which is not the system generator", where, f)
			if f.Name() != "New" {
				return
			}
		} else if !isRandType(f.Signature.Recv().Type()) || f.Name() == "Seed" || f.Name() == "Read" {
			r.ok("system-generator", name(fn), false, "%s calls %s", where, f)
			return
		} else {
			var bad []string
			news := 0
			t.seen = map[ssa.Value]bool{}
			t.leaf = func(v ssa.Value) {
				c := v.(*ssa.Call)
				if g := c.Common().StaticCallee(); g.Name() == "New" {
					news++
				} else {
					bad = append(bad, fmt.Sprintf("%s at %s is not a construction over the system generator", g, pos(c.Pos())))
				}
			}
			t.bad = func(v ssa.Value, why string) {
				bad = append(bad, fmt.Sprintf("%s (%s) %s", v.Name(), pos(v.Pos()), why))
			}
			t.trace(cc.Args[0])
			sort.Strings(bad)
			// an exported function with a generator parameter may have no caller in the repository
			r.ok("generator-provenance", name(fn), len(bad) == 0, "the generator used in %s: %s", where, strings.Join(bad, "; "))
		}
	})
	r.ok("draws-found", "repository", draws >= 5, "only %d uses of a generator found", draws)
	for f := range fns {
		r.Functions = append(r.Functions, f)
	}
}

// checkRandSources decides, for every construction of a generator, that its source hands out fresh
// bytes of the system generator.
func checkRandSources(w *eng.World, r *Rep) {
	sites := 0
	var lv LevelInfo
	if ls := levels(w); len(ls) > 0 {
		lv = ls[0]
	}
	for _, fn := range w.AllFuncs() {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); randFn(f) && f.Name() == "New" && f.Signature.Recv() == nil {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		sites++
		name := strings.ReplaceAll(fn.String(), eng.RepoMod+"/", "")
		c := NewCtx(w, lv, "utils")
		k := &srcCheck{c: c, r: r, name: name}
		k.run(fn)
		r.note(c)
	}
	r.ok("generator-constructions", "repository", sites > 0, "no construction of a generator found")
}

type srcCheck struct {
	c      *Ctx
	r      *Rep
	name   string
	crypto eng.Value
	fail   bool
	n      int
	made   []eng.Value
	weird  []string
	nbuf   int
}

func (k *srcCheck) isCrypto(v eng.Value) bool {
	for i := 0; i < 10; i++ {
		if v == k.crypto {
			return true
		}
		p, ok := eng.Unwrap(v).(*eng.Ptr)
		if !ok {
			return false
		}
		if eng.PtrEq(p, eng.Unwrap(k.crypto)) {
			return true
		}
		if p.Obj().Tag != "bufio" {
			return false
		}
		v = k.c.X.LoadField(k.c.St, p, "rd")
	}
	return false
}

func (k *srcCheck) run(fn *ssa.Function) {
	c, r := k.c, k.r
	x := c.X
	var cr *ssa.Package
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == "crypto/rand" {
			cr = p
		}
	}
	if cr == nil || cr.Var("Reader") == nil {
		r.ok("system-generator", k.name, false, "crypto/rand is not used: the source of %s cannot be the system generator", k.name)
		return
	}
	g := cr.Var("Reader")
	k.crypto = x.NewObjAt("world", "system generator", types.NewStruct(nil, nil), nil)
	x.Store(c.St, x.Global(g), g.Object().Type(), k.crypto)
	rdT := types.NewStruct([]*types.Var{types.NewField(0, nil, "rd", g.Object().Type(), false)}, nil)
	newReader := func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		k.nbuf++
		p := x.NewObjAt(fmt.Sprint(ctx, k.nbuf), "bufio", rdT, nil)
		p.(*eng.Ptr).Obj().Tag = "bufio"
		x.StoreField(st, p, "rd", a[0])
		return p, true
	}
	x.Models["bufio.NewReader"] = newReader
	x.Models["bufio.NewReaderSize"] = newReader
	fill := func(st *eng.State, s eng.Value) bool {
		n := eng.SliceLen(s)
		if n == nil {
			return false
		}
		k.n++
		id := k.n
		return x.BulkWrite(st, s, n, func(j *eng.Term) *eng.Term { return eng.Fn(fmt.Sprintf("sys%d", id), eng.TU8, j) })
	}
	errV := func() eng.Value {
		if k.fail {
			return x.NewObjAt("world", "error", types.NewStruct(nil, nil), nil)
		}
		return eng.NilV{}
	}
	read := func(src int, exact bool) eng.Model {
		return func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
			ok := true
			buf := a[0]
			if src >= 0 {
				buf = a[src+1]
				if !k.isCrypto(a[src]) {
					k.weird = append(k.weird, "reads from "+eng.ShowVal(a[src])+", not from the system generator")
					ok = false
				}
			}
			if !exact {
				k.weird = append(k.weird, "relies on a read that may deliver fewer bytes")
				ok = false
			}
			n := eng.SliceLen(buf)
			if ok && !k.fail && !fill(st, buf) {
				k.weird = append(k.weird, "reads into an unresolved buffer")
			}
			if n == nil {
				n = eng.I(0)
			}
			return eng.Tuple(n, errV()), true
		}
	}
	x.Models["io.ReadFull"] = read(0, true)
	x.Models["io.ReadAtLeast"] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		n := eng.SliceLen(a[1])
		m, _ := a[2].(*eng.Term)
		return read(0, n != nil && m != nil && eng.Equal(n, m))(x, st, a, ctx)
	}
	x.Models["crypto/rand.Read"] = read(-1, true)
	x.Models["(*bufio.Reader).Read"] = read(0, false)
	for _, e := range []string{"little", "big"} {
		e := e
		for _, bits := range []int64{16, 32, 64} {
			bits := bits
			x.Models[fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", e, bits)] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
				ty := map[int64]eng.Ty{16: eng.TU16, 32: eng.TU32, 64: eng.TU64}[bits]
				t := eng.Int(ty, 0)
				for j := int64(0); j < bits/8; j++ {
					s := j
					if e == "big" {
						s = bits/8 - 1 - j
					}
					t = eng.Add(t, eng.Mul(eng.Conv(x.ReadElem(st, a[len(a)-1], eng.I(j)), ty), eng.Int(ty, int64(1)<<uint(8*s))))
				}
				return t, true
			}
		}
	}
	cap := func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		k.made = append(k.made, a[0])
		return nil, false
	}
	x.Models["math/rand.New"] = cap
	x.Models["math/rand/v2.New"] = cap
	mk := func() eng.Value {
		k.made = nil
		var args []eng.Value
		for i, p := range fn.Params {
			args = append(args, x.SymVal(fmt.Sprintf("p%d", i), p.Type()))
		}
		_, ns := x.Run(c.St, fn, args...)
		if ns == nil {
			return nil
		}
		c.St = ns
		if len(k.made) != 1 {
			return nil
		}
		return k.made[0]
	}
	src := mk()
	iface, ok := src.(*eng.IfaceV)
	if !r.ok("owned-source", k.name, src != nil && ok && iface.Type() != nil, "%s: the source of the generator is %s, not a source over the system generator", k.name, eng.ShowVal(src)) {
		return
	}
	// the methods the generator draws with
	for _, m := range []string{"Uint64", "Int63"} {
		f := c.W.Prog.LookupMethod(iface.Type(), nil, m)
		if f == nil || !c.W.InRepo(f) || len(f.Blocks) == 0 {
			if m == "Int63" && f == nil {
				continue // a v2 source
			}
			r.ok("owned-source", k.name, false, "%s: method %s of the source %s is not defined in the repository", k.name, m, iface.Type())
			continue
		}
		mn := strings.ReplaceAll(f.String(), eng.RepoMod+"/", "")
		seen := map[string]bool{}
		for rep := 0; rep < 2; rep++ {
			k.weird = nil
			v, ns := x.Run(c.St, f, iface.Value())
			if !r.ok("delivers", mn, ns != nil, "%s never returns", mn) {
				break
			}
			c.St = ns
			t, _ := v.(*eng.Term)
			bits := 64
			if m == "Int63" {
				bits = 63
			}
			used, err := uniformBits(t, bits)
			if len(k.weird) > 0 {
				err = strings.Join(k.weird, "; ")
			}
			for _, u := range used {
				if seen[u] {
					err = "byte " + u + " is delivered twice"
				}
				seen[u] = true
			}
			r.ok("full-entropy", mn, err == "", "%s: %s (%s)", mn, err, short(eng.ShowVal(v), 400))
		}
		// failure of the system generator
		k.fail = true
		_, ns := x.Run(c.St.Fork(), f, iface.Value())
		k.fail = false
		r.ok("fails-closed", mn, ns == nil, "%s returns numbers although the system generator failed", mn)
	}
	// a second generator shares no state with the first
	other := mk()
	o2, ok2 := other.(*eng.IfaceV)
	if r.ok("owned-source", k.name, ok2, "%s: second source not resolved", k.name) {
		a, b := objsOf(x, c.St, iface.Value(), eng.Unwrap(k.crypto)), objsOf(x, c.St, o2.Value(), eng.Unwrap(k.crypto))
		for o := range a {
			r.ok("own-state", k.name, !b[o], "%s: two generators share %s", k.name, o.Name())
		}
	}
}

func objsOf(x *eng.Interp, st *eng.State, v, except eng.Value) map[*eng.Obj]bool {
	m := map[*eng.Obj]bool{}
	for _, p := range x.Reach(st, v) {
		if q, ok := except.(*eng.Ptr); ok && p.Obj() == q.Obj() {
			continue
		}
		m[p.Obj()] = true
	}
	return m
}

// uniformBits checks that t consists of the given number of fresh bits, each used once.
func uniformBits(t *eng.Term, bits int) ([]string, string) {
	if t == nil {
		return nil, "the result is not resolved"
	}
	if bits == 63 {
		// any 63 of 64 fresh bits
		if u, ok := eng.Dropped(t); ok {
			t, bits = u, 64
		}
	}
	for t.Op() == eng.OConv {
		t = t.Args()[0]
	}
	var used []string
	pos := map[int]bool{}
	for _, m := range eng.Monos(t) {
		sh := -1
		for s := 0; s < 64; s += 8 {
			if uint64(m.Coef) == uint64(1)<<uint(s) {
				sh = s
			}
		}
		if sh < 0 || pos[sh] || len(m.Atoms) != 1 {
			return nil, "not a rearrangement of fresh bytes"
		}
		pos[sh] = true
		at := m.Atoms[0]
		top := false
		for i := 0; i < 4; i++ {
			if at.Op() == eng.OConv {
				at = at.Args()[0]
			} else if u, ok := eng.LowBits(at, 7); ok && sh == 56 && bits == 63 {
				at, top = u, true
			}
		}
		if bits == 63 && sh == 56 && !top {
			return nil, "the result may be negative"
		}
		if !strings.HasPrefix(at.Name(), "sys") {
			return nil, "byte " + short(at.String(), 60) + " does not come from the system generator"
		}
		used = append(used, at.String())
	}
	sort.Strings(used)
	for i := 1; i < len(used); i++ {
		if used[i] == used[i-1] {
			return nil, "byte " + used[i] + " is used twice"
		}
	}
	if len(used) != 8 {
		return nil, fmt.Sprintf("%d fresh bytes instead of 8", len(used))
	}
	return used, ""
}
