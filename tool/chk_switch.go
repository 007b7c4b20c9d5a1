package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C06",
		Rule:        "Every package-level variable that can keep something beyond a call is found in SSA, and every exported function that reaches one is interpreted at level B after having been used at level A, for all ordered pairs of levels (pools hand out what they were given at A); its result and indexing must equal those of a process that only ever used level B. Exported functions that reach no such variable cannot carry a level over.",
		Assumptions: []string{"arguments (keys, ciphertexts, evaluators passed in) belong to the level in force", "an evaluator whose buffers and counters have the shape of a fresh one behaves like a fresh one (C15, C21)"},
		Min:         200,
		Units:       switchUnits,
	})
}

// stateful lists the package-level variables that may keep something beyond a call.
func stateful(w *eng.World) map[*ssa.Global]string {
	plain := func(t types.Type) bool { return false }
	plain = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !plain(u.Field(i).Type()) {
					return false
				}
			}
			return true
		case *types.Array:
			return plain(u.Elem())
		}
		return false
	}
	out := map[*ssa.Global]string{}
	pp := w.SSA["params"]
	repo := map[*types.Package]bool{}
	for _, f := range w.AllFuncs() {
		repo[eng.PkgOf(f)] = true
	}
	var onlyLoads func(v ssa.Value) bool
	onlyLoads = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return true
		}
		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !onlyLoads(i) {
					return false
				}
			case *ssa.IndexAddr:
				if !onlyLoads(i) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range w.AllFuncs() {
		ini := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == pp || !repo[g.Pkg.Pkg] || strings.HasPrefix(g.Name(), "init$") {
						continue
					}
					et := g.Type().Underlying().(*types.Pointer).Elem()
					if ini {
						// a value computed at program start may depend on the level selected then
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							if _, isConst := s.Val.(*ssa.Const); !isConst && plain(et) {
								out[g] = "initialised by a computation"
							}
						}
						continue
					}
					if !plain(et) {
						out[g] = "holds references"
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr:
						if !onlyLoads(i) {
							out[g] = "written after initialisation"
						}
					case *ssa.IndexAddr:
						if !onlyLoads(i) {
							out[g] = "written after initialisation"
						}
					default:
						out[g] = "written after initialisation"
					}
				}
			}
		}
	}
	return out
}

// stateRoots lists the exported functions that reach a stateful variable, and the ones that do not.
func stateRoots(w *eng.World) (roots, free []*ssa.Function, vars []string) {
	sf := stateful(w)
	for g, why := range sf {
		vars = append(vars, g.String()+" ("+why+")")
	}
	sort.Strings(vars)
	byName := map[string][]*ssa.Function{}
	for _, f := range w.AllFuncs() {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	memo := map[*ssa.Function]int{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		switch memo[f] {
		case 1:
			return true
		case 2:
			return false
		}
		memo[f] = 2
		next := callees(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && sf[g] != "" {
						memo[f] = 1
						return true
					}
				}
				if i, ok := in.(ssa.CallInstruction); ok && i.Common().IsInvoke() {
					next = append(next, byName[i.Common().Method.Name()]...)
				}
			}
		}
		for _, c := range next {
			if w.InRepo(c) && reach(c) {
				memo[f] = 1
				return true
			}
		}
		return false
	}
	// a few rounds make the cut at recursive calls harmless
	for k := 0; k < 3; k++ {
		for f, v := range memo {
			if v == 2 {
				delete(memo, f)
			}
		}
		for _, f := range w.AllFuncs() {
			reach(f)
		}
	}
	for _, f := range w.Exported() {
		if reach(f) {
			roots = append(roots, f)
		} else {
			free = append(free, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	return
}

func switchUnits(w *eng.World) []Unit {
	roots, free, vars := stateRoots(w)
	us := []Unit{{"switch.state", func(w *eng.World, r *Rep) {
		for _, f := range free {
			r.ok("reaches-no-state", f.String(), true, "")
		}
		for _, v := range vars {
			r.Functions = append(r.Functions, "variable "+v)
		}
	}}}
	// quick: all pairs for one function per set of variables reached, three starting levels for the others
	few := map[string]bool{"Security128Bit": true, "SecurityUint1": true, "SecurityUint5": true}
	seen := map[string]bool{}
	for _, f := range roots {
		f := f
		key := reachedVars(w, f)
		rep := !seen[key]
		seen[key] = true
		for _, a := range levels(w) {
			a := a
			if !rep && !few[a.Name] && os.Getenv("VERIF_TIER") != "thorough" {
				continue
			}
			us = append(us, Unit{"switch/" + f.Pkg.Pkg.Name() + "." + f.Name() + "/" + a.Name, func(w *eng.World, r *Rep) { checkSwitch(w, r, f, a) }})
		}
	}
	return us
}

// reachedVars names the stateful variables a function reaches.
func reachedVars(w *eng.World, f *ssa.Function) string {
	sf := stateful(w)
	seen := map[*ssa.Function]bool{}
	vars := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !w.InRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && sf[g] != "" {
						vars[g.String()] = true
					}
				}
			}
		}
		for _, c := range callees(f) {
			visit(c)
		}
	}
	visit(f)
	var r []string
	for v := range vars {
		r = append(r, v)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// sameShape compares everything but the numbers held in arrays.
func (c *Ctx) sameShape(gst, wst *eng.State, got, want eng.Value, t types.Type, depth int) bool {
	if depth > 12 {
		return true
	}
	if eng.IsIte(got) || eng.IsIte(want) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 || u.Info()&types.IsComplex != 0 {
			return true
		}
		g, ok1 := got.(*eng.Term)
		w, ok2 := want.(*eng.Term)
		return ok1 && ok2 && g == w
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if c.counters()[fmt.Sprintf("%s#%d", u, i)] {
				continue
			}
			if !c.sameShape(gst, wst, eng.StructField(got, i), eng.StructField(want, i), u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if eng.IsNil(got) || eng.IsNil(want) {
			return eng.IsNil(got) && eng.IsNil(want)
		}
		if eng.PtrType(got) == nil || eng.PtrType(want) == nil {
			return false
		}
		return c.sameShape(gst, wst, c.X.Load(gst, got, u.Elem()), c.X.Load(wst, want, u.Elem()), u.Elem(), depth+1)
	case *types.Slice:
		if eng.IsNil(got) || eng.IsNil(want) {
			return eng.IsNil(got) && eng.IsNil(want)
		}
		g, w := eng.SliceLen(got), eng.SliceLen(want)
		if g == nil || g != w {
			return false
		}
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return true
		}
		if !g.IsConst() {
			return false
		}
		for k := int64(0); k < g.IVal() && k < 64; k++ {
			if !c.sameShape(gst, wst, c.X.Load(gst, eng.Elem(got, eng.I(k)), u.Elem()), c.X.Load(wst, eng.Elem(want, eng.I(k)), u.Elem()), u.Elem(), depth+1) {
				return false
			}
		}
		return true
	}
	return true
}

// counters lists the fields of basic type that are assigned in objects that already exist.
func (c *Ctx) counters() map[string]bool {
	if c.cnt != nil {
		return c.cnt
	}
	c.cnt = map[string]bool{}
	for _, f := range c.W.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := s.Val.Type().Underlying().(*types.Basic); !ok {
					continue
				}
				root := fa.X
				for {
					if g, ok := root.(*ssa.FieldAddr); ok {
						root = g.X
						continue
					}
					break
				}
				if _, ok := root.(*ssa.Alloc); ok {
					continue
				}
				c.cnt[fmt.Sprintf("%s#%d", fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying(), fa.Field)] = true
			}
		}
	}
	return c.cnt
}

// switchArgs builds the arguments of a call at the level in force.
func (c *Ctx) switchArgs(f *ssa.Function, prefix string) []eng.Value {
	var out []eng.Value
	for _, p := range f.Params {
		n := prefix + p.Name()
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			// any one element of a batch
			if _, isArr := s.Elem().Underlying().(*types.Array); isArr || isPtr(s.Elem()) {
				if _, known := map[string]bool{"bsk": true, "bootstrappingKey": true, "ksk": true, "keySwitchingKey": true}[p.Name()]; !known {
					c.lens[n] = eng.I(1)
				}
			}
		}
		switch p.Name() {
		case "ksk", "keySwitchingKey":
			c.lens[n] = eng.I(c.N * c.IKST << uint(c.BASEBIT))
		case "bsk", "bootstrappingKey":
			c.lens[n] = eng.I(c.N0)
		}
		out = append(out, c.argNamed(n, p.Name(), p.Type()))
	}
	return out
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (c *Ctx) argNamed(n, name string, t types.Type) eng.Value {
	if n == name {
		return c.arg(name, t)
	}
	ts := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if ts == "*poly.Evaluator" || ts == "*evaluator.Evaluator" || name == "N" || name == "n" {
		return c.arg(name, t)
	}
	return c.X.SymVal(n, t)
}

func checkSwitch(w *eng.World, r *Rep, f *ssa.Function, a LevelInfo) {
	fname := f.Pkg.Pkg.Name() + "." + f.Name()
	c := NewCtx(w, a, f.Pkg.Pkg.Name(), "trgsw", "gates")
	x := c.X
	fourierModels(x)
	pbsModels(c)
	// the abstraction of blind rotation holds for an evaluator shaped like a fresh one
	full, off := false, false
	var freshSt *eng.State
	var freshEval, freshPoly eng.Value
	fresh := func() {
		save := c.St
		c.St = save.Fork()
		freshEval = c.call("evaluator", "NewEvaluator", eng.I(c.N))
		freshPoly = c.call("poly", "NewEvaluator", eng.I(c.N))
		freshSt = c.St
		c.St = save
	}
	guard := func(name string, arg int, want func() eng.Value, t types.Type) {
		m := x.Models[name]
		if m == nil {
			return
		}
		x.Models[name] = func(x *eng.Interp, st *eng.State, args []eng.Value, ctx string) (eng.Value, bool) {
			if off {
				return nil, false
			}
			if arg >= len(args) || !c.sameShape(st, freshSt, args[arg], want(), t, 0) {
				full = true
				return nil, false
			}
			return m(x, st, args, ctx)
		}
	}
	guard("(*evaluator.Evaluator).BlindRotateAssign", 0, func() eng.Value { return freshEval }, c.ptr("evaluator", "Evaluator"))
	guard("trgsw.BlindRotate", 4, func() eng.Value { return freshPoly }, c.ptr("poly", "Evaluator"))
	for _, n := range []string{"trgsw.IdentityKeySwitchingAssign", "trgsw.IdentityKeySwitching"} {
		m := x.Models[n]
		x.Models[n] = func(x *eng.Interp, st *eng.State, args []eng.Value, ctx string) (eng.Value, bool) {
			if off {
				return nil, false
			}
			return m(x, st, args, ctx)
		}
	}
	// what pools were given
	var pooled []eng.Value
	x.Models["(*sync.Pool).Put"] = func(x *eng.Interp, st *eng.State, args []eng.Value, ctx string) (eng.Value, bool) {
		if len(args) == 2 {
			pooled = append(pooled, args[1])
		}
		return eng.Unit(), true
	}
	// a process that used level A
	fresh()
	cold := c.St.Fork()
	if _, ns := x.Run(c.St, f, c.switchArgs(f, "w.")...); ns != nil {
		c.St = ns
	}
	x.Problems, x.Panics, x.Bounds = nil, nil, nil
	warm := c.St
	old := pooled
	for _, b := range levels(w) {
		if b.Val == a.Val {
			continue
		}
		at := fname + "@" + a.Name + "->" + b.Name
		set := func(st *eng.State) {
			c.St = st
			c.Level = b
			c.SetLevel(b.Val)
			c.readParams()
		}
		set(cold.Fork())
		// the initialisers ran at the default level in both processes; the fresh one starts at B
		fresh()
		base := c.St
		args := c.switchArgs(f, "")
		args0 := args
		if c.St != base {
			base = c.St
		}
		run := func(st *eng.State, pool bool) (eng.Value, *eng.State, string) {
			x.Problems, x.Panics, x.Bounds = nil, nil, nil
			x.PoolGet = nil
			if pool {
				x.PoolGet = func(st *eng.State, p eng.Value) (eng.Value, bool) { return old[len(old)-1], true }
			}
			v, ns := x.Run(st, f, args...)
			x.PoolGet = nil
			bad := ""
			if ns == nil {
				bad = "does not return"
			}
			for _, p := range x.Panics {
				bad += fmt.Sprintf("%s: panic %s; ", p.Pos, p.Msg)
			}
			for _, q := range x.Bounds {
				if q.Definite {
					bad += fmt.Sprintf("%s: index out of range; ", q.Pos)
				}
			}
			for _, p := range x.Problems {
				bad += "not followed: " + p + "; "
			}
			x.Problems, x.Panics, x.Bounds = nil, nil, nil
			return v, ns, bad
		}
		try := func(pool bool) string {
			set(warm.Fork())
			args = args0
			if evalArgs(f) {
				args = c.switchArgs(f, "")
			}
			gargs := args
			got, gst, gbad := run(c.St, pool)
			args = args0
			want, wst, wbad := run(base.Fork(), false)
			if gbad != wbad {
				return fmt.Sprintf("after level %s: %s", a.Name, gbad)
			}
			if gst == nil || wst == nil {
				return ""
			}
			c.gotSt, c.wantSt = gst, wst
			defer func() { c.gotSt, c.wantSt = nil, nil }()
			res := f.Signature.Results()
			if res.Len() == 0 {
				for i, p := range f.Params {
					if isPtr(p.Type()) && !strings.HasSuffix(p.Type().String(), "Evaluator") {
						if d := c.cmp(gargs[i], args[i], p.Type(), p.Name(), nil); d != "" && !strings.Contains(d, "cannot compare") {
							return d
						}
					}
				}
			}
			for i := 0; i < res.Len(); i++ {
				g, w := got, want
				if res.Len() > 1 {
					g, w = eng.TupleElem(got, i), eng.TupleElem(want, i)
				}
				if d := c.cmp(g, w, res.At(i).Type(), "result", nil); d != "" {
					return d
				}
			}
			return ""
		}
		pools := []bool{false}
		if len(old) > 0 {
			pools = append(pools, true)
		}
		for _, p := range pools {
			full, off = false, false
			t0 := time.Now()
			d := try(p)
			if os.Getenv("SW") != "" {
				fmt.Println(at, p, full, time.Since(t0), short(d, 200))
			}
			if d != "" && full {
				off = true
				d = try(p)
			}
			r.ok("level-switch", at, d == "", "%s", d)
		}
		x.Ev = nil
	}
	r.note(c)
}

func evalArgs(f *ssa.Function) bool {
	for _, p := range f.Params {
		if strings.HasSuffix(p.Type().String(), "Evaluator") {
			return true
		}
	}
	return false
}
