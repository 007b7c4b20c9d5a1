package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C04",
		Rule:        "The accessors of the parameter package are interpreted at every declared level, at an arbitrary undeclared level, and after every other level: their results describe one consistent set (equal ring degrees and deviations, power-of-two degree and base, digits that fit the 32-bit torus, deviations of at least one torus unit), depend on the selected level alone, and no instruction of the library writes the selected level or a parameter set.",
		Assumptions: []string{"the level is changed by the user only through the exported variable"},
		Min:         200,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "params.consistent", checkParamsConsistent)
			us = append(us, Unit{"params.history", checkParamsHistory}, Unit{"params.unknown", checkParamsUnknown}, Unit{"params.immutable", checkParamsImmutable})
			return us
		},
	})
	register(&Prop{
		ID:          "C05",
		Rule:        "Every field returned by the parameter accessors, interpreted at each named level, equals the published value; the level selected at program start is the 128-bit one.",
		Assumptions: []string{"the pinned table transcribes README.md and the published parameter sets"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			return []Unit{{"params.published", checkParamsPublished}}
		},
	})
}

// paramFuncs lists the exported functions of the parameter package without parameters.
func paramFuncs(w *eng.World) []*ssa.Function {
	var r []*ssa.Function
	p := w.SSA["params"]
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// flat lists the leaves of an accessor's result.
func flat(v eng.Value, t types.Type, path string, out map[string]*eng.Term) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			flat(eng.StructField(v, i), s.Field(i).Type(), path+"."+s.Field(i).Name(), out)
		}
		return
	}
	tm, _ := v.(*eng.Term)
	out[path] = tm
}

// readAll runs every accessor.
func (c *Ctx) readAll(r *Rep) map[string]*eng.Term {
	out := map[string]*eng.Term{}
	for _, f := range paramFuncs(c.W) {
		np := len(c.X.Panics)
		v, ns := c.X.Run(c.St, f)
		c.problems(r, "params."+f.Name())
		if ns == nil || len(c.X.Panics) > np {
			r.ok("returns", "params."+f.Name(), false, "does not return at level %s", c.Level.Name)
			c.X.Panics = c.X.Panics[:np]
			if ns == nil {
				continue
			}
		}
		c.St = ns
		flat(v, f.Signature.Results().At(0).Type(), f.Name(), out)
	}
	return out
}

func rat(t *eng.Term) *big.Rat {
	if t == nil || !t.IsConst() {
		return nil
	}
	if t.RVal() != nil {
		return t.RVal()
	}
	return new(big.Rat).SetInt64(t.IVal())
}

var levelWord = regexp.MustCompile(`^Security(\d+Bit|Uint\d+)$`)

func checkParamsConsistent(c *Ctx, r *Rep) {
	at := func(s string) string { return s + "@" + c.Level.Name }
	m := c.readAll(r)
	num := func(n string) *big.Rat {
		t, ok := m[n]
		if !ok {
			r.undecided("anchor", at("params."+n), "params.%s not found", n)
			return new(big.Rat)
		}
		v := rat(t)
		if v == nil {
			r.undecided("constant", at("params."+n), "value at level %s is %s", c.Level.Name, eng.ShowVal(t))
			return new(big.Rat)
		}
		return v
	}
	eq := func(rule, a string, b *big.Rat, what string) {
		v := num(a)
		r.ok(rule, at("params."+a), v.Cmp(b) == 0, "at level %s params.%s is %s, but %s is %s", c.Level.Name, a, v.RatString(), what, b.RatString())
	}
	I := func(v int64) *big.Rat { return big.NewRat(v, 1) }
	N := num("GetTRGSWLv1.N")
	n, n0 := N.Num().Int64(), num("GetTLWELv0.N").Num().Int64()
	r.ok("degree-power-of-two", at("params.GetTRGSWLv1.N"), n >= 16 && n&(n-1) == 0, "ring degree %d", n)
	r.ok("dimension-positive", at("params.GetTLWELv0.N"), n0 > 0, "dimension %d", n0)
	eq("one-degree", "GetTLWELv1.N", N, "the ring degree")
	eq("one-degree", "GetTRLWELv1.N", N, "the ring degree")
	nbit := int64(0)
	for int64(1)<<uint(nbit) < n {
		nbit++
	}
	eq("log-degree", "GetTRGSWLv1.NBIT", I(nbit), "log2 of the degree")
	bg := num("GetTRGSWLv1.BGBIT").Num().Int64()
	eq("base", "GetTRGSWLv1.BG", I(1<<uint(bg&31)), "1<<BGBIT")
	l := num("GetTRGSWLv1.L").Num().Int64()
	r.ok("digits-fit", at("params.GetTRGSWLv1.L"), l >= 1 && bg >= 1 && l*bg <= 32, "%d digits of %d bits do not fit 32 bits", l, bg)
	bb, it := num("GetTRGSWLv1.BASEBIT").Num().Int64(), num("GetTRGSWLv1.IKS_T").Num().Int64()
	r.ok("digits-fit", at("params.GetTRGSWLv1.IKS_T"), bb >= 1 && it >= 1 && bb*it <= 31, "%d digits of %d bits do not fit 31 bits", it, bb)
	a1 := num("GetTLWELv1.ALPHA")
	for _, a := range []string{"GetTRLWELv1.ALPHA", "GetTRGSWLv1.ALPHA", "BSKAlpha"} {
		eq("one-ring-deviation", a, a1, "the ring deviation")
	}
	eq("one-base-deviation", "KSKAlpha", num("GetTLWELv0.ALPHA"), "the base deviation")
	bs := num("GetTRGSWLv1.BlockSize").Num().Int64()
	r.ok("block", at("params.GetTRGSWLv1.BlockSize"), bs >= 1, "block size %d", bs)
	if bs < 1 {
		bs = 1
	}
	eq("block", "GetBlockCount", I((n0+bs-1)/bs), "the number of blocks covering the dimension")
	blk := int64(0)
	if bs > 1 {
		blk = 1
	}
	eq("block", "UseBlockBlindRotation", I(blk), "blocks in use")
	// the error has to survive the 32-bit torus
	unit := new(big.Rat).SetFrac64(1, 1<<32)
	for _, a := range []string{"GetTLWELv0.ALPHA", "GetTLWELv1.ALPHA"} {
		v := num(a)
		r.ok("error-representable", at("params."+a), v.Cmp(unit) >= 0, "at level %s the deviation %s is below one unit of the 32-bit torus: the error is always zero", c.Level.Name, v.FloatString(20))
	}
	// the description names the level
	if w := levelWord.FindStringSubmatch(c.Level.Name); w != nil {
		word := strings.Replace(w[1], "Bit", "-bit", 1)
		t := m["SecurityInfo"]
		s, ok := eng.StrVal(t)
		if !ok {
			r.undecided("description", at("params.SecurityInfo"), "description is %s", eng.ShowVal(t))
		} else {
			r.ok("description", at("params.SecurityInfo"), regexp.MustCompile(`(^|[^0-9A-Za-z])`+word+`([^0-9A-Za-z]|$)`).MatchString(s), "at level %s the description is %q", c.Level.Name, s)
		}
	}
}

// checkParamsHistory: what the accessors return does not depend on levels selected before.
func checkParamsHistory(w *eng.World, r *Rep) {
	lvs := levels(w)
	fresh := map[int64]map[string]*eng.Term{}
	for _, b := range lvs {
		fresh[b.Val] = NewCtx(w, b).readAll(r)
	}
	for _, a := range lvs {
		c := NewCtx(w, a)
		c.readAll(r)
		base := c.St
		for _, b := range lvs {
			c.St = base.Fork()
			c.Level = b
			c.SetLevel(b.Val)
			m := c.readAll(r)
			d := diffReads(m, fresh[b.Val])
			r.ok("history-free", fmt.Sprintf("params@%s->%s", a.Name, b.Name), d == "", "%s", d)
		}
		r.note(c)
	}
}

func diffReads(m, want map[string]*eng.Term) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if m[k] == nil || want[k] == nil {
			return fmt.Sprintf("params.%s not resolved", k)
		}
		if m[k] != want[k] {
			return fmt.Sprintf("params.%s is %s, expected %s", k, m[k], want[k])
		}
	}
	return ""
}

// checkParamsUnknown: any other value of the level selects the default set.
func checkParamsUnknown(w *eng.World, r *Rep) {
	lvs := levels(w)
	var def LevelInfo
	for _, l := range lvs {
		if l.Name == "Security128Bit" {
			def = l
		}
	}
	if def.Name == "" {
		r.undecided("anchor", "params.Security128Bit", "not found")
		return
	}
	want := NewCtx(w, def).readAll(r)
	c := NewCtx(w, def)
	g := w.SSA["params"].Var("CurrentSecurityLevel")
	if g == nil {
		r.undecided("anchor", "params.CurrentSecurityLevel", "not found")
		return
	}
	lv := eng.Sym("level", eng.TI64)
	c.X.Store(c.St, c.X.Global(g), g.Object().Type(), lv)
	var pc []*eng.Term
	for _, l := range lvs {
		pc = append(pc, eng.Not(eng.Eq(lv, eng.I(l.Val))))
	}
	c.Level.Name = "any other"
	for k, t := range c.readAll(r) {
		if t == nil {
			r.undecided("unknown-level-is-default", "params."+k, "not resolved")
			continue
		}
		s := eng.Simplify(t, pc...)
		r.ok("unknown-level-is-default", "params."+k, s == want[k], "at an undeclared level params.%s is %s, expected %s", k, s, want[k])
	}
	r.note(c)
}

// checkParamsImmutable: no instruction of the library writes the selected level or a set.
func checkParamsImmutable(w *eng.World, r *Rep) {
	pkg := w.SSA["params"].Pkg
	isSet := func(t types.Type) bool {
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			_, st := n.Underlying().(*types.Struct)
			return st && n.Obj().Pkg() == pkg
		}
		if s, ok := t.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if n, ok := types.Unalias(s.Field(i).Type()).(*types.Named); ok && n.Obj().Pkg() == pkg {
					return true
				}
			}
		}
		return false
	}
	deref := func(t types.Type) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	// writes says which parameter memory an address denotes, "" if none.
	var writes func(v ssa.Value, seen map[ssa.Value]bool) string
	writes = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch a := v.(type) {
		case *ssa.FieldAddr:
			if n, ok := types.Unalias(deref(a.X.Type())).(*types.Named); ok && n.Obj().Pkg() != pkg {
				return ""
			}
			return writes(a.X, seen)
		case *ssa.IndexAddr:
			return writes(a.X, seen)
		case *ssa.Slice:
			return writes(a.X, seen)
		case *ssa.Phi:
			for _, e := range a.Edges {
				if s := writes(e, seen); s != "" {
					return s
				}
			}
			return ""
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return ""
		case *ssa.Global:
			if a.Pkg.Pkg == pkg {
				return "params." + a.Name()
			}
			return ""
		case *ssa.UnOp:
			if g, ok := a.X.(*ssa.Global); ok && g.Pkg.Pkg == pkg {
				return "params." + g.Name()
			}
		}
		if isSet(deref(v.Type())) {
			return "a parameter set (" + v.Type().String() + ")"
		}
		return ""
	}
	n := 0
	for _, f := range w.AllFuncs() {
		if f.Pkg != nil && f.Pkg.Pkg == pkg && f.Synthetic == "package initializer" {
			continue
		}
		n++
		bad := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch i := in.(type) {
				case *ssa.Store:
					addr = i.Addr
				case *ssa.MapUpdate:
					addr = i.Map
				default:
					continue
				}
				if s := writes(addr, map[ssa.Value]bool{}); s != "" {
					bad = fmt.Sprintf("%s writes %s", w.Prog.Fset.Position(in.Pos()), s)
				}
			}
		}
		r.ok("no-write", f.String(), bad == "", "%s", bad)
	}
	r.Functions = append(r.Functions, fmt.Sprintf("%d functions of the library", n))
}

type published struct {
	name                                            string
	n0, n, nbit, bgbit, l, basebit, ikst, blk, bits int64
	a0, a1                                          float64
}

var publishedSets = []published{
	{"Security80Bit", 550, 1024, 10, 6, 3, 2, 7, 3, 0, 5.0e-5, 3.73e-8},
	{"Security110Bit", 630, 1024, 10, 6, 3, 2, 8, 3, 0, 3.0517578125e-05, 2.980232238769531e-8},
	{"Security128Bit", 700, 1024, 10, 6, 3, 2, 9, 3, 0, 2.0e-05, 2.0e-08},
	{"SecurityUint1", 700, 1024, 10, 10, 2, 2, 8, 3, 1, 2.0e-05, 2.0e-08},
	{"SecurityUint2", 687, 512, 9, 18, 1, 4, 3, 3, 2, 0.00002120846893069971872305794214, 0.00000000000231841227527049948463},
	{"SecurityUint3", 820, 1024, 10, 23, 1, 6, 2, 4, 3, 0.00000251676160959795544987084234, 2.2204460492503131e-16},
	{"SecurityUint4", 820, 2048, 11, 22, 1, 5, 3, 4, 4, 0.00000251676160959795544987084234, 2.2204460492503131e-16},
	{"SecurityUint5", 1071, 2048, 11, 22, 1, 6, 3, 7, 5, 7.088226765410429399593757e-08, 2.2204460492503131e-17},
	{"SecurityUint6", 1071, 2048, 11, 22, 1, 6, 3, 7, 6, 7.088226765410429399593757e-08, 2.2204460492503131e-17},
	{"SecurityUint7", 1160, 2048, 11, 22, 1, 7, 3, 8, 7, 1.966220007498402695211596e-08, 2.2204460492503131e-17},
	{"SecurityUint8", 1160, 2048, 11, 22, 1, 7, 3, 8, 8, 1.966220007498402695211596e-08, 2.2204460492503131e-17},
}

func checkParamsPublished(w *eng.World, r *Rep) {
	sc := w.SSA["params"].Pkg.Scope()
	for _, p := range publishedSets {
		k, ok := sc.Lookup(p.name).(*types.Const)
		if !ok {
			r.undecided("anchor", "params."+p.name, "not found")
			continue
		}
		v, _ := constant.Int64Val(constant.ToInt(k.Val()))
		c := NewCtx(w, LevelInfo{p.name, v})
		m := c.readAll(r)
		want := map[string]int64{"GetTLWELv0.N": p.n0, "GetTLWELv1.N": p.n, "GetTRLWELv1.N": p.n, "GetTRGSWLv1.N": p.n,
			"GetTRGSWLv1.NBIT": p.nbit, "GetTRGSWLv1.BGBIT": p.bgbit, "GetTRGSWLv1.BG": 1 << uint(p.bgbit), "GetTRGSWLv1.L": p.l,
			"GetTRGSWLv1.BASEBIT": p.basebit, "GetTRGSWLv1.IKS_T": p.ikst, "GetTRGSWLv1.BlockSize": p.blk}
		for n, v := range want {
			g := rat(m[n])
			r.ok("published-value", "params."+n+"@"+p.name, g != nil && g.Cmp(big.NewRat(v, 1)) == 0, "at level %s params.%s is %s, published %d", p.name, n, eng.ShowVal(m[n]), v)
		}
		fw := map[string]float64{"GetTLWELv0.ALPHA": p.a0, "KSKAlpha": p.a0, "GetTLWELv1.ALPHA": p.a1, "GetTRLWELv1.ALPHA": p.a1, "GetTRGSWLv1.ALPHA": p.a1, "BSKAlpha": p.a1}
		for n, v := range fw {
			g := rat(m[n])
			ok := false
			if g != nil {
				f, _ := g.Float64()
				ok = f == v
			}
			r.ok("published-value", "params."+n+"@"+p.name, ok, "at level %s params.%s is %s, published %g", p.name, n, eng.ShowVal(m[n]), v)
		}
		r.note(c)
	}
	// the level at program start
	x := eng.NewInterp(w.Prog)
	st := x.Init(eng.NewState(), w.SSA["params"])
	g := w.SSA["params"].Var("CurrentSecurityLevel")
	k, ok := sc.Lookup("Security128Bit").(*types.Const)
	if g == nil || !ok {
		r.undecided("anchor", "params.CurrentSecurityLevel", "not found")
		return
	}
	v, _ := constant.Int64Val(constant.ToInt(k.Val()))
	t, _ := x.Load(st, x.Global(g), g.Object().Type()).(*eng.Term)
	r.ok("default-level", "params.CurrentSecurityLevel", t != nil && t.IsConst() && t.IVal() == v, "the level selected at start is %s", eng.ShowVal(t))
}
