package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"vtool/eng"
)

// LevelInfo is one declared security level.
type LevelInfo struct {
	Name string
	Val  int64
}

// levels lists the constants of type params.SecurityLevel.
func levels(w *eng.World) []LevelInfo {
	var r []LevelInfo
	p := w.SSA["params"]
	if p == nil {
		return nil
	}
	t := w.Type("params", "SecurityLevel")
	sc := p.Pkg.Scope()
	seen := map[int64]bool{}
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || t == nil || !types.Identical(c.Type(), t) || !c.Exported() {
			continue
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Val()))
		if !ok || seen[v] {
			continue
		}
		seen[v] = true
		r = append(r, LevelInfo{n, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Val < r[j].Val })
	return r
}

// Ctx is an analysis context: one abstract machine at one security level.
type Ctx struct {
	W     *eng.World
	X     *eng.Interp
	St    *eng.State
	Level LevelInfo

	N0, N1, N, NBIT, BGBIT, BG, L, BASEBIT, IKST, BlockSize int64
	A0, A1, BSKA, KSKA                                      *eng.Term

	lens          map[string]*eng.Term
	gotSt, wantSt *eng.State
	bad           []string
	cnt           map[string]bool
	copies        bool
}

// NewCtx prepares the abstract memory: package initialisers analysed, security level selected.
func NewCtx(w *eng.World, lv LevelInfo, pkgs ...string) *Ctx {
	x := eng.NewInterp(w.Prog)
	c := &Ctx{W: w, X: x, St: eng.NewState(), Level: lv, lens: map[string]*eng.Term{}}
	c.St = x.Init(c.St, w.SSA["params"])
	for _, p := range pkgs {
		c.St = x.Init(c.St, w.SSA[p])
	}
	c.SetLevel(lv.Val)
	c.readParams()
	x.Shape = c.shape
	return c
}

// SetLevel stores the security level in the selecting variable.
func (c *Ctx) SetLevel(v int64) {
	g := c.W.SSA["params"].Var("CurrentSecurityLevel")
	if g == nil {
		c.bad = append(c.bad, "params.CurrentSecurityLevel not found")
		return
	}
	c.X.Store(c.St, c.X.Global(g), g.Object().Type(), eng.I(v))
}

func (c *Ctx) paramField(fn, field string) *eng.Term {
	f := c.W.Func("params", fn)
	if f == nil {
		c.bad = append(c.bad, "params."+fn+" not found")
		return nil
	}
	r, ns := c.X.Run(c.St, f)
	if ns == nil {
		c.bad = append(c.bad, "params."+fn+" does not return")
		return nil
	}
	s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	if !ok {
		if t, ok := r.(*eng.Term); ok && field == "" {
			return t
		}
		c.bad = append(c.bad, "params."+fn+": unexpected result")
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			if t, ok := eng.StructField(r, i).(*eng.Term); ok {
				return t
			}
		}
	}
	c.bad = append(c.bad, fmt.Sprintf("params.%s().%s is not decided at level %s", fn, field, c.Level.Name))
	return nil
}

func (c *Ctx) paramInt(fn, field string) int64 {
	t := c.paramField(fn, field)
	if t == nil {
		return 0
	}
	if !t.IsConst() {
		c.bad = append(c.bad, fmt.Sprintf("params.%s().%s is not a constant at level %s: %s", fn, field, c.Level.Name, t))
		return 0
	}
	return t.IVal()
}

func (c *Ctx) readParams() {
	c.N0 = c.paramInt("GetTLWELv0", "N")
	c.N1 = c.paramInt("GetTLWELv1", "N")
	c.N = c.paramInt("GetTRGSWLv1", "N")
	c.NBIT = c.paramInt("GetTRGSWLv1", "NBIT")
	c.BGBIT = c.paramInt("GetTRGSWLv1", "BGBIT")
	c.BG = c.paramInt("GetTRGSWLv1", "BG")
	c.L = c.paramInt("GetTRGSWLv1", "L")
	c.BASEBIT = c.paramInt("GetTRGSWLv1", "BASEBIT")
	c.IKST = c.paramInt("GetTRGSWLv1", "IKS_T")
	c.BlockSize = c.paramInt("GetTRGSWLv1", "BlockSize")
	c.A0 = c.paramField("GetTLWELv0", "ALPHA")
	c.A1 = c.paramField("GetTLWELv1", "ALPHA")
	c.BSKA = c.paramField("BSKAlpha", "")
	c.KSKA = c.paramField("KSKAlpha", "")
}

// shape gives the length of caller-provided slices. Lengths of fields follow from the type that
// owns them; lengths of slice parameters are registered by name in lens.
func (c *Ctx) shape(x *eng.Interp, k eng.Key, elem types.Type) *eng.Term {
	n := x.KeyName(k)
	if t, ok := c.lens[n]; ok {
		return t
	}
	base, field := n, ""
	if i := strings.LastIndex(n, "."); i >= 0 {
		base, field = n[:i], n[i+1:]
	}
	_ = base
	owner := eng.OwnerType(k)
	switch {
	case owner == "TLWELv0" && field == "P":
		return eng.I(c.N0 + 1)
	case owner == "TLWELv1" && field == "P":
		return eng.I(c.N1 + 1)
	case owner == "TRLWELv1", owner == "Poly", owner == "FourierPoly":
		return eng.I(c.N)
	case field == "KeyLv0":
		return eng.I(c.N0)
	case field == "KeyLv1":
		return eng.I(c.N1)
	case owner == "TRGSWLv1" || owner == "TRGSWLv1FFT":
		return eng.I(2 * c.L)
	case field == "BootstrappingKey":
		return eng.I(c.N0)
	case field == "KeySwitchingKey" || field == "KeySwitchKey":
		return eng.I(c.N * c.IKST << uint(c.BASEBIT))
	}
	return nil
}

// arg builds an argument for a parameter by its type and name.
func (c *Ctx) arg(name string, t types.Type) eng.Value {
	ts := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	switch ts {
	case "*poly.Evaluator":
		return c.call("poly", "NewEvaluator", eng.I(c.N))
	case "*evaluator.Evaluator":
		return c.call("evaluator", "NewEvaluator", eng.I(c.N))
	}
	switch name {
	case "N", "n":
		return eng.I(c.N)
	case "key", "keyLv0", "keyFrom", "keyTo", "secretKey":
		c.lens[name] = eng.I(c.N0)
	case "keyLv1":
		c.lens[name] = eng.I(c.N1)
	case "ksk", "keySwitchingKey":
		c.lens[name] = eng.I(c.N * c.IKST << uint(c.BASEBIT))
	case "bsk", "bootstrappingKey":
		c.lens[name] = eng.I(c.N0)
	case "a", "result", "p":
		c.lens[name] = eng.I(c.N)
	}
	return c.X.SymVal(name, t)
}

// call runs a function of the repository on the context's memory.
func (c *Ctx) call(pkg, fn string, args ...eng.Value) eng.Value {
	f := c.W.Func(pkg, fn)
	if f == nil {
		c.bad = append(c.bad, pkg+"."+fn+" not found")
		return nil
	}
	r, ns := c.X.Run(c.St, f, args...)
	if ns == nil {
		c.bad = append(c.bad, pkg+"."+fn+" does not return")
		return r
	}
	c.St = ns
	return r
}
