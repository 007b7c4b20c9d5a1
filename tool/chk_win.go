package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vtool/eng"
	"vtool/lin"
)

// checkWindows interprets every operation of the polynomial package for its accesses.
func checkWindows(w *eng.World, r *Rep, n int) {
	l := newL(w, r, n)
	if !l.evaluator() {
		return
	}
	mk := func(ctor string, fourier bool) lin.Value {
		f := l.fn("", ctor)
		if f == nil {
			return nil
		}
		v, ok := l.run("poly."+ctor, f, int64(n))
		if !ok {
			return nil
		}
		s := coefs(v)
		r.ok("length", "poly."+ctor, s != nil && s.Len() == n, "degree %d: the polynomial does not have %d coefficients", n, n)
		if s == nil || s.Len() != n {
			return nil
		}
		return v
	}
	var evs []lin.Value
	evs = append(evs, l.ev)
	if f := l.fn("Evaluator", "ShallowCopy"); f != nil {
		if v, ok := l.run("poly.Evaluator.ShallowCopy", f, l.ev); ok {
			evs = append(evs, v)
		}
	}
	polys := map[string][2]string{"plain": {"NewPoly", "NewFourierPoly"}, "aligned": {"NewPolyAligned", "NewFourierPolyAligned"}}
	for _, kind := range []string{"plain", "aligned"} {
		p := mk(polys[kind][0], false)
		q := mk(polys[kind][0], false)
		o := mk(polys[kind][0], false)
		fa := mk(polys[kind][1], true)
		fb := mk(polys[kind][1], true)
		fo := mk(polys[kind][1], true)
		if p == nil || q == nil || o == nil || fa == nil || fb == nil || fo == nil {
			continue
		}
		for ei, ev := range evs {
			who := map[int]string{0: "", 1: " of a copy"}[ei]
			each := func(name string, args ...lin.Value) {
				f := l.fn("Evaluator", name)
				if f == nil {
					return
				}
				if len(f.Params) != len(args)+1 {
					return
				}
				before := l.x.Wins
				if _, ok := l.run("poly.Evaluator."+name+who, f, append([]lin.Value{ev}, args...)...); ok {
					r.ok("in-range", fmt.Sprintf("poly.Evaluator.%s%s (%s, %d views)", name, who, kind, l.x.Wins-before), true, "")
				}
			}
			l.allOps(each, p, q, o, fa, fb, fo)
		}
	}
	for s := range l.x.Sites {
		if lastSites != nil {
			lastSites[s] = true
		}
	}
	l.note()
	r.ok("views", "poly", l.x.Wins > 0, "no unsafe view was reached")
}

// allOps calls every operation of the polynomial evaluator.
func (l *L) allOps(each func(name string, args ...lin.Value), p, q, o, fa, fb, fo lin.Value) {
	n := l.n
	each("ToFourierPoly", p)
	each("ToFourierPolyAssign", p, fa)
	each("ToPoly", fa)
	each("ToPolyAssign", fa, o)
	each("ToPolyAssignUnsafe", fa, o)
	each("ToPolyAddAssignUnsafe", fa, o)
	each("ToPolySubAssignUnsafe", fa, o)
	each("AddFourierPoly", fa, fb)
	each("AddFourierPolyAssign", fa, fb, fo)
	each("SubFourierPoly", fa, fb)
	each("SubFourierPolyAssign", fa, fb, fo)
	each("MulFourierPoly", fa, fb)
	each("MulFourierPolyAssign", fa, fb, fo)
	each("MulAddFourierPolyAssign", fa, fb, fo)
	each("MulSubFourierPolyAssign", fa, fb, fo)
	each("FloatMulFourierPolyAssign", fa, lin.Num(1.5), fo)
	each("FloatMulAddFourierPolyAssign", fa, lin.Num(1.5), fo)
	each("MulPoly", p, q)
	each("MulPolyAssign", p, q, o)
	each("MulAddPolyAssign", p, q, o)
	each("MulSubPolyAssign", p, q, o)
	for _, b := range []string{"fpAcc", "fpBcc", "fpDiff", "fpMul1", "fpMul2"} {
		each("ClearBuffer", b)
	}
	for i := 0; i < 8; i++ {
		each("ToFourierPolyInBuffer", p, int64(i))
		each("CopyToDecompBuffer", coefs(p), int64(i))
		each("GetDecompBuffer", int64(i))
		each("GetDecompFFTBuffer", int64(i))
		for _, b := range []string{"fpAcc", "fpBcc"} {
			each("MulAddFourierPolyAssignBuffered", int64(i), fa, b)
		}
		each("GetRotationBuffer")
		each("GetTRLWEBuffer")
	}
	for _, b := range []string{"fpAcc", "fpBcc", "fpDiff"} {
		each("BufferToPolyAssign", b, coefs(o))
	}
	for _, k := range []int{0, 1, n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, -1, -n, -2 * n, -2*n - 1} {
		each("PolyMulWithXK", coefs(p), int64(k))
		each("PolyMulWithXKDirect", coefs(p), int64(k), coefs(o))
	}
}

// checkDegrees: constructors admit exactly the powers of two from the minimum on.
func checkDegrees(w *eng.World, r *Rep) {
	var ds []int64
	for d := int64(-17); d <= 70; d++ {
		ds = append(ds, d)
	}
	for k := uint(7); k <= 13; k++ {
		ds = append(ds, 1<<k-1, 1<<k, 1<<k+1, 1<<k+8, 3<<(k-1), 5<<(k-2))
	}
	ds = append(ds, math.MinInt64, math.MinInt32, math.MaxInt32, math.MaxInt64)
	for _, name := range []string{"NewPoly", "NewFourierPoly", "NewPolyAligned", "NewFourierPolyAligned", "NewEvaluator"} {
		f := w.Func("poly", name)
		if f == nil {
			continue
		}
		bad := ""
		for _, d := range ds {
			want := d >= 16 && d&(d-1) == 0
			if want && name == "NewEvaluator" && d > 2048 {
				continue
			}
			x := lin.New(w.Prog, w.Follow)
			_, flt, err := x.Call(f, d)
			switch {
			case err != nil:
				bad = fmt.Sprintf("degree %d: not decided: %v", d, err)
			case want && flt != nil:
				bad = fmt.Sprintf("degree %d is refused: %s", d, flt)
			case !want && flt == nil:
				bad = fmt.Sprintf("degree %d is accepted", d)
			case !want && !flt.Panic:
				bad = fmt.Sprintf("degree %d: %s", d, flt)
			}
			if bad != "" {
				break
			}
			r.Obligations++
		}
		r.ok("degree-guard", "poly."+name, bad == "", "%s", bad)
	}
}

// unsafeSites lists the conversions from unsafe.Pointer in the library.
func unsafeSites(w *eng.World) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range w.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				if t, ok := c.X.Type().Underlying().(*types.Basic); ok && t.Kind() == types.UnsafePointer {
					out[w.Pos(c.Pos())] = f
				}
			}
		}
	}
	return out
}

// checkUnsafeSites: every unsafe conversion of the library was interpreted, at the smallest degree.
func checkUnsafeSites(w *eng.World, r *Rep) {
	seen := map[string]bool{}
	for _, n := range []int{16, 32, 64} {
		rr := &Rep{}
		winSites(w, rr, n, seen)
	}
	for pos, f := range unsafeSites(w) {
		name := ownName(f)
		reach := reachedByExported(w, f)
		r.ok("reached", fmt.Sprintf("%s (%s)", pos, name), seen[pos] || !reach, "an unsafe conversion in %s is not reached by the operations analysed", name)
	}
}

func winSites(w *eng.World, r *Rep, n int, seen map[string]bool) {
	lastSites = seen
	checkWindows(w, r, n)
	lastSites = nil
}

var lastSites map[string]bool

// reachedByExported: some exported function leads to f.
func reachedByExported(w *eng.World, f *ssa.Function) bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, g := range w.AllFuncs() {
		for _, h := range callees(g) {
			callers[h] = append(callers[h], g)
		}
	}
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function) bool
	up = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		if g.Object() != nil && g.Object().Exported() || strings.HasPrefix(g.Name(), "init") {
			return true
		}
		for _, h := range callers[g] {
			if up(h) {
				return true
			}
		}
		return false
	}
	return up(f)
}
