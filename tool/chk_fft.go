package main

import (
	"fmt"
	"go/types"
	"math"
	"math/cmplx"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vtool/eng"
	"vtool/lin"
)

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "The transforms are interpreted over linear forms: control flow, indices and twiddle factors are exact, the polynomial coefficients are unknowns, so every output is the linear map of the inputs the code computes. Obligations per degree: every complex lane of the forward transform is the signed polynomial evaluated at a primitive 2N-th root of unity, with one lane per conjugate pair; every coefficient of the inverse transform is the nearest integer, modulo 2^32, to the inverse of that map (added to or subtracted from the previous contents for the accumulating forms); nothing depends on what buffers or outputs held before.",
		Assumptions: []string{
			"Real arithmetic; twiddle factors are evaluated in double precision and compared to 1e-11.",
			"The size of the rounding error for large coefficients is not bounded here.",
		},
		Min: 100,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, n := range fftDegrees(w) {
				n := n
				us = append(us, Unit{fmt.Sprintf("degree %d", n), func(w *eng.World, r *Rep) { checkFFT(w, r, n) }})
			}
			return us
		},
	})
	register(&Prop{
		ID:   "C23",
		Rule: "The Fourier-domain operations are interpreted over unknown lanes at every degree and every pattern of shared operands; every output lane must be the prescribed complex expression of the lanes of the operands, and operands that are not outputs keep their values. Products of polynomials are interpreted over unknown coefficients; every coefficient must be the nearest integer, modulo 2^32, to the negacyclic product (for degrees 16 to 64), and at every degree the composition of transform, lane product and inverse transform.",
		Assumptions: []string{
			"Real arithmetic, tolerance 1e-9 on coefficients of products.",
		},
		Min: 200,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, n := range fftDegrees(w) {
				n := n
				us = append(us, Unit{fmt.Sprintf("degree %d", n), func(w *eng.World, r *Rep) { checkLanes(w, r, n) }})
			}
			for _, n := range []int{16, 32, 64} {
				n := n
				us = append(us, Unit{fmt.Sprintf("product %d", n), func(w *eng.World, r *Rep) { checkPolyMul(w, r, n) }})
			}
			return us
		},
	})
	register(&Prop{
		ID:   "C24",
		Rule: "Every operation of the polynomial package is interpreted at every degree with exact indices: each unsafe view of a slice, each index and each slice expression must lie inside the slice it is taken from, for polynomials made by any of the constructors and for every sharing pattern the operations allow. Every unsafe conversion of the repository must have been reached. The constructors must refuse exactly the degrees that are no power of two or below the minimum.",
		Assumptions: []string{
			"Polynomials passed to an operation have the evaluator's degree (all constructors of the library give that).",
		},
		Min: 100,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, n := range append(fftDegrees(w), 4096) {
				n := n
				us = append(us, Unit{fmt.Sprintf("degree %d", n), func(w *eng.World, r *Rep) { checkWindows(w, r, n) }})
			}
			us = append(us, Unit{"constructors", checkDegrees}, Unit{"coverage", checkUnsafeSites})
			return us
		},
	})
}

// fftDegrees: every degree a level uses, and the smaller ones the package admits.
func fftDegrees(w *eng.World) []int {
	ds := []int{16, 32, 64, 128, 256, 512, 1024, 2048}
	return ds
}

// L is a context of the linear-form interpreter.
type L struct {
	w  *eng.World
	x  *lin.Interp
	r  *Rep
	n  int
	ev lin.Value
	at string
}

func newL(w *eng.World, r *Rep, n int) *L {
	l := &L{w: w, x: lin.New(w.Prog, w.Follow), r: r, n: n}
	return l
}

func (l *L) torusT() types.Type { return l.w.Type("params", "Torus") }

// call runs a method of the polynomial evaluator (recv true) or a function of the package.
func (l *L) fn(typ, name string) *ssa.Function {
	if typ == "" {
		return l.w.Func("poly", name)
	}
	var f *ssa.Function
	for _, g := range l.w.AllFuncs() {
		if n := ownName(g); n == "(*poly."+typ+")."+name || n == "(poly."+typ+")."+name {
			f = g
		}
	}
	return f
}

// run calls and reports misbehaviour; ok is false if there is no result to look at.
func (l *L) run(what string, f *ssa.Function, args ...lin.Value) (lin.Value, bool) {
	if f == nil {
		return nil, false
	}
	if a, ok := args[0].(*lin.Agg); ok && f.Signature.Recv() != nil && isPtr(f.Signature.Recv().Type()) {
		args[0] = lin.Cell(a)
	}
	if p, ok := args[0].(*lin.Ptr); ok && f.Signature.Recv() != nil && !isPtr(f.Signature.Recv().Type()) {
		args[0] = lin.Deref(p)
	}
	v, flt, err := l.x.Call(f, args...)
	if flt != nil {
		l.r.ok("in-range", what, false, "degree %d: %s", l.n, flt)
		return nil, false
	}
	if err != nil {
		l.r.undecided("analysis", what, "degree %d: %v", l.n, err)
		return nil, false
	}
	return v, true
}

func (l *L) evaluator() bool {
	v, ok := l.run("poly.NewEvaluator", l.fn("", "NewEvaluator"), int64(l.n))
	if !ok {
		if l.fn("", "NewEvaluator") == nil {
			l.r.undecided("anchor", "poly.NewEvaluator", "not found")
		}
		return false
	}
	l.ev = v
	return true
}

func (l *L) poly() (lin.Value, []int32) {
	s, syms := l.x.Toruses(l.n, l.torusT())
	return lin.Struct(s), syms
}

func (l *L) fourier() (lin.Value, []int32) {
	s, syms := l.x.Floats(l.n)
	return lin.Struct(s), syms
}

// ringCt is a ring ciphertext of unknowns.
func (l *L) ringCt() (lin.Value, []int32, []int32) {
	a, as := l.x.Toruses(l.n, l.torusT())
	b, bs := l.x.Toruses(l.n, l.torusT())
	return lin.Cell(lin.Struct(a, b)), as, bs
}

func (l *L) note() {
	for f := range l.x.Funcs {
		l.r.Functions = append(l.r.Functions, f)
	}
}

// lane gives the positions of the real and imaginary part of complex lane i.
func lane(i int) (int, int) { return i/4*8 + i%4, i/4*8 + 4 + i%4 }

func coefs(v lin.Value) *lin.Slice {
	s, _ := lin.Field(v, 0).(*lin.Slice)
	return s
}

const fftTol = 1e-11

// evaluation checks that a Fourier polynomial is the evaluation of the polynomial with the given
// coefficient symbols at N/2 primitive roots, and returns the roots.
func (l *L) evaluation(what string, fp lin.Value, syms []int32) []complex128 {
	n := l.n
	s := coefs(fp)
	if s == nil || s.Len() != n {
		l.r.ok("forward-shape", what, false, "the transform of degree %d does not have %d coefficients", n, n)
		return nil
	}
	pos := map[int32]int{}
	for k, sy := range syms {
		pos[sy] = k
	}
	roots := make([]complex128, n/2)
	bad := ""
	get := func(v lin.Value) []float64 {
		f, ok := v.(*lin.F)
		if !ok {
			bad = fmt.Sprintf("a lane is no real number (%T)", v)
			return nil
		}
		out := make([]float64, n)
		if math.Abs(f.Const()) > fftTol || f.NQuad() > 0 {
			bad = fmt.Sprintf("a lane is not linear in the coefficients: %s", f)
		}
		f.Each(func(sy int32, c float64) {
			k, ok := pos[sy]
			if !ok {
				if math.Abs(c) > fftTol {
					bad = fmt.Sprintf("a lane depends on something other than the signed coefficients: %s", f)
				}
				return
			}
			out[k] += c
		})
		return out
	}
	seen := map[int]int{}
	for i := 0; i < n/2 && bad == ""; i++ {
		ri, ii := lane(i)
		re, im := get(lin.At(s, ri)), get(lin.At(s, ii))
		if bad != "" {
			bad = fmt.Sprintf("lane %d: %s", i, bad)
			break
		}
		if cmplx.Abs(complex(re[0], im[0])-1) > fftTol {
			bad = fmt.Sprintf("lane %d: the constant term enters with factor %v", i, complex(re[0], im[0]))
			break
		}
		w := complex(re[1], im[1])
		// snap to the nearest primitive 2N-th root
		j := int(math.Round(cmplx.Phase(w) * float64(n) / math.Pi))
		j = ((j % (2 * n)) + 2*n) % (2 * n)
		if j%2 == 0 {
			bad = fmt.Sprintf("lane %d: X is evaluated at %v, which is no root of X^%d+1", i, w, n)
			break
		}
		roots[i] = cmplx.Exp(complex(0, math.Pi*float64(j)/float64(n)))
		for k := 0; k < n; k++ {
			want := cmplx.Exp(complex(0, math.Pi*float64(j*k%(2*n))/float64(n)))
			if cmplx.Abs(complex(re[k], im[k])-want) > fftTol {
				bad = fmt.Sprintf("lane %d: coefficient %d enters with factor %v, expected %v", i, k, complex(re[k], im[k]), want)
				break
			}
		}
		c := j
		if 2*n-j < c {
			c = 2*n - j
		}
		if o, dup := seen[c]; dup && bad == "" {
			bad = fmt.Sprintf("lanes %d and %d evaluate at the same or conjugate roots", o, i)
		}
		seen[c] = i
	}
	if !l.r.ok("forward-evaluates-at-roots", what, bad == "", "degree %d: %s", n, bad) {
		return nil
	}
	return roots
}

// inverse checks that a polynomial is prev*old + sign * (inverse transform of lanes), rounded.
func (l *L) inverse(what string, p lin.Value, lanes []int32, roots []complex128, sign int, prev []int32) {
	n := l.n
	s := coefs(p)
	if s == nil || s.Len() != n {
		l.r.ok("inverse-shape", what, false, "the polynomial does not have %d coefficients", n)
		return
	}
	pos := map[int32]int{}
	for k, sy := range lanes {
		pos[sy] = k
	}
	bad := ""
	for k := 0; k < n && bad == ""; k++ {
		rest, form, ok := l.x.Rounded(lin.At(s, k))
		if !ok || form == nil {
			bad = fmt.Sprintf("coefficient %d is not the nearest integer to a linear form of the lanes, modulo 2^32", k)
			break
		}
		if prev == nil && (rest.C() != 0 || len(rest.Lin()) != 0) || prev != nil && (rest.C() != 0 || len(rest.Lin()) != 1 || rest.Lin()[prev[k]] != 1) {
			bad = fmt.Sprintf("coefficient %d keeps or drops part of the previous contents", k)
			break
		}
		if math.Abs(form.Const()) > fftTol || form.NQuad() > 0 {
			bad = fmt.Sprintf("coefficient %d is not linear in the lanes", k)
			break
		}
		got := make([]float64, n)
		form.Each(func(sy int32, c float64) {
			i, ok := pos[sy]
			if !ok {
				if math.Abs(c) > fftTol {
					bad = fmt.Sprintf("coefficient %d depends on something other than the lanes", k)
				}
				return
			}
			got[i] += c
		})
		for i := 0; i < n/2 && bad == ""; i++ {
			ri, ii := lane(i)
			// x_k = 2/N sum Re(f * conj(root)^k)
			j := int(math.Round(cmplx.Phase(roots[i]) * float64(n) / math.Pi))
			j = ((j*k)%(2*n) + 2*n) % (2 * n)
			c := cmplx.Exp(complex(0, -math.Pi*float64(j)/float64(n)))
			f := float64(sign) * 2 / float64(n)
			if d := math.Abs(got[ri] - f*real(c)); d > fftTol {
				bad = fmt.Sprintf("coefficient %d takes the real part of lane %d with factor %g, expected %g", k, i, got[ri], f*real(c))
			}
			if d := math.Abs(got[ii] + f*imag(c)); d > fftTol {
				bad = fmt.Sprintf("coefficient %d takes the imaginary part of lane %d with factor %g, expected %g", k, i, got[ii], -f*imag(c))
			}
		}
	}
	l.r.ok("inverse-undoes-forward", what, bad == "", "degree %d: %s", n, bad)
}

// history uses the evaluator on other data first.
func (l *L) history() {
	p, _ := l.poly()
	q, _ := l.poly()
	o, _ := l.poly()
	f, _ := l.fourier()
	x := l.x
	x.Call(l.fn("Evaluator", "ToFourierPoly"), l.ev, p)
	x.Call(l.fn("Evaluator", "ToPoly"), l.ev, f)
	x.Call(l.fn("Evaluator", "ToFourierPolyInBuffer"), l.ev, q, int64(0))
	x.Call(l.fn("Evaluator", "ToPolyAssign"), l.ev, f, o)
}

func checkFFT(w *eng.World, r *Rep, n int) {
	l := newL(w, r, n)
	if !l.evaluator() {
		return
	}
	l.history()
	var roots []complex128
	same := func(what string, rs []complex128) {
		if rs == nil || roots == nil {
			return
		}
		for i := range rs {
			if cmplx.Abs(rs[i]-roots[i]) > 1e-9 {
				l.r.ok("lane-order", what, false, "degree %d: lane %d is evaluated at another root than by ToFourierPoly", n, i)
				return
			}
		}
		l.r.ok("lane-order", what, true, "")
	}
	evs := map[string]lin.Value{"": l.ev}
	if v, ok := l.run("poly.Evaluator.ShallowCopy", l.fn("Evaluator", "ShallowCopy"), l.ev); ok {
		evs[" of a copy"] = v
	}
	for _, who := range []string{"", " of a copy"} {
		ev := evs[who]
		if ev == nil {
			continue
		}
		l.ev = ev
		p, syms := l.poly()
		if v, ok := l.run("poly.Evaluator.ToFourierPoly"+who, l.fn("Evaluator", "ToFourierPoly"), ev, p); ok {
			rs := l.evaluation("poly.Evaluator.ToFourierPoly"+who, v, syms)
			if roots == nil {
				roots = rs
			}
			same("poly.Evaluator.ToFourierPoly"+who, rs)
		}
		out, _ := l.fourier()
		if _, ok := l.run("poly.Evaluator.ToFourierPolyAssign"+who, l.fn("Evaluator", "ToFourierPolyAssign"), ev, p, out); ok {
			same("poly.Evaluator.ToFourierPolyAssign"+who, l.evaluation("poly.Evaluator.ToFourierPolyAssign"+who, out, syms))
			l.unchangedU("poly.Evaluator.ToFourierPolyAssign"+who, p, syms)
		}
		if f := l.fn("Evaluator", "ToFourierPolyInBuffer"); f != nil {
			if _, ok := l.run("poly.Evaluator.ToFourierPolyInBuffer"+who, f, ev, p, int64(1)); ok {
				if v, ok := l.run("poly.Evaluator.GetDecompFFTBuffer"+who, l.fn("Evaluator", "GetDecompFFTBuffer"), ev, int64(1)); ok {
					same("poly.Evaluator.ToFourierPolyInBuffer"+who, l.evaluation("poly.Evaluator.ToFourierPolyInBuffer"+who, v, syms))
				}
			}
		}
		if roots == nil {
			continue
		}
		fp, lanes := l.fourier()
		if v, ok := l.run("poly.Evaluator.ToPoly"+who, l.fn("Evaluator", "ToPoly"), ev, fp); ok {
			l.inverse("poly.Evaluator.ToPoly"+who, v, lanes, roots, 1, nil)
			l.unchangedF("poly.Evaluator.ToPoly"+who, fp, lanes)
		}
		po, _ := l.poly()
		if _, ok := l.run("poly.Evaluator.ToPolyAssign"+who, l.fn("Evaluator", "ToPolyAssign"), ev, fp, po); ok {
			l.inverse("poly.Evaluator.ToPolyAssign"+who, po, lanes, roots, 1, nil)
			l.unchangedF("poly.Evaluator.ToPolyAssign"+who, fp, lanes)
		}
		for _, m := range []struct {
			name string
			sign int
			acc  bool
		}{{"ToPolyAssignUnsafe", 1, false}, {"ToPolyAddAssignUnsafe", 1, true}, {"ToPolySubAssignUnsafe", -1, true}} {
			f := l.fn("Evaluator", m.name)
			if f == nil {
				continue
			}
			fp, lanes := l.fourier()
			po, old := l.poly()
			if !m.acc {
				old = nil
			}
			if _, ok := l.run("poly.Evaluator."+m.name+who, f, ev, fp, po); ok {
				l.inverse("poly.Evaluator."+m.name+who, po, lanes, roots, m.sign, old)
			}
		}
		if f := w.Func("trlwe", "NewTRLWELv1FFT"); f != nil {
			ct, as, bs := l.ringCt()
			if v, ok := l.run("trlwe.NewTRLWELv1FFT", f, ct, ev); ok {
				if d := lin.Deref1(v); d != nil {
					same("trlwe.NewTRLWELv1FFT", l.evaluation("trlwe.NewTRLWELv1FFT A", lin.Struct(lin.Field(d, 0)), as))
					same("trlwe.NewTRLWELv1FFT", l.evaluation("trlwe.NewTRLWELv1FFT B", lin.Struct(lin.Field(d, 1)), bs))
				} else {
					r.undecided("analysis", "trlwe.NewTRLWELv1FFT", "no ciphertext")
				}
			}
		}
		if f := l.fn("Evaluator", "BufferToPolyAssign"); f != nil && who == "" {
			l.buffered(f, roots)
		}
	}
	l.note()
}

// buffered: dst = inverse(acc) for the accumulators addressed by name.
func (l *L) buffered(f *ssa.Function, roots []complex128) {
	one := make([]float64, l.n)
	for i := 0; i < l.n/2; i++ {
		re, _ := lane(i)
		one[re] = 1
	}
	for _, name := range []string{"fpAcc", "fpBcc"} {
		what := "poly.Evaluator.BufferToPolyAssign:" + name
		fp, lanes := l.fourier()
		// acc := 0; decomp[0] := transform of 1; acc += decomp[0] * fp
		p, _ := l.poly()
		cl := l.fn("Poly", "Clear")
		if cl == nil {
			return
		}
		l.run(what, cl, p)
		pc := coefs(p)
		lin.SetAt(pc, 0, int64(1))
		if _, ok := l.run(what, l.fn("Evaluator", "ToFourierPolyInBuffer"), l.ev, p, int64(0)); !ok {
			return
		}
		if _, ok := l.run(what, l.fn("Evaluator", "ClearBuffer"), l.ev, name); !ok {
			return
		}
		if _, ok := l.run(what, l.fn("Evaluator", "MulAddFourierPolyAssignBuffered"), l.ev, int64(0), fp, name); !ok {
			return
		}
		out, _ := l.x.Toruses(l.n, l.torusT())
		if _, ok := l.run(what, f, l.ev, name, out); !ok {
			return
		}
		l.inverse(what, lin.Struct(out), lanes, roots, 1, nil)
	}
}

func (l *L) unchangedU(what string, p lin.Value, syms []int32) {
	s := coefs(p)
	for i, sy := range syms {
		u, ok := lin.At(s, i).(*lin.U)
		if !ok || u.C() != 0 || len(u.Lin()) != 1 || u.Lin()[sy] != 1 {
			l.r.ok("operand-unchanged", what, false, "degree %d: coefficient %d of the operand is changed", l.n, i)
			return
		}
	}
	l.r.ok("operand-unchanged", what, true, "")
}

func (l *L) unchangedF(what string, p lin.Value, syms []int32) {
	s := coefs(p)
	for i, sy := range syms {
		f, ok := lin.At(s, i).(*lin.F)
		if !ok || f.Const() != 0 || f.NLin() != 1 || f.Coef(sy) != 1 || f.NQuad() != 0 {
			l.r.ok("operand-unchanged", what, false, "degree %d: lane value %d of the operand is changed", l.n, i)
			return
		}
	}
	l.r.ok("operand-unchanged", what, true, "")
}

// cpoly is a quadratic expression of lane symbols, for the reference side.
type cexp struct{ re, im map[[2]int32]float64 }

func sym1(s int32) map[[2]int32]float64 { return map[[2]int32]float64{{0, s}: 1} }

func mulSym(a, b int32) [2]int32 {
	if a > b {
		a, b = b, a
	}
	return [2]int32{a, b}
}

// expr renders a form as a map.
func expr(f *lin.F) map[[2]int32]float64 {
	m := map[[2]int32]float64{}
	if f.Const() != 0 {
		m[[2]int32{0, 0}] = f.Const()
	}
	f.Each(func(s int32, c float64) { m[[2]int32{0, s}] += c })
	f.EachQuad(func(a, b int32, c float64) { m[mulSym(a, b)] += c })
	return m
}

func sameExpr(a, b map[[2]int32]float64, tol float64) bool {
	for k, v := range a {
		if math.Abs(v-b[k]) > tol {
			return false
		}
	}
	for k, v := range b {
		if math.Abs(v-a[k]) > tol {
			return false
		}
	}
	return true
}

// laneOps is the table of Fourier-domain operations: out = f(a, b, out).
type laneOp struct {
	name  string
	nin   int
	acc   bool // uses the previous output
	float bool // second operand is a number
	f     func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64)
}

func add(m map[[2]int32]float64, s int32, c float64) { m[[2]int32{0, s}] += c }
func addP(m map[[2]int32]float64, a, b int32, c float64) {
	m[mulSym(a, b)] += c
}

func cmul(a, b [2]int32, re, im map[[2]int32]float64, c float64) {
	addP(re, a[0], b[0], c)
	addP(re, a[1], b[1], -c)
	addP(im, a[0], b[1], c)
	addP(im, a[1], b[0], c)
}

var laneOps = []laneOp{
	{"AddFourierPoly", 2, false, false, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, a[0], 1)
		add(re, b[0], 1)
		add(im, a[1], 1)
		add(im, b[1], 1)
	}},
	{"SubFourierPoly", 2, false, false, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, a[0], 1)
		add(re, b[0], -1)
		add(im, a[1], 1)
		add(im, b[1], -1)
	}},
	{"MulFourierPoly", 2, false, false, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		cmul(a, b, re, im, 1)
	}},
	{"MulAddFourierPoly", 2, true, false, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, o[0], 1)
		add(im, o[1], 1)
		cmul(a, b, re, im, 1)
	}},
	{"MulSubFourierPoly", 2, true, false, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, o[0], 1)
		add(im, o[1], 1)
		cmul(a, b, re, im, -1)
	}},
	{"FloatMulFourierPoly", 1, false, true, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, a[0], c)
		add(im, a[1], c)
	}},
	{"FloatMulAddFourierPoly", 1, true, true, func(a, b, o [2]int32, re, im map[[2]int32]float64, c float64) {
		add(re, o[0], 1)
		add(im, o[1], 1)
		add(re, a[0], c)
		add(im, a[1], c)
	}},
}

// checkLane compares a result with an operation's definition.
func (l *L) checkLane(what string, v lin.Value, op laneOp, a, b, o []int32, c float64) {
	s := coefs(v)
	bad := ""
	if s == nil || s.Len() != l.n {
		bad = "the result does not have the evaluator's degree"
	}
	for i := 0; i < l.n/2 && bad == ""; i++ {
		ri, ii := lane(i)
		re, im := map[[2]int32]float64{}, map[[2]int32]float64{}
		at := func(s []int32) [2]int32 {
			if s == nil {
				return [2]int32{}
			}
			return [2]int32{s[ri], s[ii]}
		}
		op.f(at(a), at(b), at(o), re, im, c)
		gr, ok1 := lin.At(s, ri).(*lin.F)
		gi, ok2 := lin.At(s, ii).(*lin.F)
		if !ok1 || !ok2 {
			bad = fmt.Sprintf("lane %d is no number", i)
			break
		}
		if !sameExpr(expr(gr), re, 1e-12) {
			bad = fmt.Sprintf("real part of lane %d is %v, expected %v", i, expr(gr), re)
		} else if !sameExpr(expr(gi), im, 1e-12) {
			bad = fmt.Sprintf("imaginary part of lane %d is %v, expected %v", i, expr(gi), im)
		}
	}
	l.r.ok("lane-arithmetic", what, bad == "", "degree %d: %s", l.n, bad)
}

func checkLanes(w *eng.World, r *Rep, n int) {
	l := newL(w, r, n)
	if !l.evaluator() {
		return
	}
	const c = 0.375
	for _, op := range laneOps {
		// allocating form
		if f := l.fn("Evaluator", op.name); f != nil && !op.acc {
			what := "poly.Evaluator." + op.name
			for _, sh := range []string{"", "a=b"} {
				a, as := l.fourier()
				b, bs := l.fourier()
				if sh != "" {
					if op.nin < 2 {
						continue
					}
					b, bs = a, as
				}
				args := []lin.Value{l.ev, a, b}
				if op.float {
					args = []lin.Value{l.ev, a, lin.Num(c)}
				}
				if v, ok := l.run(what, f, args...); ok {
					l.checkLane(what+" "+sh, v, op, as, bs, nil, c)
					l.unchangedF(what, a, as)
				}
			}
		}
		f := l.fn("Evaluator", op.name+"Assign")
		if f == nil {
			continue
		}
		what := "poly.Evaluator." + op.name + "Assign"
		shs := []string{"", "out=a"}
		if op.nin == 2 {
			shs = append(shs, "out=b", "a=b", "out=a=b")
		}
		for _, sh := range shs {
			a, as := l.fourier()
			b, bs := l.fourier()
			o, os := l.fourier()
			switch sh {
			case "out=a":
				o, os = a, as
			case "out=b":
				o, os = b, bs
			case "a=b":
				b, bs = a, as
			case "out=a=b":
				b, bs, o, os = a, as, a, as
			}
			args := []lin.Value{l.ev, a, b, o}
			if op.float {
				args = []lin.Value{l.ev, a, lin.Num(c), o}
			}
			if _, ok := l.run(what, f, args...); ok {
				l.checkLane(strings.TrimSpace(what+" "+sh), o, op, as, bs, os, c)
				if sh == "" {
					l.unchangedF(what, a, as)
				}
			}
		}
	}
	// copies and clearing
	a, as := l.fourier()
	if v, ok := l.run("poly.FourierPoly.Copy", l.fn("FourierPoly", "Copy"), a); ok {
		l.unchangedF("poly.FourierPoly.Copy", v, as)
		l.r.ok("copy-is-fresh", "poly.FourierPoly.Copy", !lin.Same(coefs(v), coefs(a)), "the copy shares the original's memory")
	}
	b, _ := l.fourier()
	if _, ok := l.run("poly.FourierPoly.CopyFrom", l.fn("FourierPoly", "CopyFrom"), b, a); ok {
		l.unchangedF("poly.FourierPoly.CopyFrom", b, as)
	}
	if _, ok := l.run("poly.FourierPoly.Clear", l.fn("FourierPoly", "Clear"), b); ok {
		l.cleared("poly.FourierPoly.Clear", b)
	}
	p, ps := l.poly()
	if v, ok := l.run("poly.Poly.Copy", l.fn("Poly", "Copy"), p); ok {
		l.unchangedU("poly.Poly.Copy", v, ps)
		l.r.ok("copy-is-fresh", "poly.Poly.Copy", !lin.Same(coefs(v), coefs(p)), "the copy shares the original's memory")
	}
	if _, ok := l.run("poly.Poly.Clear", l.fn("Poly", "Clear"), p); ok {
		l.cleared("poly.Poly.Clear", p)
	}
	// decomposition buffers by index, ring ciphertext buffers
	cp, get := l.fn("Evaluator", "CopyToDecompBuffer"), l.fn("Evaluator", "GetDecompBuffer")
	if cp != nil && get != nil {
		var all [][]int32
		for i := 0; i < 8; i++ {
			q, qs := l.poly()
			if _, ok := l.run("poly.Evaluator.CopyToDecompBuffer", cp, l.ev, coefs(q), int64(i)); !ok {
				break
			}
			all = append(all, qs)
		}
		for i, qs := range all {
			if v, ok := l.run("poly.Evaluator.GetDecompBuffer", get, l.ev, int64(i)); ok {
				l.unchangedU("poly.Evaluator.CopyToDecompBuffer", v, qs)
			}
		}
	}
	if f := l.fn("Evaluator", "ClearTRLWEBuffer"); f != nil {
		q, _ := l.poly()
		q2, _ := l.poly()
		if _, ok := l.run("poly.Evaluator.ClearTRLWEBuffer", f, l.ev, coefs(q), coefs(q2)); ok {
			l.cleared("poly.Evaluator.ClearTRLWEBuffer", q)
			l.cleared("poly.Evaluator.ClearTRLWEBuffer", q2)
		}
	}
	l.note()
}

func (l *L) cleared(what string, v lin.Value) {
	s := coefs(v)
	bad := ""
	for i := 0; i < s.Len(); i++ {
		switch u := lin.At(s, i).(type) {
		case *lin.F:
			if !u.IsNum() || u.Const() != 0 {
				bad = fmt.Sprintf("element %d is not cleared", i)
			}
		case int64:
			if u != 0 {
				bad = fmt.Sprintf("element %d is not cleared", i)
			}
		default:
			bad = fmt.Sprintf("element %d is not cleared", i)
		}
	}
	l.r.ok("cleared", what, bad == "", "degree %d: %s", l.n, bad)
}

func checkPolyMul(w *eng.World, r *Rep, n int) {
	l := newL(w, r, n)
	if !l.evaluator() {
		return
	}
	l.history()
	type op struct {
		name  string
		sign  int
		acc   bool
		alloc bool
	}
	for _, o := range []op{{"MulPoly", 1, false, true}, {"MulPolyAssign", 1, false, false}, {"MulAddPolyAssign", 1, true, false}, {"MulSubPolyAssign", -1, true, false}} {
		f := l.fn("Evaluator", o.name)
		if f == nil {
			continue
		}
		shs := []string{"", "a=b"}
		if !o.alloc {
			shs = append(shs, "out=a", "out=b")
		}
		for _, sh := range shs {
			what := strings.TrimSpace("poly.Evaluator." + o.name + " " + sh)
			a, as := l.poly()
			b, bs := l.poly()
			out, os := l.poly()
			switch sh {
			case "a=b":
				b, bs = a, as
			case "out=a":
				out, os = a, as
			case "out=b":
				out, os = b, bs
			}
			var res lin.Value
			if o.alloc {
				v, ok := l.run(what, f, l.ev, a, b)
				if !ok {
					continue
				}
				res = v
			} else {
				if _, ok := l.run(what, f, l.ev, a, b, out); !ok {
					continue
				}
				res = out
			}
			bad := ""
			s := coefs(res)
			for k := 0; k < n && bad == ""; k++ {
				want := map[[2]int32]float64{}
				for i := 0; i < n; i++ {
					j := k - i
					sg := float64(o.sign)
					if j < 0 {
						j += n
						sg = -sg
					}
					want[mulSym(as[i], bs[j])] += sg
				}
				rest, form, ok := l.x.Rounded(lin.At(s, k))
				if !ok || form == nil {
					bad = fmt.Sprintf("coefficient %d is not the nearest integer to a form of the operands modulo 2^32", k)
					break
				}
				if !o.acc && (rest.C() != 0 || len(rest.Lin()) != 0) || o.acc && (rest.C() != 0 || len(rest.Lin()) != 1 || rest.Lin()[os[k]] != 1) {
					bad = fmt.Sprintf("coefficient %d keeps or drops part of the previous contents", k)
					break
				}
				if !sameExpr(expr(form), want, 1e-9) {
					bad = fmt.Sprintf("coefficient %d is not that of the negacyclic product", k)
				}
			}
			l.r.ok("negacyclic-product", what, bad == "", "degree %d: %s", n, bad)
			if sh == "" {
				l.unchangedU(what, a, as)
				l.unchangedU(what, b, bs)
			}
		}
	}
	l.note()
}

var _ = os.Getenv
