package main

import "vtool/eng"

// fourierModels replaces the negacyclic FFT and the Fourier-domain arithmetic by uninterpreted
// array functions: fft(arr, j), ifft(arr, j), cmul(arr, arr, j).
func fourierModels(x *eng.Interp) {
	fp := func(v eng.Value) eng.Value { return eng.StructField(v, 0) }
	get := func(st *eng.State, s eng.Value) *eng.Term {
		t, ok := x.ArrayTerm(st, s, nil)
		if !ok {
			x.Problem("Fourier operation on an unresolved polynomial: %s", eng.ShowVal(s))
			return eng.Opaque("array", eng.TRef)
		}
		return t
	}
	write := func(st *eng.State, s eng.Value, f func(j *eng.Term) *eng.Term) {
		n := eng.SliceLen(s)
		if n == nil || !x.BulkWrite(st, s, n, f) {
			x.Problem("Fourier operation writes to an unresolved polynomial: %s", eng.ShowVal(s))
		}
	}
	unit := eng.Unit()
	name := func(m string) string { return "(*poly.Evaluator)." + m }
	toF := func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		in := get(st, fp(a[1]))
		write(st, fp(a[2]), func(j *eng.Term) *eng.Term { return eng.Fn("fft", eng.TF64, in, j) })
		return unit, true
	}
	x.Models[name("ToFourierPolyAssign")] = toF
	toP := func(unsafe bool, mode int) eng.Model {
		return func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
			in := get(st, fp(a[1]))
			if unsafe {
				write(st, fp(a[1]), func(j *eng.Term) *eng.Term { return eng.Fn("spent", eng.TF64, in, j) })
			}
			out := fp(a[2])
			old := func(j *eng.Term) *eng.Term { return x.ReadElem(st, out, j) }
			write(st, out, func(j *eng.Term) *eng.Term {
				r := eng.Fn("ifft", eng.TU32, in, j)
				switch mode {
				case 1:
					return eng.Add(old(j), r)
				case 2:
					return eng.Sub(old(j), r)
				}
				return r
			})
			return unit, true
		}
	}
	x.Models[name("ToPolyAssign")] = toP(false, 0)
	x.Models[name("ToPolyAssignUnsafe")] = toP(true, 0)
	x.Models[name("ToPolyAddAssignUnsafe")] = toP(true, 1)
	x.Models[name("ToPolySubAssignUnsafe")] = toP(true, 2)
	mul := func(mode int) eng.Model {
		return func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
			p, q := get(st, fp(a[1])), get(st, fp(a[2]))
			out := fp(a[3])
			old := func(j *eng.Term) *eng.Term { return x.ReadElem(st, out, j) }
			write(st, out, func(j *eng.Term) *eng.Term {
				r := eng.Fn("cmul", eng.TF64, p, q, j)
				switch mode {
				case 1:
					return eng.Add(old(j), r)
				case 2:
					return eng.Sub(old(j), r)
				}
				return r
			})
			return unit, true
		}
	}
	x.Models[name("MulFourierPolyAssign")] = mul(0)
	x.Models[name("MulAddFourierPolyAssign")] = mul(1)
	x.Models[name("MulSubFourierPolyAssign")] = mul(2)
}

// pbsModels treats blind rotation and key switching as uninterpreted functions of the whole input
// ciphertext: what they compute is decided by the checks of those operations (C12, C15).
func pbsModels(c *Ctx) {
	x := c.X
	arr := func(st *eng.State, p eng.Value, field string) *eng.Term {
		s := x.LoadField(st, p, field)
		t, ok := x.ArrayTerm(st, s, nil)
		if !ok {
			x.Problem("bootstrapping operation on an unresolved ciphertext: %s", eng.ShowVal(s))
			return eng.Opaque("array", eng.TRef)
		}
		return t
	}
	key := keyTerm
	rot := func(st *eng.State, src, tv, bsk, off eng.Value, out eng.Value) {
		in, ta, tb := arr(st, src, "P"), arr(st, tv, "A"), arr(st, tv, "B")
		o, ok := off.(*eng.Term)
		if !ok {
			x.Problem("decomposition offset not resolved: %s", eng.ShowVal(off))
			return
		}
		for _, f := range []string{"A", "B"} {
			f := f
			s := x.LoadField(st, out, f)
			n := eng.SliceLen(s)
			if n == nil || !x.BulkWrite(st, s, n, func(j *eng.Term) *eng.Term {
				return eng.Fn("br."+f, eng.TU32, in, ta, tb, key(bsk), o, j)
			}) {
				x.Problem("blind rotation writes to an unresolved ciphertext: %s", eng.ShowVal(s))
			}
		}
	}
	x.Models["(*evaluator.Evaluator).BlindRotateAssign"] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		if len(a) != 6 {
			return nil, false
		}
		rot(st, a[1], a[2], a[3], a[4], a[5])
		return eng.Unit(), true
	}
	x.Models["trgsw.BlindRotate"] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		if len(a) != 5 {
			return nil, false
		}
		t := c.typ("trlwe", "TRLWELv1")
		tor := c.typ("params", "Torus")
		out := x.NewObjAt(ctx, "trlwe", t, nil)
		x.StoreField(st, out, "A", x.NewObjAt(ctx, "A", tor, eng.I(c.N)))
		x.StoreField(st, out, "B", x.NewObjAt(ctx, "B", tor, eng.I(c.N)))
		rot(st, a[0], a[1], a[2], a[3], out)
		return out, true
	}
	ks := func(st *eng.State, src, ksk, out eng.Value) {
		in := arr(st, src, "P")
		s := x.LoadField(st, out, "P")
		n := eng.SliceLen(s)
		if n == nil || !x.BulkWrite(st, s, n, func(j *eng.Term) *eng.Term { return eng.Fn("ks", eng.TU32, in, key(ksk), j) }) {
			x.Problem("key switching writes to an unresolved ciphertext: %s", eng.ShowVal(s))
		}
	}
	x.Models["trgsw.IdentityKeySwitchingAssign"] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		if len(a) != 3 {
			return nil, false
		}
		ks(st, a[0], a[1], a[2])
		return eng.Unit(), true
	}
	x.Models["trgsw.IdentityKeySwitching"] = func(x *eng.Interp, st *eng.State, a []eng.Value, ctx string) (eng.Value, bool) {
		if len(a) != 2 {
			return nil, false
		}
		out := x.NewObjAt(ctx, "tlwe", c.typ("tlwe", "TLWELv0"), nil)
		x.StoreField(st, out, "P", x.NewObjAt(ctx, "P", c.typ("params", "Torus"), eng.I(c.N0+1)))
		ks(st, a[0], a[1], out)
		return out, true
	}
}

// keyTerm identifies a key by the memory it occupies.
func keyTerm(v eng.Value) *eng.Term { return eng.Str(eng.ShowVal(v)) }
