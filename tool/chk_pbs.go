package main

import (
	"go/types"

	"vtool/eng"
)

func u32(v int64) *eng.Term { return eng.Int(eng.TU32, v) }

func (c *Ctx) torus() types.Type { return c.typ("params", "Torus") }

func (c *Ctx) ksk(name string) eng.Value {
	return c.X.NewSymSlice(name, c.ptr("tlwe", "TLWELv0"), eng.I(c.N*c.IKST<<uint(c.BASEBIT)))
}

func (c *Ctx) bsk(name string) eng.Value {
	return c.X.NewSymSlice(name, c.ptr("trgsw", "TRGSWLv1FFT"), eng.I(c.N0))
}

func (c *Ctx) field(p eng.Value, f string) eng.Value { return c.X.LoadField(c.St, p, f) }

func init() {
	register(&Prop{
		ID:          "C12",
		Rule:        "For every security level, every cell of the result of both key-switching entry points (closed-form sum over coefficients and digits, arbitrary ciphertext, key and previous output contents) equals the reference sum of selected key rows.",
		Assumptions: []string{"ciphertexts and keys have the sizes of the current level", "a row for digit zero encrypts zero trivially (C11), so subtracting or skipping it is the same"},
		Min:         22,
		Units: func(w *eng.World) []Unit {
			return levelUnits(w, "trgsw.keyswitch", checkKeySwitch)
		},
	})
	register(&Prop{
		ID:          "C13",
		Rule:        "For every security level, every digit both decompositions write (closed form over arbitrary coefficients and offset) equals the reference digit; the offset of a cloud key equals the reference offset.",
		Assumptions: []string{"inputs have the sizes of the current level"},
		Min:         33,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "decomposition", checkDecomp, "trgsw")
			return append(us, levelUnits(w, "external-product", func(c *Ctx, r *Rep) { checkPBS(c, r, "external") }, "trgsw")...)
		},
	})
	register(&Prop{
		ID:          "C14",
		Rule:        "For every security level and every class of rotation amounts (and every extraction index), each cell of the rotated polynomial or extracted ciphertext (closed form over arbitrary coefficients) equals the reference cell.",
		Assumptions: []string{"negation is accepted as exact or as one's complement (one unit in the last place), uniformly within an operation"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "rotation", checkRotation)
			return append(us, levelUnits(w, "extraction", checkExtraction)...)
		},
	})
	register(&Prop{
		ID:          "C15",
		Rule:        "For every security level, external product, controlled selection, blind rotation and bootstrapping of the evaluator and of the package functions (arbitrary inputs, keys and evaluator history; the Fourier transform and the pointwise product uninterpreted) leave exactly the reference result.",
		Assumptions: []string{"the Fourier transform and Fourier-domain product are functions of their input (C23 decides the lane arithmetic)", "inputs have the sizes of the current level"},
		Min:         66,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, k := range []string{"external", "cmux", "blindrotate", "bootstrap"} {
				k := k
				us = append(us, levelUnits(w, "pbs."+k, func(c *Ctx, r *Rep) { checkPBS(c, r, k) }, "trgsw", "gates")...)
			}
			return us
		},
	})
}

func checkKeySwitch(c *Ctx, r *Rep) {
	src := c.sym("src", "tlwe", "TLWELv1")
	out := c.sym("out", "tlwe", "TLWELv0")
	ksk := c.ksk("ksk")
	t := c.ptr("tlwe", "TLWELv0")
	ref := func(skip bool) func() eng.Value {
		return func() eng.Value {
			p := c.field(src, "P")
			b := c.X.ReadElem(c.St, p, eng.I(c.N1))
			return c.ref("KeySwitch", eng.I(c.N0), eng.I(c.N), eng.I(c.BASEBIT), eng.I(c.IKST), eng.Bool(skip), p, b, ksk)
		}
	}
	refs := []func() eng.Value{ref(true), ref(false)}
	c.agreeAny(r, "key-switch", "trgsw.IdentityKeySwitching", t, func() eng.Value { return c.call("trgsw", "IdentityKeySwitching", src, ksk) }, refs)
	c.agreeAny(r, "key-switch", "trgsw.IdentityKeySwitchingAssign", t, func() eng.Value {
		c.call("trgsw", "IdentityKeySwitchingAssign", src, ksk, out)
		return out
	}, refs)
}

func checkDecomp(c *Ctx, r *Rep) {
	off := eng.Sym("offset", eng.TU32)
	ts := types.NewSlice(c.typ("poly", "Poly"))
	p := c.X.NewSymSlice("p", c.torus(), eng.I(c.N))
	outs := c.X.NewSymSlice("decomposed", c.typ("poly", "Poly"), eng.I(c.L))
	c.agree(r, "digits", "poly.DecomposePolyAssign", ts,
		func() eng.Value {
			c.call("poly", "DecomposePolyAssign", p, eng.I(c.BGBIT), eng.I(c.L), off, outs)
			return outs
		},
		func() eng.Value { return c.ref("Digits", eng.I(c.N), eng.I(c.L), eng.I(c.BGBIT), off, p) })
	c.agree(r, "offset", "cloudkey.NewCloudKeyNoKSK", c.torus(),
		func() eng.Value { return c.field(c.call("cloudkey", "NewCloudKeyNoKSK"), "DecompositionOffset") },
		func() eng.Value { return c.ref("Offset", eng.I(c.L), eng.I(c.BGBIT)) })
}

func checkRotation(c *Ctx, r *Rep) {
	n := c.N
	ts := types.NewSlice(c.torus())
	a := c.X.NewSymSlice("a", c.torus(), eng.I(n))
	out := c.X.NewSymSlice("out", c.torus(), eng.I(n))
	ev := c.call("poly", "NewEvaluator", eng.I(n))
	classes := []*eng.Term{eng.I(0), eng.NewVar("k", 1, n), eng.I(n), eng.NewVar("k", n+1, 2*n), eng.I(2 * n),
		eng.NewVar("k", 2*n+1, 3*n), eng.I(3 * n), eng.NewVar("k", 3*n+1, 4*n),
		eng.NewVar("k", -n, 0), eng.I(-n), eng.NewVar("k", -2*n+1, -n), eng.I(-2 * n)}
	for _, k := range classes {
		k := k
		refs := []func() eng.Value{
			func() eng.Value { return c.ref("Rotate", eng.I(n), a, k, u32(-1)) },
			func() eng.Value { return c.ref("Rotate", eng.I(n), a, k, u32(0)) },
		}
		c.agreeAny(r, "rotation", "poly.PolyMulWithXKInPlace", ts, func() eng.Value {
			c.call("poly", "PolyMulWithXKInPlace", a, k, out)
			return out
		}, refs)
		c.agreeAny(r, "rotation", "poly.Evaluator.PolyMulWithXKDirect", ts, func() eng.Value {
			c.method("poly", "Evaluator", "PolyMulWithXKDirect", ev, a, k, out)
			return out
		}, refs)
		c.agreeAny(r, "rotation", "poly.Evaluator.PolyMulWithXK", ts, func() eng.Value {
			return c.method("poly", "Evaluator", "PolyMulWithXK", ev, a, k)
		}, refs)
	}
}

func checkExtraction(c *Ctx, r *Rep) {
	n := c.N
	ct := c.sym("ct", "trlwe", "TRLWELv1")
	out := c.sym("out", "tlwe", "TLWELv1")
	ts := types.NewSlice(c.torus())
	for _, k := range []*eng.Term{eng.I(0), eng.NewVar("k", 0, n), eng.I(n - 1)} {
		k := k
		ref := func(bias int64) func() eng.Value {
			return func() eng.Value { return c.ref("Extract", eng.I(n), c.field(ct, "A"), c.field(ct, "B"), k, u32(bias)) }
		}
		refs := []func() eng.Value{ref(-1), ref(0)}
		c.agreeAny(r, "extraction", "trlwe.SampleExtractIndex", ts, func() eng.Value {
			return c.field(c.call("trlwe", "SampleExtractIndex", ct, k), "P")
		}, refs)
		c.agreeAny(r, "extraction", "trlwe.SampleExtractIndexAssign", ts, func() eng.Value {
			c.call("trlwe", "SampleExtractIndexAssign", ct, k, out)
			return c.field(out, "P")
		}, refs)
	}
	// extraction to the base dimension, for ring ciphertexts of that degree only
	if c.W.Func("trlwe", "SampleExtractIndex2") == nil {
		return
	}
	small := c.sym("small", "trlwe", "TRLWELv1")
	c.X.StoreField(c.St, small, "A", c.X.NewSymSlice("small.A", c.torus(), eng.I(c.N0)))
	c.X.StoreField(c.St, small, "B", c.X.NewSymSlice("small.B", c.torus(), eng.I(c.N0)))
	for _, k := range []*eng.Term{eng.I(0), eng.NewVar("k", 0, c.N0), eng.I(c.N0 - 1)} {
		k := k
		ref := func(bias int64) func() eng.Value {
			return func() eng.Value {
				return c.ref("Extract", eng.I(c.N0), c.field(small, "A"), c.field(small, "B"), k, u32(bias))
			}
		}
		c.agreeAny(r, "extraction", "trlwe.SampleExtractIndex2", ts, func() eng.Value {
			return c.field(c.call("trlwe", "SampleExtractIndex2", small, k), "P")
		}, []func() eng.Value{ref(-1), ref(0)})
	}
}

// evaluators builds an evaluator and moves it into an arbitrary history: every scratch cell unknown.
func checkPBS(c *Ctx, r *Rep, what string) {
	fourierModels(c.X)
	n := eng.I(c.N)
	pe := c.call("poly", "NewEvaluator", n)
	ev := c.call("evaluator", "NewEvaluator", n)
	if c.copies {
		pe = c.method("poly", "Evaluator", "ShallowCopy", pe)
		ev = c.method("evaluator", "Evaluator", "ShallowCopy", ev)
	}
	// an arbitrary history: whatever numbers earlier operations left in the scratch memory
	r.ok("scratch-memory", "evaluator.NewEvaluator", c.X.Havoc(c.St, pe) > 0 && c.X.Havoc(c.St, ev) > 0, "no scratch memory found")
	off := eng.Sym("offset", eng.TU32)
	t := c.ptr("trlwe", "TRLWELv1")
	g := c.sym("g", "trgsw", "TRGSWLv1FFT")
	in0, in1, out := c.sym("in0", "trlwe", "TRLWELv1"), c.sym("in1", "trlwe", "TRLWELv1"), c.sym("out", "trlwe", "TRLWELv1")
	src := c.sym("src", "tlwe", "TLWELv0")
	bsk := c.bsk("bsk")
	l, bg := eng.I(c.L), eng.I(c.BGBIT)
	switch what {
	case "external":
		ref := func() eng.Value { return c.ref("External", pe, n, l, bg, g, in0, off) }
		c.agree(r, "external-product", "trgsw.ExternalProductWithFFT", t, func() eng.Value {
			return c.call("trgsw", "ExternalProductWithFFT", g, in0, off, pe)
		}, ref)
		c.agree(r, "external-product", "evaluator.Evaluator.ExternalProductAssign", t, func() eng.Value {
			c.method("evaluator", "Evaluator", "ExternalProductAssign", ev, g, in0, off, out)
			return out
		}, ref)
	case "cmux":
		ref := func() eng.Value { return c.ref("CMux", pe, n, l, bg, g, in0, in1, off) }
		c.agree(r, "cmux", "trgsw.CMUX", t, func() eng.Value {
			return c.call("trgsw", "CMUX", in0, in1, g, off, pe)
		}, ref)
		for _, o := range []eng.Value{out, in0} {
			o := o
			c.agree(r, "cmux", "evaluator.Evaluator.CMuxAssign", t, func() eng.Value {
				c.method("evaluator", "Evaluator", "CMuxAssign", ev, g, in0, in1, off, o)
				return o
			}, ref)
		}
	case "blindrotate":
		ref := func(bias int64) func() eng.Value {
			return func() eng.Value {
				return c.ref("BlindRotate", pe, eng.I(c.N0), n, eng.I(c.NBIT), l, bg, src, in0, bsk, off, u32(bias))
			}
		}
		refs := []func() eng.Value{ref(-1), ref(0)}
		c.agreeAny(r, "blind-rotation", "trgsw.BlindRotate", t, func() eng.Value {
			return c.call("trgsw", "BlindRotate", src, in0, bsk, off, pe)
		}, refs)
		c.agreeAny(r, "blind-rotation", "evaluator.Evaluator.BlindRotateAssign", t, func() eng.Value {
			c.method("evaluator", "Evaluator", "BlindRotateAssign", ev, src, in0, bsk, off, out)
			return out
		}, refs)
	case "bootstrap":
		pbsModels(c)
		ksk := c.ksk("ksk")
		t0 := c.ptr("tlwe", "TLWELv0")
		out0 := c.sym("out0", "tlwe", "TLWELv0")
		refs := func(src, tv eng.Value) []func() eng.Value {
			var fs []func() eng.Value
			for _, b := range []int64{-1, 0} {
				b := b
				fs = append(fs, func() eng.Value {
					return c.ref("Bootstrap", ev, eng.I(c.N0), n, src, tv, bsk, ksk, off, u32(b))
				})
			}
			return fs
		}
		lut := c.sym("lut", "lut", "LookUpTable")
		tv := c.field(lut, "Poly")
		for _, o := range []eng.Value{out0, src} {
			o := o
			c.agreeAny(r, "bootstrap", "evaluator.Evaluator.BootstrapAssign", t0, func() eng.Value {
				c.method("evaluator", "Evaluator", "BootstrapAssign", ev, src, in0, bsk, ksk, off, o)
				return o
			}, refs(src, in0))
			c.agreeAny(r, "bootstrap", "evaluator.Evaluator.BootstrapLUTAssign", t0, func() eng.Value {
				c.method("evaluator", "Evaluator", "BootstrapLUTAssign", ev, src, lut, bsk, ksk, off, o)
				return o
			}, refs(src, tv))
		}
		c.agreeAny(r, "bootstrap", "evaluator.Evaluator.Bootstrap", t0, func() eng.Value {
			return c.method("evaluator", "Evaluator", "Bootstrap", ev, src, in0, bsk, ksk, off)
		}, refs(src, in0))
		for _, f := range []string{"BootstrapLUT", "BootstrapLUTTemp"} {
			f := f
			c.agreeAny(r, "bootstrap", "evaluator.Evaluator."+f, t0, func() eng.Value {
				return c.method("evaluator", "Evaluator", f, ev, src, lut, bsk, ksk, off)
			}, refs(src, tv))
		}
		// with a function, the table is the one the generator makes (C16 decides its contents)
		old := eng.UnrollMax
		eng.UnrollMax = 16
		defer func() { eng.UnrollMax = old }()
		f := c.X.SymVal("f", intFunc())
		for _, m := range []int64{2, 4, 7} {
			m := eng.I(m)
			t := c.method("lut", "Generator", "GenLookUpTable", c.call("lut", "NewGenerator", m), f)
			if t == nil {
				break
			}
			tv := c.field(t, "Poly")
			c.agreeAny(r, "bootstrap", "evaluator.Evaluator.BootstrapFunc", t0, func() eng.Value {
				return c.method("evaluator", "Evaluator", "BootstrapFunc", ev, src, f, m, bsk, ksk, off)
			}, refs(src, tv))
			for _, o := range []eng.Value{out0, src} {
				o := o
				c.agreeAny(r, "bootstrap", "evaluator.Evaluator.BootstrapFuncAssign", t0, func() eng.Value {
					c.method("evaluator", "Evaluator", "BootstrapFuncAssign", ev, src, f, m, bsk, ksk, off, o)
					return o
				}, refs(src, tv))
			}
		}
	}
}
