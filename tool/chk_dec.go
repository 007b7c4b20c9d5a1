package main

import (
	"fmt"
	"go/types"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C09",
		Rule:        "For every security level, every decryption routine (arbitrary ciphertext and key) returns the sign of body minus mask times key; for every message modulus and message, decryption and decoding of every phase within half a slot of the message's code (as one symbolic interval) returns that message; the real-to-torus conversions equal their definition.",
		Assumptions: []string{"ciphertexts and keys have the sizes of the current level", "floating-point arithmetic on codes read as exact (a slack of the modulus in units of 2^-32 at the slot edges)"},
		Min:         1000,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "decrypt.bool", checkDecBool)
			us = append(us, levelUnits(w, "decrypt.message", checkDecMessage)...)
			return append(us, levelUnits(w, "encoder", checkEncoder)[:1]...)
		},
	})
}

func checkDecBool(c *Ctx, r *Rep) {
	fourierModels(c.X)
	tb := types.Typ[types.Bool]
	for _, lv := range []struct {
		t string
		n int64
	}{{"TLWELv0", c.N0}, {"TLWELv1", c.N1}} {
		lv := lv
		key := c.X.NewSymSlice("key", c.torus(), eng.I(lv.n))
		ct := c.sym("ct", "tlwe", lv.t)
		c.agree(r, "sign-of-phase", "tlwe."+lv.t+".DecryptBool", tb,
			func() eng.Value { return c.method("tlwe", lv.t, "DecryptBool", ct, key) },
			func() eng.Value { return c.ref("Sign", eng.I(lv.n), c.field(ct, "P"), key) })
	}
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N1))
	pe := c.call("poly", "NewEvaluator", eng.I(c.N))
	c.X.Havoc(c.St, pe)
	ct := c.sym("rct", "trlwe", "TRLWELv1")
	c.agree(r, "sign-of-phase", "trlwe.TRLWELv1.DecryptBool", types.NewSlice(tb),
		func() eng.Value { return c.method("trlwe", "TRLWELv1", "DecryptBool", ct, key, pe) },
		func() eng.Value { return c.ref("RingSigns", pe, eng.I(c.N), ct, key) })
	d := fsym("d")
	tor := c.torus()
	c.agree(r, "conversion", "utils.F64ToTorus", tor,
		func() eng.Value { return c.call("utils", "F64ToTorus", d) },
		func() eng.Value { return c.ref("Tor", d) })
	t := eng.Sym("t", eng.TU32)
	c.agree(r, "conversion", "utils.TorusToF64", types.Typ[types.Float64],
		func() eng.Value { return c.call("utils", "TorusToF64", t) },
		func() eng.Value { return c.ref("Real", t) })
	n := eng.Sym("len", eng.TI64)
	ds := c.X.NewSymSlice("ds", types.Typ[types.Float64], n)
	c.agree(r, "conversion", "utils.F64ToTorusVec", types.NewSlice(tor),
		func() eng.Value { return c.call("utils", "F64ToTorusVec", ds) },
		func() eng.Value { return c.ref("Tors", ds) }, eng.Not(eng.Lt(n, eng.I(0))))
}

// slot lists the values within half a slot of the code of message t, as symbolic intervals.
func slot(t, m int64) []*eng.Term {
	const q = int64(1) << 32
	half := q/(4*m) - m - 2 // slack for truncated codes
	code := t * (q / 2) / m
	if lo := code - half; lo < 0 {
		return []*eng.Term{eng.NewVar("v", 0, code+half+1), eng.NewVar("v", q+lo, q)}
	}
	return []*eng.Term{eng.NewVar("v", code-half, code+half+1)}
}

func checkDecMessage(c *Ctx, r *Rep) {
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N0))
	ct := c.sym("ct", "tlwe", "TLWELv0")
	P := c.field(ct, "P")
	name := "tlwe.TLWELv0.DecryptLWEMessage"
	s, _ := c.ref("LWEBody", eng.I(c.N0), P, key, eng.Float(0), eng.Float(0), eng.Bool(false)).(*eng.Term)
	if s == nil {
		r.undecided("analysis", name, "inner product not resolved")
		return
	}
	base := c.St
	for _, m := range moduli {
		for t := int64(0); t < m; t++ {
			for _, v := range slot(t, m) {
				c.St = base.Fork()
				c.X.Store(c.St, eng.Elem(P, eng.I(c.N0)), c.torus(), eng.Add(s, eng.Conv(v, eng.TU32)))
				got, _ := c.mainCall(r, name, func() eng.Value { return c.method("tlwe", "TLWELv0", "DecryptLWEMessage", ct, eng.I(m), key) }).(*eng.Term)
				r.ok("decrypts-message", name, got != nil && eng.Equal(got, eng.I(t)), "modulus %d, message %d, phase %s: %v", m, t, v, got)
			}
		}
	}
	c.St = base
}

func checkEncoder(c *Ctx, r *Rep) {
	tor := c.torus()
	base := c.St
	for _, m := range moduli {
		c.St = base.Fork()
		enc := c.call("lut", "NewEncoder", eng.I(m))
		for _, msg := range messages(m) {
			c.agree(r, "encode", "lut.Encoder.Encode", tor,
				func() eng.Value { return c.method("lut", "Encoder", "Encode", enc, msg) },
				func() eng.Value { return c.ref("Tor", c.ref("Encode", msg, eng.I(m))) })
			sc := fsym("scale")
			want := func() eng.Value {
				x := eng.Mul(c.ref("Encode", msg, eng.I(m)).(*eng.Term), eng.Float(float64(2*m)))
				return c.ref("Tor", eng.Mul(x, sc))
			}
			c.agree(r, "encode", "lut.Encoder.EncodeWithCustomScale", tor,
				func() eng.Value { return c.method("lut", "Encoder", "EncodeWithCustomScale", enc, msg, sc) }, want)
			c.agree(r, "encode", "lut.Encoder.Encode (custom scale)", tor,
				func() eng.Value {
					e := c.call("lut", "NewEncoderWithScale", eng.I(m), sc)
					return c.method("lut", "Encoder", "Encode", e, msg)
				}, want)
		}
		for t := int64(0); t < m; t++ {
			for _, v := range slot(t, m) {
				u := eng.Conv(v, eng.TU32)
				got, _ := c.mainCall(r, "lut.Encoder.Decode", func() eng.Value { return c.method("lut", "Encoder", "Decode", enc, u) }).(*eng.Term)
				r.ok("decodes-message", "lut.Encoder.Decode", got != nil && eng.Equal(got, eng.I(t)), "modulus %d, message %d, value %s: %v", m, t, v, got)
				gb, _ := c.mainCall(r, "lut.Encoder.DecodeBool", func() eng.Value { return c.method("lut", "Encoder", "DecodeBool", enc, u) }).(*eng.Term)
				r.ok("decodes-message", "lut.Encoder.DecodeBool", gb != nil && eng.Equal(gb, eng.Bool(t != 0)), "modulus %d, message %d, value %s: %v", m, t, v, fmt.Sprint(gb))
			}
		}
	}
	c.St = base
}
