package main

import (
	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C22",
		Rule:        "For every security level, the closed-form value of every cell of the result of each linear operation on ciphertexts (abstract interpretation over arbitrary operands, also with the output or operands shared) equals the reference combination modulo 2^32.",
		Assumptions: []string{"operands have the length of the current level"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			return levelUnits(w, "tlwe.linear", checkLinear)
		},
	})
}

func checkLinear(c *Ctx, r *Rep) {
	a, b := c.sym("a", "tlwe", "TLWELv0"), c.sym("b", "tlwe", "TLWELv0")
	out := c.sym("out", "tlwe", "TLWELv0")
	k := eng.Sym("k", eng.TU32)
	t := c.ptr("tlwe", "TLWELv0")
	u := func(v int64) *eng.Term { return eng.Int(eng.TU32, v) }
	lin := func(a, b eng.Value, ca, cb *eng.Term) func() eng.Value {
		return func() eng.Value { return c.ref("Lin", eng.I(c.N0), a, b, ca, cb, u(0)) }
	}
	ops := []struct {
		name   string
		extra  []eng.Value
		ca, cb *eng.Term
	}{
		{"Add", nil, u(1), u(1)},
		{"Sub", nil, u(1), u(-1)},
		{"AddMul", []eng.Value{k}, u(1), k},
		{"SubMul", []eng.Value{k}, u(1), eng.Neg(k)},
	}
	m := func(n string) string { return "tlwe.TLWELv0." + n }
	for _, o := range ops {
		o := o
		for _, al := range [][2]eng.Value{{a, b}, {a, a}} {
			al := al
			c.agree(r, "linear-combination", m(o.name), t,
				func() eng.Value {
					return c.method("tlwe", "TLWELv0", o.name, append([]eng.Value{al[0], al[1]}, o.extra...)...)
				},
				lin(al[0], al[1], o.ca, o.cb))
		}
	}
	c.agree(r, "linear-combination", m("Neg"), t,
		func() eng.Value { return c.method("tlwe", "TLWELv0", "Neg", a) }, lin(a, a, u(-1), u(0)))
	for _, al := range [][2]eng.Value{{a, b}, {a, a}} {
		al := al
		c.agree(r, "element-wise-product", m("Mul"), t,
			func() eng.Value { return c.method("tlwe", "TLWELv0", "Mul", al[0], al[1]) },
			func() eng.Value { return c.ref("MulElem", eng.I(c.N0), al[0], al[1]) })
	}
	for _, al := range [][3]eng.Value{{a, b, out}, {a, b, a}, {a, b, b}, {a, a, a}} {
		al := al
		c.agree(r, "linear-combination", m("AddAssign"), t,
			func() eng.Value { c.method("tlwe", "TLWELv0", "AddAssign", al[0], al[1], al[2]); return al[2] },
			lin(al[0], al[1], u(1), u(1)))
	}
	c.agree(r, "body-access", m("SetB"), t,
		func() eng.Value { c.method("tlwe", "TLWELv0", "SetB", a, k); return a },
		func() eng.Value { return c.ref("WithB0", eng.I(c.N0), a, k) })
	c.agree(r, "body-access", "tlwe.TLWELv1.SetB", c.ptr("tlwe", "TLWELv1"),
		func() eng.Value {
			p := c.sym("a1", "tlwe", "TLWELv1")
			c.method("tlwe", "TLWELv1", "SetB", p, k)
			return p
		},
		func() eng.Value { p := c.sym("a1", "tlwe", "TLWELv1"); return c.ref("WithB1", eng.I(c.N1), p, k) })
	c.agree(r, "body-access", m("B"), c.typ("params", "Torus"),
		func() eng.Value { return c.method("tlwe", "TLWELv0", "B", a) },
		func() eng.Value { return c.ref("Body0", eng.I(c.N0), a) })
	c.agree(r, "zero-ciphertext", "tlwe.NewTLWELv0", t,
		func() eng.Value { return c.call("tlwe", "NewTLWELv0") },
		func() eng.Value { return c.ref("Lin", eng.I(c.N0), a, b, u(0), u(0), u(0)) })
}
