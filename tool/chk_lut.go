package main

import (
	"go/types"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C16",
		Rule:        "For every security level, message modulus and message t, every look-up-table entry reached by a phase within half a slot of t (negacyclic position as one symbolic interval, arbitrary function, arbitrary previous table contents) equals the code of f(t); the mask part is zero; generating a table leaves the generator unchanged; copies equal their source.",
		Assumptions: []string{"message moduli 2-256 with at least two table entries per message", "for moduli that do not divide the table size, one position of slack at slot edges"},
		Min:         1000,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "lut.generate", checkLUT)
			return append(us, levelUnits(w, "lut.copy", checkLUTCopy)...)
		},
	})
}

// lutSlots lists the table positions (with the sign of the wrap-around) for message t.
func lutSlots(n, m, t int64) (pos []*eng.Term, neg []bool) {
	lo, hi := (t*2-1)*n, (t*2+1)*n // in units of 1/(2m)
	var a, b int64                 // positions a <= p < b
	if n%(2*m) == 0 {
		a, b = lo/(2*m), hi/(2*m)
	} else {
		// strictly inside, one position of slack
		a, b = (lo+2*m*n)/(2*m)-n+2, (hi)/(2*m)-1
	}
	add := func(a, b int64, ng bool) {
		if a < b {
			if b-a <= 16 {
				for ; a < b; a++ {
					pos = append(pos, eng.I(a))
					neg = append(neg, ng)
				}
				return
			}
			pos = append(pos, eng.NewVar("p", a, b))
			neg = append(neg, ng)
		}
	}
	add(max64(a, 0), b, false)
	if a < 0 {
		add(a+n, min64(b, 0)+n, true)
	}
	return
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func checkLUT(c *Ctx, r *Rep) {
	old := eng.UnrollMax
	eng.UnrollMax = 16
	defer func() { eng.UnrollMax = old }()
	base := c.St
	ti := types.Typ[types.Int]
	sig := func(res types.Type) *types.Signature {
		return types.NewSignature(nil, types.NewTuple(types.NewVar(0, nil, "x", ti)), types.NewTuple(types.NewVar(0, nil, "", res)), false)
	}
	fi := c.X.SymVal("f", sig(ti))
	ft := c.X.SymVal("ft", sig(c.torus()))
	sc := fsym("scale")
	for _, m := range []int64{2, 3, 4, 5, 7, 8, 10, 16, 32, 64, 128, 256} {
		if c.N/m < 4 {
			continue
		}
		for _, how := range []string{"GenLookUpTable", "GenLookUpTableAssign", "GenLookUpTableFull", "GenLookUpTableFullAssign", "GenLookUpTableCustom", "custom scale"} {
			c.St = base.Fork()
			name := "lut.Generator." + how
			var g eng.Value
			out := c.sym("out", "lut", "LookUpTable")
			want := func(t int64) *eng.Term {
				y := c.X.CallSym(fi, eng.TI64, eng.I(t))
				e := c.call("lut", "NewEncoder", eng.I(m))
				v, _ := c.method("lut", "Encoder", "Encode", e, y).(*eng.Term)
				return v
			}
			wantScale := func(t int64) *eng.Term {
				y := c.X.CallSym(fi, eng.TI64, eng.I(t))
				e := c.call("lut", "NewEncoderWithScale", eng.I(m), sc)
				v, _ := c.method("lut", "Encoder", "Encode", e, y).(*eng.Term)
				return v
			}
			if how == "GenLookUpTableCustom" {
				g = c.call("lut", "NewGenerator", eng.I(6))
			} else if how == "custom scale" {
				g = c.call("lut", "NewGeneratorWithScale", eng.I(m), sc)
			} else {
				g = c.call("lut", "NewGenerator", eng.I(m))
			}
			encBefore := c.field(g, "Encoder")
			v := c.mainCall(r, name, func() eng.Value {
				switch how {
				case "GenLookUpTable":
					return c.method("lut", "Generator", how, g, fi)
				case "GenLookUpTableAssign":
					c.method("lut", "Generator", how, g, fi, out)
				case "GenLookUpTableFull":
					return c.method("lut", "Generator", how, g, ft)
				case "GenLookUpTableFullAssign":
					c.method("lut", "Generator", how, g, ft, out)
				case "GenLookUpTableCustom":
					return c.method("lut", "Generator", how, g, fi, eng.I(m), sc)
				case "custom scale":
					return c.method("lut", "Generator", "GenLookUpTable", g, fi)
				}
				return out
			})
			switch how {
			case "GenLookUpTableFull", "GenLookUpTableFullAssign":
				want = func(t int64) *eng.Term { return c.X.CallSym(ft, eng.TU32, eng.I(t)) }
			case "GenLookUpTableCustom":
				want = wantScale
				r.ok("generator-unchanged", name, eng.ShowVal(c.field(g, "Encoder")) == eng.ShowVal(encBefore), "the generator's encoder is %s, was %s", eng.ShowVal(c.field(g, "Encoder")), eng.ShowVal(encBefore))
			case "custom scale":
				want = wantScale
			}
			p := c.field(v, "Poly")
			A, B := c.field(p, "A"), c.field(p, "B")
			for _, s := range []eng.Value{A, B} {
				l := eng.SliceLen(s)
				r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(c.N)), "table has length %v, expected %d", l, c.N)
			}
			z := eng.Simplify(c.X.ReadElem(c.St, A, eng.NewVar("x", 0, c.N)))
			r.ok("mask-zero", name, z.IsConst() && z.IsZero(), "modulus %d: mask part is %s", m, short(z.String(), 200))
			for t := int64(0); t < m; t++ {
				pos, neg := lutSlots(c.N, m, t)
				w := want(t)
				for i, q := range pos {
					got := eng.Simplify(c.X.ReadElem(c.St, B, q))
					if neg[i] {
						got = eng.Neg(got)
					}
					if !r.ok("entry", name, w != nil && eng.Equal(got, w), "modulus %d, message %d: entry at positions %s is %s, expected %v", m, t, rangeStr(q), short(got.String(), 300), w) {
						break
					}
				}
			}
		}
	}
	c.St = base
}

func rangeStr(t *eng.Term) string {
	l, h := eng.Bounds(t)
	if l == h {
		return t.String()
	}
	return eng.I(l).String() + ".." + eng.I(h).String()
}

func checkLUTCopy(c *Ctx, r *Rep) {
	g := c.call("lut", "NewGenerator", eng.I(4))
	q := int64(1) << 32 / c.N
	for k := int64(0); k <= c.N; k++ {
		lo, hi := k*q-q/2+1, k*q+q/2
		if lo < 0 {
			lo = 0
		}
		if hi > 1<<32 {
			hi = 1 << 32
		}
		got, _ := c.mainCall(r, "lut.Generator.ModSwitch", func() eng.Value {
			return c.method("lut", "Generator", "ModSwitch", g, eng.Conv(eng.NewVar("x", lo, hi), eng.TU32))
		}).(*eng.Term)
		r.ok("modulus-switch", "lut.Generator.ModSwitch", got != nil && eng.Equal(got, eng.I(k%c.N)), "values %d..%d: %v, expected %d", lo, hi, got, k%c.N)
	}
	src, dst := c.sym("src", "lut", "LookUpTable"), c.sym("dst", "lut", "LookUpTable")
	t := c.ptr("lut", "LookUpTable")
	c.agree(r, "copy", "lut.LookUpTable.Copy", t,
		func() eng.Value { return c.method("lut", "LookUpTable", "Copy", src) },
		func() eng.Value { return src })
	c.agree(r, "copy", "lut.LookUpTable.CopyFrom", t,
		func() eng.Value { c.method("lut", "LookUpTable", "CopyFrom", dst, src); return dst },
		func() eng.Value { return src })
	zero := func() eng.Value { return c.ref("ZeroTable", eng.I(c.N)) }
	c.agree(r, "clear", "lut.LookUpTable.Clear", t,
		func() eng.Value { c.method("lut", "LookUpTable", "Clear", dst); return dst }, zero)
	c.agree(r, "clear", "lut.NewLookUpTable", t,
		func() eng.Value { return c.call("lut", "NewLookUpTable") }, zero)
}
