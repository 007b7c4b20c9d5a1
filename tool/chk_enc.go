package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C08",
		Rule:        "For every security level and every encryption entry point, each mask cell of the result (closed form over arbitrary keys and messages) is one full 32-bit random draw whose site and indices are not shared with any other cell, the body contains exactly one Gaussian draw of its own, and the body equals mask times key plus message plus that draw times the requested deviation.",
		Assumptions: []string{"distinct draws of a generator are independent (the generator itself: C07)", "keys have the length of the current level"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			return append(levelUnits(w, "encrypt.tlwe", checkEncTLWE), levelUnits(w, "encrypt.ring", checkEncRing)...)
		},
	})
	register(&Prop{
		ID:          "C10",
		Rule:        "For every security level, every coefficient of a generated secret key is 0 or 1 decided by one fair random bit of its own; both parts have the dimension of the level and no draw is shared.",
		Assumptions: []string{"distinct draws of a generator are independent (the generator itself: C07)"},
		Min:         22,
		Units: func(w *eng.World) []Unit {
			return levelUnits(w, "secret-key", checkSecretKey)
		},
	})
	register(&Prop{
		ID:          "C11",
		Rule:        "For every security level, every element of a generated cloud key (closed form, arbitrary secret key) is the prescribed encryption: well-formed (fresh mask, one Gaussian of the level's deviation), of the prescribed multiple of the prescribed key bit, under the prescribed key, at the prescribed position; no random draw is shared between elements.",
		Assumptions: []string{"distinct draws of a generator are independent (the generator itself: C07)", "the Fourier transform is a function of its input"},
		Min:         1000,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "cloudkey.ksk", checkKSK)
			us = append(us, levelUnits(w, "cloudkey.bsk", checkBSK)...)
			return append(us, levelUnits(w, "cloudkey.rest", checkCloudRest)...)
		},
	})
}

func ratio(a, b int64) *big.Rat { return big.NewRat(a, b) }

func isRnd(t *eng.Term) bool {
	return t.Op() == eng.OFn && strings.HasPrefix(t.Name(), "rnd:")
}

func rndMethod(t *eng.Term) string {
	n := strings.TrimPrefix(t.Name(), "rnd:")
	if i := strings.Index(n, "@"); i >= 0 {
		n = n[:i]
	}
	return n
}

// maskDraw returns the draw behind a uniformly random 32-bit value.
func maskDraw(t *eng.Term) (*eng.Term, string) {
	as := eng.OuterAtoms(t, isRnd)
	if len(as) != 1 {
		return nil, fmt.Sprintf("is not one random draw: %s", short(t.String(), 200))
	}
	a := as[0]
	u := eng.TU32
	var forms []*eng.Term
	switch rndMethod(a) {
	case "Uint32()", "Uint64()", "Int63()", "Int64()", "Int()", "Int63n(4294967296)", "Int64n(4294967296)", "Intn(4294967296)":
		forms = append(forms, eng.Conv(a, u))
	}
	if rndMethod(a) == "Uint64()" {
		for s := int64(1); s <= 32; s++ {
			forms = append(forms, eng.Conv(eng.Shr(a, eng.I(s)), u))
		}
	}
	for _, f := range forms {
		if f == t || eng.Equal(f, t) {
			return a, ""
		}
	}
	return nil, fmt.Sprintf("is not 32 uniformly random bits: %s", short(t.String(), 200))
}

// draws keeps the random draws of one result apart.
type draws struct{ seen map[string]string }

func newDraws() *draws { return &draws{map[string]string{}} }

// fresh checks that draw a, seen as a function of vars, is injective in them and not used elsewhere.
func (d *draws) fresh(a *eng.Term, where string, vars ...*eng.Term) string {
	m := map[int32]*eng.Term{}
	for i, v := range vars {
		ok := false
		for _, g := range a.Args() {
			if k, rest, lin := eng.Linear(g, v); lin && k != 0 {
				pure := true
				for _, w := range vars {
					if w != v && rest.HasFV(w.VarID()) {
						pure = false
					}
				}
				if pure {
					ok = true
				}
			}
		}
		if !ok {
			return fmt.Sprintf("%s: the draw %s does not change with %s", where, short(a.String(), 150), v)
		}
		m[v.VarID()] = eng.Sym(fmt.Sprintf("#%d", i), eng.TI64)
	}
	k := eng.Subst(a, m).String()
	if o, dup := d.seen[k]; dup && o != where {
		return fmt.Sprintf("%s: the draw %s is already used in %s", where, short(a.String(), 150), o)
	}
	d.seen[k] = where
	return ""
}

// gauss finds the only Gaussian draw of a body.
func gauss(b *eng.Term) (*eng.Term, string) {
	as := eng.Atoms(b, func(t *eng.Term) bool { return isRnd(t) && strings.HasPrefix(rndMethod(t), "NormFloat64") })
	if len(as) != 1 {
		return nil, fmt.Sprintf("the body has %d Gaussian draws, expected one: %s", len(as), short(b.String(), 200))
	}
	return as[0], ""
}

// lwe checks that P is a well-formed encryption of mu under key with deviation alpha. vars are the
// indices the ciphertext depends on.
func (c *Ctx) lwe(r *Rep, d *draws, construct, where string, n int64, P, key eng.Value, mu, alpha *eng.Term, vars ...*eng.Term) {
	if l := eng.SliceLen(P); l == nil || !eng.Equal(l, eng.I(n+1)) {
		r.ok("shape", construct, false, "%s: ciphertext has length %v, expected %d", where, l, n+1)
		return
	}
	x := eng.NewVar("x", 0, n)
	m := eng.Simplify(c.X.ReadElem(c.St, P, x))
	a, e := maskDraw(m)
	if e == "" {
		e = d.fresh(a, where+" mask", append(vars, x)...)
	}
	r.ok("fresh-uniform-mask", construct, e == "", "%s: mask coefficient %s", where, e)
	b := eng.Simplify(c.X.ReadElem(c.St, P, eng.I(n)))
	z, e := gauss(b)
	if e == "" {
		e = d.fresh(z, where+" noise", vars...)
	}
	r.ok("fresh-gaussian-noise", construct, e == "", "%s: %s", where, e)
	if z == nil {
		return
	}
	c.body(r, construct, where, b, func(noise *eng.Term, once bool) eng.Value {
		return c.ref("LWEBody", eng.I(n), P, key, mu, noise, eng.Bool(once))
	}, alpha, z)
}

// body compares a body with mask times key plus message plus noise.
func (c *Ctx) body(r *Rep, construct, where string, b *eng.Term, ref func(noise *eng.Term, once bool) eng.Value, alpha, z *eng.Term) {
	base := c.St
	d := ""
	for i := 0; i < 4; i++ {
		noise := eng.Mul(alpha, z)
		if i%2 == 1 {
			noise = eng.Neg(noise)
		}
		c.St = base.Fork()
		w := ref(noise, i/2 == 1)
		e := c.cmp(b, w, types.Typ[types.Uint32], "body", nil)
		if d == "" || e == "" {
			d = e
		}
		if e == "" {
			break
		}
	}
	c.St = base
	c.problems(r, construct)
	r.ok("body", construct, d == "", "%s: %s", where, d)
}

func (c *Ctx) mainCall(r *Rep, construct string, f func() eng.Value) eng.Value {
	nb, np := len(c.X.Bounds), len(c.X.Panics)
	v := f()
	c.problems(r, construct)
	for _, p := range c.X.Panics[np:] {
		r.ok("no-panic", construct, false, "%s: panic: %s when %s", p.Pos, p.Msg, p.Cond)
	}
	for _, b := range c.X.Bounds[nb:] {
		if b.Definite {
			r.ok("index-in-range", construct, false, "%s: index out of range", b.Pos)
		}
	}
	return v
}

func fsym(n string) *eng.Term { return eng.Sym(n, eng.TF64) }

func checkEncTLWE(c *Ctx, r *Rep) {
	mu, alpha := fsym("mu"), fsym("alpha")
	bit := eng.Sym("bit", eng.TBool)
	mubit := eng.Ite(bit, eng.Float(0.125), eng.Float(-0.125))
	for _, lv := range []struct {
		t string
		n int64
	}{{"TLWELv0", c.N0}, {"TLWELv1", c.N1}} {
		key := c.X.NewSymSlice("key", c.torus(), eng.I(lv.n))
		base := c.St
		for _, f := range []struct {
			name    string
			arg, mu *eng.Term
		}{{"EncryptF64", mu, mu}, {"EncryptBool", bit, mubit}} {
			c.St = base.Fork()
			name := "tlwe." + lv.t + "." + f.name
			ct := c.sym("ct", "tlwe", lv.t)
			v := c.mainCall(r, name, func() eng.Value { return c.method("tlwe", lv.t, f.name, ct, f.arg, alpha, key) })
			c.lwe(r, newDraws(), name, "result", lv.n, c.field(v, "P"), key, f.mu, alpha)
			c.lwe(r, newDraws(), name, "receiver", lv.n, c.field(ct, "P"), key, f.mu, alpha)
		}
		c.St = base
	}
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N0))
	base := c.St
	for _, m := range moduli {
		for _, msg := range messages(m) {
			c.St = base.Fork()
			name := "tlwe.TLWELv0.EncryptLWEMessage"
			v := c.mainCall(r, name, func() eng.Value {
				return c.method("tlwe", "TLWELv0", "EncryptLWEMessage", c.sym("ct", "tlwe", "TLWELv0"), msg, eng.I(m), alpha, key)
			})
			enc := c.ref("Encode", msg, eng.I(m)).(*eng.Term)
			c.lwe(r, newDraws(), name, fmt.Sprintf("modulus %d", m), c.N0, c.field(v, "P"), key, enc, alpha)
		}
	}
	c.St = base
}

// messages lists the classes of messages for a modulus: in range, and up to twice the modulus off.
func messages(m int64) []*eng.Term {
	return []*eng.Term{eng.NewVar("v", 0, m), eng.NewVar("v", m, 2*m), eng.NewVar("v", -m+1, 0), eng.I(-m), eng.NewVar("v", -2*m+1, -m)}
}

var moduli = []int64{2, 3, 4, 5, 7, 8, 10, 16, 32, 64, 128, 256}

// ring checks a ring ciphertext cell by cell: mask coefficients minus dA, bodies minus dB.
func (c *Ctx) ring(r *Rep, d *draws, construct, where string, A, B func(j *eng.Term) *eng.Term, key, pe eng.Value, mu func(j *eng.Term) *eng.Term, alpha *eng.Term, dA, dB *eng.Term, vars ...*eng.Term) {
	j := eng.NewVar("j", 0, c.N)
	j1 := eng.NewVar("j", 1, c.N)
	// the random part of the mask
	ra := func(j *eng.Term) *eng.Term {
		t := A(j)
		if dA == nil {
			return t
		}
		return eng.Simplify(eng.Ite(eng.Eq(j, eng.I(0)), eng.Sub(t, dA), t))
	}
	a, e := maskDraw(ra(j))
	if e != "" && dA != nil {
		// the gadget sits on coefficient zero: decide the two cases separately
		a, e = maskDraw(ra(j1))
		if a0, e0 := maskDraw(ra(eng.I(0))); e == "" {
			if e0 != "" {
				e = "0 " + e0
			} else if eng.Subst(a, map[int32]*eng.Term{j1.VarID(): eng.I(0)}) != a0 {
				e = "0 is another draw than the others"
			}
		}
		if e == "" {
			e = d.fresh(a, where+" mask", append(vars, j1)...)
		}
	} else if e == "" {
		e = d.fresh(a, where+" mask", append(vars, j)...)
	}
	r.ok("fresh-uniform-mask", construct, e == "", "%s: mask coefficient %s", where, e)
	for _, jj := range []*eng.Term{eng.I(0), j1} {
		b := eng.Simplify(B(jj))
		z, e := gauss(b)
		vs := append([]*eng.Term(nil), vars...)
		if jj == j1 {
			vs = append(vs, j1)
		}
		if e == "" && jj == j1 {
			e = d.fresh(z, where+" noise", vs...)
		}
		r.ok("fresh-gaussian-noise", construct, e == "", "%s: %s", where, e)
		if z == nil {
			continue
		}
		c.body(r, construct, where, b, func(noise *eng.Term, once bool) eng.Value {
			arr := c.X.NewObjAt("mask", "mask", c.torus(), eng.I(c.N))
			c.X.BulkWrite(c.St, arr, eng.I(c.N), func(k *eng.Term) *eng.Term {
				if a == nil {
					return ra(k)
				}
				v := j
				if !a.HasFV(j.VarID()) {
					v = j1
				}
				return eng.Conv(eng.Subst(a, map[int32]*eng.Term{v.VarID(): k}), eng.TU32)
			})
			t, _ := c.ref("RingBody", pe, eng.I(c.N), arr, key, mu(jj), noise, eng.Bool(once), jj).(*eng.Term)
			if t == nil {
				return nil
			}
			if dB != nil && jj != j1 {
				t = eng.Add(t, dB)
			}
			return t
		}, alpha, z)
	}
}

func (c *Ctx) slice(p eng.Value) func(j *eng.Term) *eng.Term {
	return func(j *eng.Term) *eng.Term { return eng.Simplify(c.X.ReadElem(c.St, p, j)) }
}

func checkEncRing(c *Ctx, r *Rep) {
	fourierModels(c.X)
	alpha := fsym("alpha")
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N1))
	pe := c.call("poly", "NewEvaluator", eng.I(c.N))
	c.X.Havoc(c.St, pe)
	p := c.X.NewSymSlice("p", types.Typ[types.Float64], eng.I(c.N))
	pb := c.X.NewSymSlice("pb", types.Typ[types.Bool], eng.I(c.N))
	base := c.St

	name := "trlwe.TRLWELv1.EncryptF64"
	c.St = base.Fork()
	v := c.mainCall(r, name, func() eng.Value {
		return c.method("trlwe", "TRLWELv1", "EncryptF64", c.sym("ct", "trlwe", "TRLWELv1"), p, alpha, key, pe)
	})
	c.ring(r, newDraws(), name, "result", c.slice(c.field(v, "A")), c.slice(c.field(v, "B")), key, pe,
		func(j *eng.Term) *eng.Term { return c.X.ReadElem(c.St, p, j) }, alpha, nil, nil)

	name = "trlwe.TRLWELv1.EncryptBool"
	c.St = base.Fork()
	v = c.mainCall(r, name, func() eng.Value {
		return c.method("trlwe", "TRLWELv1", "EncryptBool", c.sym("ct", "trlwe", "TRLWELv1"), pb, alpha, key, pe)
	})
	c.ring(r, newDraws(), name, "result", c.slice(c.field(v, "A")), c.slice(c.field(v, "B")), key, pe,
		func(j *eng.Term) *eng.Term {
			return eng.Ite(c.X.ReadElem(c.St, pb, j), eng.Float(0.125), eng.Float(-0.125))
		}, alpha, nil, nil)

	name = "trgsw.TRGSWLv1.EncryptTorus"
	c.St = base.Fork()
	msg := eng.Sym("message", eng.TU32)
	v = c.mainCall(r, name, func() eng.Value {
		g := c.call("trgsw", "NewTRGSWLv1")
		return c.method("trgsw", "TRGSWLv1", "EncryptTorus", g, msg, alpha, key, pe)
	})
	rows := c.field(v, "TRLWE")
	if l := eng.SliceLen(rows); l == nil || !eng.Equal(l, eng.I(2*c.L)) {
		r.ok("shape", name, false, "%v rows, expected %d", l, 2*c.L)
		return
	}
	d := newDraws()
	for i := int64(0); i < 2*c.L; i++ {
		row := c.X.Load(c.St, eng.Elem(rows, eng.I(i)), c.ptr("trlwe", "TRLWELv1"))
		c.gadgetRow(r, d, name, i, c.slice(c.field(row, "A")), c.slice(c.field(row, "B")), key, pe, msg, alpha)
	}
}

// gadgetRow checks row i of a gadget ciphertext: an encryption of zero plus message / Bg^(i+1) on
// the mask (first half) or the body (second half).
func (c *Ctx) gadgetRow(r *Rep, d *draws, construct string, i int64, A, B func(j *eng.Term) *eng.Term, key, pe eng.Value, msg, alpha *eng.Term, vars ...*eng.Term) {
	zero := func(*eng.Term) *eng.Term { return eng.Float(0) }
	g := func(i int64) *eng.Term { return eng.Mul(msg, u32(int64(uint32(1)<<uint(32-(i+1)*c.BGBIT)))) }
	var dA, dB *eng.Term
	if i < c.L {
		dA = g(i)
	} else {
		dB = g(i - c.L)
	}
	c.ring(r, d, construct, fmt.Sprintf("row %d", i), A, B, key, pe, zero, alpha, dA, dB, vars...)
}

func checkSecretKey(c *Ctx, r *Rep) {
	name := "key.NewSecretKey"
	v := c.mainCall(r, name, func() eng.Value { return c.call("key", "NewSecretKey") })
	d := newDraws()
	for _, p := range []struct {
		f string
		n int64
	}{{"KeyLv0", c.N0}, {"KeyLv1", c.N1}} {
		s := c.field(v, p.f)
		l := eng.SliceLen(s)
		if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(p.n)), "%s has length %v, expected %d", p.f, l, p.n) {
			continue
		}
		x := eng.NewVar("x", 0, p.n)
		t := eng.Simplify(c.X.ReadElem(c.St, s, x))
		a, e := fairBit(t)
		if e == "" {
			e = d.fresh(a, p.f, x)
		}
		r.ok("fair-independent-bit", name, e == "", "%s: coefficient %s", p.f, e)
	}
}

// fairBit returns the draw behind a value that is 0 or 1 with equal probability.
func fairBit(t *eng.Term) (*eng.Term, string) {
	as := eng.OuterAtoms(t, isRnd)
	if len(as) != 1 {
		return nil, fmt.Sprintf("is not decided by one random draw: %s", short(t.String(), 200))
	}
	a := as[0]
	bit := eng.NewVar("bit", 0, 2)
	bt := eng.Conv(bit, a.Ty())
	var s *eng.Term
	switch rndMethod(a) {
	case "Intn(2)", "Int31n(2)", "Int63n(2)", "IntN(2)", "Uint32N(2)", "Int32N(2)", "Int64N(2)", "Uint64N(2)", "UintN(2)":
		s = eng.Replace(t, a, bt)
	case "Uint32()", "Uint64()", "Int63()", "Int31()", "Int()", "Int32()", "Int64()":
		// one bit of a uniform word
		for _, w := range eng.Atoms(t, func(q *eng.Term) bool { return q != a && q.Ty() != eng.TBool && len(eng.Atoms(q, isRnd)) == 1 }) {
			if lo, hi := eng.Bounds(w); lo == 0 && hi == 1 {
				ok := eng.Equal(w, eng.BAnd(eng.Conv(a, w.Ty()), eng.Int(w.Ty(), 1)))
				for b := int64(1); b < 64 && !ok; b++ {
					ok = eng.Equal(w, eng.Conv(eng.BAnd(eng.Shr(a, eng.I(b)), eng.Int(a.Ty(), 1)), w.Ty()))
				}
				if ok {
					if q := eng.Replace(t, w, eng.Conv(bit, w.Ty())); len(eng.OuterAtoms(q, isRnd)) == 0 {
						s = q
						break
					}
				}
			}
		}
	}
	if s == nil {
		return nil, fmt.Sprintf("is not decided by one fair bit: %s", short(t.String(), 200))
	}
	v0 := eng.Simplify(eng.Subst(s, map[int32]*eng.Term{bit.VarID(): eng.I(0)}))
	v1 := eng.Simplify(eng.Subst(s, map[int32]*eng.Term{bit.VarID(): eng.I(1)}))
	if !v0.IsConst() || !v1.IsConst() || v0.IVal()+v1.IVal() != 1 || v0.IVal()*v1.IVal() != 0 {
		return nil, fmt.Sprintf("takes the values %s and %s, expected 0 and 1", short(v0.String(), 80), short(v1.String(), 80))
	}
	return a, ""
}

func checkKSK(c *Ctx, r *Rep) {
	name := "cloudkey.NewCloudKey"
	fourierModels(c.X)
	sk := c.sym("secretKey", "key", "SecretKey")
	v := c.mainCall(r, name, func() eng.Value { return c.call("cloudkey", "NewCloudKey", sk) })
	ksk := c.field(v, "KeySwitchingKey")
	base := int64(1) << uint(c.BASEBIT)
	l := eng.SliceLen(ksk)
	if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(base*c.IKST*c.N)), "key switching key has %v rows, expected %d", l, base*c.IKST*c.N) {
		return
	}
	k0, k1 := c.field(sk, "KeyLv0"), c.field(sk, "KeyLv1")
	d := newDraws()
	i := eng.NewVar("i", 0, c.N)
	bit := eng.Conv(c.X.ReadElem(c.St, k1, i), eng.TF64)
	for j := int64(0); j < c.IKST; j++ {
		for k := int64(0); k < base; k++ {
			idx := eng.AddI(eng.MulI(i, base*c.IKST), base*j+k)
			row := c.X.Load(c.St, eng.Elem(ksk, idx), c.ptr("tlwe", "TLWELv0"))
			P := c.field(row, "P")
			where := fmt.Sprintf("row (i, %d, %d)", j, k)
			if k == 0 {
				// encrypts zero trivially or properly; key switching may subtract it or skip it
				x := eng.NewVar("x", 0, c.N0+1)
				t := eng.Simplify(c.X.ReadElem(c.St, P, x))
				r.ok("zero-row", name, t.IsConst() && t.IsZero(), "%s: %s, expected zero", where, short(t.String(), 150))
				continue
			}
			mu := eng.Mul(bit, eng.Rat(ratio(k, int64(1)<<uint((j+1)*c.BASEBIT))))
			c.lwe(r, d, name, where, c.N0, P, k0, mu, c.KSKA, i)
		}
	}
}

func checkBSK(c *Ctx, r *Rep) {
	name := "cloudkey.NewCloudKey"
	fourierModels(c.X)
	sk := c.sym("secretKey", "key", "SecretKey")
	pe := c.call("poly", "NewEvaluator", eng.I(c.N))
	v := c.mainCall(r, name, func() eng.Value { return c.call("cloudkey", "NewCloudKey", sk) })
	bsk := c.field(v, "BootstrappingKey")
	l := eng.SliceLen(bsk)
	if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(c.N0)), "bootstrapping key has %v elements, expected %d", l, c.N0) {
		return
	}
	k0, k1 := c.field(sk, "KeyLv0"), c.field(sk, "KeyLv1")
	i := eng.NewVar("i", 0, c.N0)
	el := c.X.Load(c.St, eng.Elem(bsk, i), c.ptr("trgsw", "TRGSWLv1FFT"))
	rows := c.field(el, "TRLWEFFT")
	if l := eng.SliceLen(rows); !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(2*c.L)), "bootstrapping key element has %v rows, expected %d", l, 2*c.L) {
		return
	}
	bit := c.X.ReadElem(c.St, k0, i)
	d := newDraws()
	st := c.typ("trgsw", "TRLWELv1FFT")
	for q := int64(0); q < 2*c.L; q++ {
		row := c.X.Load(c.St, eng.Elem(rows, eng.I(q)), st)
		var cells []func(j *eng.Term) *eng.Term
		for f := 0; f < 2; f++ {
			s := eng.StructField(eng.StructField(row, f), 0)
			x := eng.NewVar("x", 0, c.N)
			t := eng.Simplify(c.X.ReadElem(c.St, s, x))
			lam, e := unfft(t, x, c.N)
			if !r.ok("fourier-form", name, e == "", "row %d: %s", q, e) {
				return
			}
			cells = append(cells, func(j *eng.Term) *eng.Term { return eng.Simplify(eng.Inst(lam, j)) })
		}
		c.gadgetRow(r, d, name, q, cells[0], cells[1], k1, pe, bit, c.BSKA, i)
	}
}

// unfft recognises cell x of the Fourier transform of a polynomial and returns the polynomial.
func unfft(t, x *eng.Term, n int64) (*eng.Term, string) {
	bad := fmt.Sprintf("not the Fourier transform of a polynomial: %s", short(t.String(), 150))
	if t.Op() != eng.OFn || t.Name() != "fft" || len(t.Args()) != 2 || t.Args()[1] != x {
		return nil, bad
	}
	a := t.Args()[0]
	if a.Op() != eng.OFn || a.Name() != "arr" || len(a.Args()) != 2 || !a.Args()[0].IsConst() || a.Args()[0].IVal() != n {
		return nil, bad
	}
	return a.Args()[1], ""
}

func checkCloudRest(c *Ctx, r *Rep) {
	fourierModels(c.X)
	base := c.St
	for _, f := range []string{"NewCloudKey", "NewCloudKeyNoKSK"} {
		c.St = base.Fork()
		name := "cloudkey." + f
		var args []eng.Value
		if f == "NewCloudKey" {
			args = append(args, c.sym("secretKey", "key", "SecretKey"))
		}
		v := c.mainCall(r, name, func() eng.Value { return c.call("cloudkey", f, args...) })
		off, _ := c.field(v, "DecompositionOffset").(*eng.Term)
		want := c.ref("Offset", eng.I(c.L), eng.I(c.BGBIT)).(*eng.Term)
		r.ok("offset", name, off != nil && eng.Equal(off, want), "decomposition offset is %v, expected %v", off, want)
		tv := c.field(v, "BlindRotateTestvec")
		for _, q := range []struct {
			f string
			v int64
		}{{"A", 0}, {"B", 1 << 29}} {
			s := c.field(tv, q.f)
			l := eng.SliceLen(s)
			if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(c.N)), "test vector has length %v, expected %d", l, c.N) {
				continue
			}
			t := eng.Simplify(c.X.ReadElem(c.St, s, eng.NewVar("x", 0, c.N)))
			r.ok("test-vector", name, t.IsConst() && t.IVal() == q.v, "test vector %s is %s, expected %d", q.f, short(t.String(), 100), q.v)
		}
		for _, q := range []struct {
			f string
			n int64
		}{{"KeySwitchingKey", c.N * c.IKST << uint(c.BASEBIT)}, {"BootstrappingKey", c.N0}} {
			l := eng.SliceLen(c.field(v, q.f))
			r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(q.n)), "%s has %v elements, expected %d", q.f, l, q.n)
		}
	}
}
