package main

import (
	"fmt"
	"go/types"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C17",
		Rule:        "For every security level: public keys are well-formed fresh encryptions of zero; public-key encryption is (closed form, arbitrary key and plaintext) plaintext plus one Gaussian of the requested deviation plus a fresh random {0,+1,-1} combination with the same coefficient for mask and body; every row of both kinds of re-encryption key encrypts the prescribed multiple of the source key coefficient under the target key; re-encryption equals the reference key switch with that key.",
		Assumptions: []string{"distinct draws of a generator are independent (the generator itself: C07)", "a zero-digit row encrypts zero trivially"},
		Min:         1000,
		Units: func(w *eng.World) []Unit {
			us := levelUnits(w, "proxy.public-key", checkPublicKey)
			us = append(us, levelUnits(w, "proxy.rekey-symmetric", func(c *Ctx, r *Rep) { checkRekey(c, r, false) })...)
			us = append(us, levelUnits(w, "proxy.rekey-asymmetric", func(c *Ctx, r *Rep) { checkRekey(c, r, true) })...)
			return append(us, levelUnits(w, "proxy.reencrypt", checkReencrypt)...)
		},
	})
}

func checkPublicKey(c *Ctx, r *Rep) {
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N0))
	alpha, p := fsym("alpha"), fsym("p")
	base := c.St
	for _, v := range []struct {
		name  string
		size  int64
		alpha *eng.Term
	}{{"NewPublicKeyLv0", 2 * c.N0, c.A0}, {"NewPublicKeyLv0WithParams", 0, alpha}, {"NewPublicKeyLv0WithParams", 1, alpha}, {"NewPublicKeyLv0WithParams", 5, alpha}, {"NewPublicKeyLv0WithParams", 1000, alpha}} {
		c.St = base.Fork()
		name := "proxyreenc." + v.name
		pk := c.mainCall(r, name, func() eng.Value {
			if v.name == "NewPublicKeyLv0" {
				return c.call("proxyreenc", v.name, key)
			}
			return c.call("proxyreenc", v.name, key, eng.I(v.size), v.alpha)
		})
		es := c.field(pk, "Encryptions")
		l := eng.SliceLen(es)
		if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(v.size)), "public key has %v encryptions, expected %d", l, v.size) || v.size == 0 {
			continue
		}
		d := newDraws()
		one := func(i *eng.Term, where string, vars ...*eng.Term) {
			ct := c.X.Load(c.St, eng.Elem(es, i), c.ptr("tlwe", "TLWELv0"))
			c.lwe(r, d, name, where, c.N0, c.field(ct, "P"), key, eng.Float(0), v.alpha, vars...)
		}
		if v.size > 40 {
			i := eng.NewVar("i", 0, v.size)
			one(i, "encryption i", i)
		} else {
			for i := int64(0); i < v.size; i++ {
				one(eng.I(i), fmt.Sprintf("encryption %d of %d", i, v.size))
			}
		}
	}
	for _, f := range []struct {
		name    string
		arg, mu *eng.Term
	}{{"EncryptF64", p, p}, {"EncryptBool", eng.Sym("bit", eng.TBool), eng.Ite(eng.Sym("bit", eng.TBool), eng.Float(0.125), eng.Float(-0.125))}} {
		c.St = base.Fork()
		name := "proxyreenc.PublicKeyLv0." + f.name
		pk, es := c.publicKey("pk")
		ct := c.mainCall(r, name, func() eng.Value { return c.method("proxyreenc", "PublicKeyLv0", f.name, pk, f.arg, alpha) })
		c.pkCipher(r, newDraws(), name, "result", ct, es, f.mu, alpha)
	}
	c.St = base
}

// publicKey makes an arbitrary public key.
func (c *Ctx) publicKey(name string) (pk, es eng.Value) {
	pk = c.sym(name, "proxyreenc", "PublicKeyLv0")
	c.lens[name+".Encryptions"] = eng.I(2 * c.N0)
	return pk, c.field(pk, "Encryptions")
}

// pkCipher checks a public-key encryption of mu.
func (c *Ctx) pkCipher(r *Rep, d *draws, construct, where string, ct, es eng.Value, mu, alpha *eng.Term, vars ...*eng.Term) {
	P := c.field(ct, "P")
	if l := eng.SliceLen(P); !r.ok("shape", construct, l != nil && eng.Equal(l, eng.I(c.N0+1)), "%s: ciphertext has length %v, expected %d", where, l, c.N0+1) {
		return
	}
	size := eng.SliceLen(es)
	i := eng.NewVar("e", 0, size.IVal())
	x := eng.NewVar("x", 0, c.N0)
	enc := c.X.Load(c.St, eng.Elem(es, i), c.ptr("tlwe", "TLWELv0"))
	var table []int64
	var atoms []*eng.Term
	for _, cell := range []*eng.Term{x, eng.I(c.N0)} {
		t := eng.Simplify(c.X.ReadElem(c.St, P, cell))
		sums := eng.OuterAtoms(t, func(t *eng.Term) bool { return t.Op() == eng.OSum })
		what := "mask"
		if cell != x {
			what = "body"
		}
		if !r.ok("random-combination", construct, len(sums) == 1 && eng.Equal(sums[0].Args()[0], size), "%s: the %s is not a sum over the public key: %s", where, what, short(t.String(), 3000)) {
			return
		}
		rest := eng.Sub(t, sums[0])
		g := eng.Simplify(eng.Inst(sums[0].Args()[1], i))
		as := eng.OuterAtoms(g, isRnd)
		e := eng.Simplify(c.X.ReadElem(c.St, c.field(enc, "P"), cell))
		tab, err := combination(g, e, as)
		if err == "" {
			for _, a := range as {
				if a.HasFV(x.VarID()) {
					err = "the coefficient changes within a ciphertext"
				} else if m := d.fresh(a, where+fmt.Sprint(" coefficient ", a.Name()), append(vars, i)...); m != "" {
					err = m
				}
			}
		}
		if err == "" && cell != x {
			same := len(tab) == len(table) && len(as) == len(atoms)
			for k := 0; same && k < len(tab); k++ {
				same = tab[k] == table[k]
			}
			for k := 0; same && k < len(as); k++ {
				same = as[k] == atoms[k]
			}
			if !same {
				err = "mask and body use different coefficients"
			}
		}
		r.ok("random-combination", construct, err == "", "%s: %s: %s", where, what, err)
		table, atoms = tab, as
		if cell == x {
			r.ok("mask", construct, rest.IsZero(), "%s: the mask has an extra term %s", where, short(rest.String(), 200))
			continue
		}
		z, er := gauss(rest)
		if er == "" {
			er = d.fresh(z, where+" noise", vars...)
		}
		if r.ok("fresh-gaussian-noise", construct, er == "", "%s: %s", where, er) {
			c.body(r, construct, where, rest, func(noise *eng.Term, once bool) eng.Value {
				return c.ref("Noisy", mu, noise, eng.Bool(once))
			}, alpha, z)
		}
	}
}

// combination evaluates g for every outcome of its draws: it must be 0, e or -e, with more than one
// outcome.
func combination(g, e *eng.Term, as []*eng.Term) ([]int64, string) {
	if len(as) == 0 || len(as) > 4 {
		return nil, fmt.Sprintf("%d random draws per element", len(as))
	}
	n := make([]int64, len(as))
	for k, a := range as {
		if _, err := fmt.Sscanf(rndMethod(a), "Intn(%d)", &n[k]); err != nil || n[k] < 2 || n[k] > 8 {
			return nil, "unexpected draw " + rndMethod(a)
		}
	}
	var tab []int64
	idx := make([]int64, len(as))
	seen := map[int64]bool{}
	for {
		t := g
		for k, a := range as {
			t = eng.Replace(t, a, eng.Int(a.Ty(), idx[k]))
		}
		t = eng.Simplify(t)
		v := int64(99)
		for _, q := range []int64{0, 1, -1} {
			if eng.Equal(t, eng.MulI(e, q)) {
				v = q
			}
		}
		if v == 99 {
			return nil, fmt.Sprintf("the summand is %s, expected 0 or plus or minus %s", short(t.String(), 200), short(e.String(), 100))
		}
		tab = append(tab, v)
		seen[v] = true
		k := 0
		for ; k < len(idx); k++ {
			idx[k]++
			if idx[k] < n[k] {
				break
			}
			idx[k] = 0
		}
		if k == len(idx) {
			break
		}
	}
	if len(seen) < 2 {
		return nil, "the coefficient is not random"
	}
	return tab, ""
}

// decompositions lists (basebit, t) pairs to analyse: the level's own and others.
func (c *Ctx) decompositions() [][2]int64 {
	r := [][2]int64{{c.BASEBIT, c.IKST}}
	for _, d := range [][2]int64{{1, 4}, {2, 8}, {4, 3}, {3, 2}, {5, 1}} {
		if d != r[0] {
			r = append(r, d)
		}
	}
	return r
}

func checkRekey(c *Ctx, r *Rep, asym bool) {
	from := c.X.NewSymSlice("keyFrom", c.torus(), eng.I(c.N0))
	to := c.X.NewSymSlice("keyTo", c.torus(), eng.I(c.N0))
	target := eng.Value(to)
	var es eng.Value
	kind := "Symmetric"
	if asym {
		kind = "Asymmetric"
		target, es = c.publicKey("publicKeyTo")
	}
	base := c.St
	for n, dc := range append([][2]int64{{c.BASEBIT, c.IKST}}, c.decompositions()...) {
		c.St = base.Fork()
		fn := "NewProxyReencryptionKey" + kind
		args := []eng.Value{from, target}
		alpha := c.KSKA
		if n > 0 {
			fn += "WithParams"
			alpha = fsym("alpha")
			args = append(args, alpha, eng.I(dc[0]), eng.I(dc[1]))
		}
		name := "proxyreenc." + fn
		v := c.mainCall(r, name, func() eng.Value { return c.call("proxyreenc", fn, args...) })
		b := int64(1) << uint(dc[0])
		for _, f := range []struct {
			f string
			v int64
		}{{"Base", b}, {"T", dc[1]}} {
			t, _ := c.field(v, f.f).(*eng.Term)
			r.ok("dimension", name, t != nil && eng.Equal(t, eng.I(f.v)), "%s is %v, expected %d", f.f, t, f.v)
		}
		rows := c.field(v, "KeyEncryptions")
		l := eng.SliceLen(rows)
		if !r.ok("dimension", name, l != nil && eng.Equal(l, eng.I(b*dc[1]*c.N0)), "re-encryption key has %v rows, expected %d", l, b*dc[1]*c.N0) {
			continue
		}
		i := eng.NewVar("i", 0, c.N0)
		bit := eng.Conv(c.X.ReadElem(c.St, from, i), eng.TF64)
		d := newDraws()
		for j := int64(0); j < dc[1]; j++ {
			for k := int64(0); k < b; k++ {
				idx := eng.AddI(eng.MulI(i, b*dc[1]), b*j+k)
				row := c.X.Load(c.St, eng.Elem(rows, idx), c.ptr("tlwe", "TLWELv0"))
				where := fmt.Sprintf("row (i, %d, %d)", j, k)
				if k == 0 {
					x := eng.NewVar("x", 0, c.N0+1)
					t := eng.Simplify(c.X.ReadElem(c.St, c.field(row, "P"), x))
					r.ok("zero-row", name, t.IsConst() && t.IsZero(), "%s: %s, expected zero", where, short(t.String(), 150))
					continue
				}
				mu := eng.Mul(bit, eng.Rat(ratio(k, int64(1)<<uint((j+1)*dc[0]))))
				if asym {
					c.pkCipher(r, d, name, where, row, es, mu, alpha, i)
				} else {
					c.lwe(r, d, name, where, c.N0, c.field(row, "P"), to, mu, alpha, i)
				}
			}
		}
	}
	c.St = base
}

func checkReencrypt(c *Ctx, r *Rep) {
	ct := c.sym("ctFrom", "tlwe", "TLWELv0")
	t := c.ptr("tlwe", "TLWELv0")
	base := c.St
	for _, dc := range c.decompositions() {
		c.St = base.Fork()
		b := int64(1) << uint(dc[0])
		rk := c.sym("reencKey", "proxyreenc", "ProxyReencryptionKey")
		rows := c.X.NewSymSlice(fmt.Sprintf("rows%d", b*dc[1]), c.ptr("tlwe", "TLWELv0"), eng.I(b*dc[1]*c.N0))
		c.X.StoreField(c.St, rk, "KeyEncryptions", rows)
		c.X.StoreField(c.St, rk, "Base", eng.I(b))
		c.X.StoreField(c.St, rk, "T", eng.I(dc[1]))
		ref := func(skip bool) func() eng.Value {
			return func() eng.Value {
				p := c.field(ct, "P")
				return c.ref("KeySwitch", eng.I(c.N0), eng.I(c.N0), eng.I(dc[0]), eng.I(dc[1]), eng.Bool(skip), p, c.X.ReadElem(c.St, p, eng.I(c.N0)), rows)
			}
		}
		c.agreeAny(r, "re-encryption", "proxyreenc.ReencryptTLWELv0", t,
			func() eng.Value { return c.call("proxyreenc", "ReencryptTLWELv0", ct, rk) },
			[]func() eng.Value{ref(true), ref(false)})
	}
	c.St = base
	_ = types.Typ
}
