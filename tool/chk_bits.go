package main

import (
	"fmt"
	"go/types"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C25",
		Rule:        "For every width and every vector length up to the width, integer-from-bits equals the sum of bit i times 2^i and bits-from-integer gives bit i at position i for an arbitrary value; encryption and decryption of a vector of arbitrary length work element by element, in order, with fresh randomness per element.",
		Assumptions: []string{"keys have the length of the current level"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			return append(levelUnits(w, "bits.convert", checkBits)[:1], levelUnits(w, "bits.crypt", checkBitCrypt)...)
		},
	})
}

func checkBits(c *Ctx, r *Rep) {
	tb := types.Typ[types.Bool]
	old := eng.UnrollMax
	eng.UnrollMax = 64
	defer func() { eng.UnrollMax = old }()
	for _, w := range []int64{8, 16, 32, 64} {
		ty := map[int64]eng.Ty{8: eng.TU8, 16: eng.TU16, 32: eng.TU32, 64: eng.TU64}[w]
		for n := int64(0); n <= w; n++ {
			bits := c.X.NewSymSlice(fmt.Sprintf("bits%d", n), tb, eng.I(n))
			name := fmt.Sprintf("bitutils.ConvertU%d", w)
			got, _ := c.mainCall(r, name, func() eng.Value { return c.call("bitutils", fmt.Sprintf("ConvertU%d", w), bits) }).(*eng.Term)
			want := eng.Int(ty, 0)
			for i := int64(0); i < n; i++ {
				want = eng.Add(want, eng.Ite(c.X.ReadElem(c.St, bits, eng.I(i)), eng.Int(ty, int64(uint64(1)<<uint(i))), eng.Int(ty, 0)))
			}
			r.ok("integer-from-bits", name, got != nil && eng.Equal(got, want), "%d bits: %v", n, short(fmt.Sprint(got), 300))
		}
		v := eng.Sym(fmt.Sprintf("v%d", w), ty)
		name := fmt.Sprintf("U%dToBits", w)
		c.agree(r, "bits-from-integer", "bitutils."+name, types.NewSlice(tb),
			func() eng.Value { return c.call("bitutils", name, v) },
			func() eng.Value { return c.ref("Bits", eng.Conv(v, eng.TU64), eng.I(w)) })
	}
	v := eng.Sym("v", eng.TU64)
	for n := int64(0); n <= 64; n++ {
		c.agree(r, "bits-from-integer", "bitutils.ToBits", types.NewSlice(tb),
			func() eng.Value { return c.call("bitutils", "ToBits", v, eng.I(n)) },
			func() eng.Value { return c.ref("Bits", v, eng.I(n)) })
	}
}

func checkBitCrypt(c *Ctx, r *Rep) {
	key := c.X.NewSymSlice("key", c.torus(), eng.I(c.N0))
	alpha := fsym("alpha")
	tb := types.Typ[types.Bool]
	base := c.St
	name := "bitutils.EncryptBits"
	for _, n := range []int64{0, 1, 2, 8, 1 << 20} {
		c.St = base.Fork()
		bits := c.X.NewSymSlice(fmt.Sprintf("bits%d", n), tb, eng.I(n))
		v := c.mainCall(r, name, func() eng.Value { return c.call("bitutils", "EncryptBits", bits, alpha, key) })
		l := eng.SliceLen(v)
		if !r.ok("one-per-element", name, l != nil && eng.Equal(l, eng.I(n)), "%v ciphertexts for %d bits", l, n) || n == 0 {
			continue
		}
		d := newDraws()
		one := func(i *eng.Term, where string, vars ...*eng.Term) {
			ct := c.X.Load(c.St, eng.Elem(v, i), c.ptr("tlwe", "TLWELv0"))
			mu := eng.Ite(c.X.ReadElem(c.St, bits, i), eng.Float(0.125), eng.Float(-0.125))
			c.lwe(r, d, name, where, c.N0, c.field(ct, "P"), key, mu, alpha, vars...)
		}
		if n <= 8 {
			for i := int64(0); i < n; i++ {
				one(eng.I(i), fmt.Sprintf("ciphertext %d of %d", i, n))
			}
		} else {
			i := eng.NewVar("i", 0, n)
			one(i, "ciphertext i", i)
		}
	}
	c.St = base
	n := eng.Sym("len", eng.TI64)
	cts := c.X.NewSymSlice("cts", c.ptr("tlwe", "TLWELv0"), n)
	c.agree(r, "decrypt-in-order", "bitutils.DecryptBits", types.NewSlice(tb),
		func() eng.Value { return c.call("bitutils", "DecryptBits", cts, key) },
		func() eng.Value { return c.ref("Signs", eng.I(c.N0), cts, key) }, eng.Not(eng.Lt(n, eng.I(0))))
}
