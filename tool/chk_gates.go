package main

import (
	"fmt"
	"strings"

	"vtool/eng"
)

// gateTable gives, per gate, the number of inputs and the Boolean function.
type gate struct {
	name string
	n    int
	f    func(v []bool) bool
}

var gateTable = []gate{
	{"NAND", 2, func(v []bool) bool { return !(v[0] && v[1]) }},
	{"AND", 2, func(v []bool) bool { return v[0] && v[1] }},
	{"OR", 2, func(v []bool) bool { return v[0] || v[1] }},
	{"XOR", 2, func(v []bool) bool { return v[0] != v[1] }},
	{"XNOR", 2, func(v []bool) bool { return v[0] == v[1] }},
	{"NOR", 2, func(v []bool) bool { return !(v[0] || v[1]) }},
	{"ANDNY", 2, func(v []bool) bool { return !v[0] && v[1] }},
	{"ANDYN", 2, func(v []bool) bool { return v[0] && !v[1] }},
	{"ORNY", 2, func(v []bool) bool { return !v[0] || v[1] }},
	{"ORYN", 2, func(v []bool) bool { return v[0] || !v[1] }},
	{"MUX", 3, func(v []bool) bool {
		if v[0] {
			return v[1]
		}
		return v[2]
	}},
	{"NOT", 1, func(v []bool) bool { return !v[0] }},
	{"Copy", 1, func(v []bool) bool { return v[0] }},
}

// circuit is a Boolean circuit recovered from the term of a result ciphertext: an affine
// combination of input ciphertexts and of bootstrapped affine combinations.
type circuit struct {
	coef []int64
	in   []int      // index of the input ciphertext, or -1
	sub  []*circuit // the bootstrapped combination otherwise
	off  int64
}

// phase evaluates the combination (in units of 2^-32) for input values, checking the decision
// margin of every bootstrapping.
func (k *circuit) phase(v []bool, bad *string) int64 {
	const mu = int64(1) << 29
	p := k.off
	for i := range k.coef {
		b := false
		if k.in[i] >= 0 {
			b = v[k.in[i]]
		} else {
			b = k.sub[i].decide(v, bad)
		}
		if b {
			p += k.coef[i] * mu
		} else {
			p -= k.coef[i] * mu
		}
	}
	return int64(int32(uint32(p)))
}

// decide is the sign a bootstrapping of the combination extracts.
func (k *circuit) decide(v []bool, bad *string) bool {
	const mu = int64(1) << 29
	p := k.phase(v, bad)
	ap := p
	if ap < 0 {
		ap = -ap
	}
	m := ap
	if r := int64(1)<<31 - ap; r < m {
		m = r
	}
	if m < mu-16 {
		*bad = fmt.Sprintf("for inputs %v the bootstrapped phase %d/2^32 is within 1/8 of the decision boundary", v, p)
	}
	var sq int64
	for _, c := range k.coef {
		sq += c * c
	}
	if sq > 8 {
		*bad = fmt.Sprintf("input noise is amplified by a factor of %d", sq)
	}
	return p >= 0
}

func signed32(c int64) int64 { return int64(int32(uint32(c))) }

// input reads cell w of an input ciphertext as it was before the call.
type input func(w *eng.Term) *eng.Term

func (c *Ctx) input(p eng.Value) input {
	s := c.X.LoadField(c.St, p, "P")
	st := c.St.Fork()
	return func(w *eng.Term) *eng.Term { return c.X.ReadElem(st, s, w) }
}

// ckTerms identifies the parts of the caller's cloud key.
type ckTerms struct{ ksk, bsk, off, tva, tvb *eng.Term }

func (c *Ctx) ckTerms(ck eng.Value) *ckTerms {
	x := c.X
	k := &ckTerms{}
	k.ksk = keyTerm(x.LoadField(c.St, ck, "KeySwitchingKey"))
	k.bsk = keyTerm(x.LoadField(c.St, ck, "BootstrappingKey"))
	k.off, _ = x.LoadField(c.St, ck, "DecompositionOffset").(*eng.Term)
	tv := x.LoadField(c.St, ck, "BlindRotateTestvec")
	k.tva, _ = x.ArrayTerm(c.St, x.LoadField(c.St, tv, "A"), nil)
	k.tvb, _ = x.ArrayTerm(c.St, x.LoadField(c.St, tv, "B"), nil)
	if k.off == nil || k.tva == nil || k.tvb == nil {
		c.bad = append(c.bad, "cloud key parts not resolved")
		return nil
	}
	return k
}

// recover rebuilds the circuit of an array (arr body at index w, of length n0+1).
func (c *Ctx) recover(body func(w *eng.Term) *eng.Term, inputs []input, ck *ckTerms) (*circuit, error) {
	w := eng.NewVar("w", 0, c.N0)
	mask := body(w)
	last := eng.I(c.N0)
	k, err := c.affine(mask, w, inputs, ck)
	if err != nil {
		return nil, err
	}
	if k.off != 0 {
		return nil, fmt.Errorf("the mask coefficients are shifted by %d", k.off)
	}
	kb, err := c.affine(body(last), last, inputs, ck)
	if err != nil {
		return nil, err
	}
	k.off = kb.off
	// the body has to combine the same ciphertexts with the same coefficients
	if len(kb.coef) != len(k.coef) {
		return nil, fmt.Errorf("mask and body combine different ciphertexts")
	}
	used := make([]bool, len(k.coef))
	for i := range k.coef {
		ok := false
		for j := range kb.coef {
			if !used[j] && kb.coef[j] == k.coef[i] && kb.in[j] == k.in[i] && (k.in[i] >= 0 || sameCircuit(k.sub[i], kb.sub[j])) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return nil, fmt.Errorf("mask and body combine the inputs differently")
		}
	}
	return k, nil
}

func sameCircuit(a, b *circuit) bool {
	if a.off != b.off || len(a.coef) != len(b.coef) {
		return false
	}
	for i := range a.coef {
		if a.coef[i] != b.coef[i] || a.in[i] != b.in[i] || a.in[i] < 0 && !sameCircuit(a.sub[i], b.sub[i]) {
			return false
		}
	}
	return true
}

func (c *Ctx) affine(t, w *eng.Term, inputs []input, ck *ckTerms) (*circuit, error) {
	if o, bad := eng.IsOpaque(t); bad {
		return nil, fmt.Errorf("value not resolved: %s", o)
	}
	k := &circuit{}
	for _, m := range eng.Monos(t) {
		if len(m.Atoms) == 0 {
			k.off = signed32(m.Coef)
			continue
		}
		if len(m.Atoms) != 1 {
			return nil, fmt.Errorf("not an affine combination: %s", short(t.String(), 200))
		}
		a := m.Atoms[0]
		ix, sub := -1, (*circuit)(nil)
		switch a.Op() {
		case eng.OSel:
			for i, n := range inputs {
				if eng.Same(a, n(w)) {
					ix = i
				}
			}
			if ix < 0 {
				return nil, fmt.Errorf("unexpected cell %s", short(a.String(), 200))
			}
		case eng.OFn:
			if a.Name() != "ks" || len(a.Args()) != 3 || !eng.Same(a.Args()[2], w) {
				return nil, fmt.Errorf("unexpected quantity %s", short(a.String(), 200))
			}
			s, err := c.boot(a, inputs, ck)
			if err != nil {
				return nil, err
			}
			sub = s
		default:
			return nil, fmt.Errorf("unexpected quantity %s", short(a.String(), 200))
		}
		k.coef = append(k.coef, signed32(m.Coef))
		k.in = append(k.in, ix)
		k.sub = append(k.sub, sub)
	}
	return k, nil
}

// boot recovers a bootstrapping: key switching of the extracted constant coefficient of a blind
// rotation of the test vector by an affine combination.
func (c *Ctx) boot(a *eng.Term, inputs []input, ck *ckTerms) (*circuit, error) {
	if k := a.Args()[1]; k != ck.ksk {
		return nil, fmt.Errorf("key switching with %s", k)
	}
	src := a.Args()[0]
	rots := eng.OuterAtoms(src, func(t *eng.Term) bool { return t.Op() == eng.OFn && strings.HasPrefix(t.Name(), "br.") })
	if len(rots) == 0 {
		return nil, fmt.Errorf("key switching of something that is not a blind rotation: %s", short(src.String(), 200))
	}
	r0 := rots[0]
	if r0.Args()[3] != ck.bsk {
		return nil, fmt.Errorf("blind rotation with %s", r0.Args()[3])
	}
	if !eng.Same(r0.Args()[4], ck.off) {
		return nil, fmt.Errorf("blind rotation with decomposition offset %s", r0.Args()[4])
	}
	if !eng.Same(r0.Args()[1], ck.tva) || !eng.Same(r0.Args()[2], ck.tvb) {
		return nil, fmt.Errorf("blind rotation of another test vector: %s", short(r0.Args()[2].String(), 200))
	}
	// sample extraction at index 0, from the reference definition
	in := r0.Args()[0]
	w := eng.NewVar("a", 0, c.N+1)
	cell := func(f string, j *eng.Term) *eng.Term {
		return eng.Fn("br."+f, eng.TU32, in, r0.Args()[1], r0.Args()[2], r0.Args()[3], r0.Args()[4], j)
	}
	found := false
	var last *eng.Term
	// torus values are negated as -x or as -1-x (the one's complement), see C14
	for _, bias := range []int64{-1, 0} {
		neg := eng.Sub(eng.Int(eng.TU32, bias), cell("A", eng.Sub(eng.I(c.N), w)))
		want := eng.Ite(eng.Eq(w, eng.I(c.N)), cell("B", eng.I(0)), eng.Ite(eng.Eq(w, eng.I(0)), cell("A", eng.I(0)), neg))
		if eng.Equal(src, eng.ArrOf(eng.I(c.N+1), w, want)) {
			found = true
			break
		}
		last = want
	}
	if !found {
		return nil, fmt.Errorf("key switching of something other than the constant coefficient: %s ... expected %s", lastPart(eng.Inst(src.Args()[1], w).String()), lastPart(last.String()))
	}
	if in.Name() != "arr" {
		return nil, fmt.Errorf("bootstrapped ciphertext not resolved: %s", short(in.String(), 200))
	}
	return c.recover(func(w *eng.Term) *eng.Term { return eng.Inst(in.Args()[1], w) }, inputs, ck)
}

func levelUnits(w *eng.World, name string, run func(c *Ctx, r *Rep), pkgs ...string) []Unit {
	var us []Unit
	for _, lv := range levels(w) {
		lv := lv
		us = append(us, Unit{name + "/" + lv.Name, func(w *eng.World, r *Rep) {
			c := NewCtx(w, lv, pkgs...)
			run(c, r)
			r.note(c)
		}})
	}
	return us
}

func init() {
	register(&Prop{
		ID:          "C01",
		Rule:        "For every security level, each gate's result ciphertext is computed as a closed-form term over the cells of arbitrary input ciphertexts (abstract interpretation of the gate down to blind rotation and key switching, which stay uninterpreted); the Boolean circuit of affine combinations and bootstrappings is read off the term and evaluated on all input values, with the decision margin of every bootstrapping.",
		Assumptions: []string{"blind rotation, sample extraction and key switching satisfy their own properties (C12, C14, C15)", "input ciphertexts encrypt +-1/8 with noise below the margin"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, g := range gateTable {
				g := g
				us = append(us, levelUnits(w, "gates."+g.name, func(c *Ctx, r *Rep) { checkGate(c, r, g) }, "gates")...)
			}
			us = append(us, levelUnits(w, "gates.Constant", checkConstant, "gates")...)
			return us
		},
	})
}

func checkGate(c *Ctx, r *Rep, g gate) {
	pbsModels(c)
	fn := c.W.Func("gates", g.name)
	if fn == nil {
		r.undecided("anchor", "gates."+g.name, "function not found")
		return
	}
	var args []eng.Value
	names := []string{"a", "b", "c"}
	var cells []input
	for i := 0; i < g.n; i++ {
		args = append(args, c.sym(names[i], "tlwe", "TLWELv0"))
		cells = append(cells, c.input(args[i]))
	}
	ckv := c.sym("ck", "cloudkey", "CloudKey")
	ck := c.ckTerms(ckv)
	if len(fn.Params) == g.n+1 {
		args = append(args, ckv)
	}
	res := c.call("gates", g.name, args...)
	c.problems(r, "gates."+g.name)
	r.ok("gate-no-panic", "gates."+g.name, len(c.X.Panics) == 0, "may panic: %v", c.X.Panics)
	c.gateResult(r, "gates."+g.name, res, cells, ck, g)
}

// gateResult checks that a result ciphertext decides the gate's function.
func (c *Ctx) gateResult(r *Rep, construct string, res eng.Value, cells []input, ck *ckTerms, g gate, pc ...*eng.Term) {
	p := c.X.LoadField(c.St, res, "P")
	for _, q := range pc {
		p = c.X.Under(p, q)
	}
	n := eng.SliceLen(p)
	if n != nil {
		n = eng.Simplify(n, pc...)
	}
	if n == nil || !n.IsConst() || n.IVal() != c.N0+1 {
		r.ok("gate-shape", construct, false, "result has length %v, expected %d", n, c.N0+1)
		return
	}
	k, err := c.recover(func(w *eng.Term) *eng.Term { return eng.Simplify(c.X.ReadElem(c.St, p, w), pc...) }, cells, ck)
	if err != nil {
		r.ok("gate-circuit", construct, false, "%v", err)
		return
	}
	for m := 0; m < 1<<g.n; m++ {
		v := make([]bool, g.n)
		for i := range v {
			v[i] = m>>i&1 == 1
		}
		bad := ""
		ph := k.phase(v, &bad)
		want := int64(-1) << 29
		if g.f(v) {
			want = 1 << 29
		}
		d := ph - want
		if bad == "" && (d > 4 || d < -4) {
			bad = fmt.Sprintf("for inputs %v the result's phase is %d/2^32, expected %d/2^32", v, ph, want)
		}
		r.ok("gate-truth-table", construct, bad == "", "%s", bad)
	}
}

func checkConstant(c *Ctx, r *Rep) {
	for _, b := range []bool{true, false} {
		res := c.call("gates", "Constant", eng.Bool(b))
		c.problems(r, "gates.Constant")
		b := b
		c.gateResult(r, "gates.Constant", res, nil, nil, gate{"Constant", 0, func([]bool) bool { return b }})
	}
}

func lastPart(s string) string {
	if len(s) > 700 {
		return "..." + s[len(s)-700:]
	}
	return s
}
