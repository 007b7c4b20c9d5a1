package main

import (
	"fmt"
	"go/types"

	"vtool/eng"
	"vtool/lin"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "Per degree (polynomial evaluator, linear-form interpretation) and per security level (evaluator, closed-form interpretation): the memory reachable from an evaluator, its copy, a copy of the copy and a second new evaluator is enumerated, every operation is interpreted on each of them and its writes are recorded. Obligations: no operation writes memory another one reaches, or memory of a package variable; memory handed out as a writable buffer is not shared either; every operation on a copy with arbitrary scratch contents yields the reference result; four consecutive buffers of a rotating pool are disjoint from every position, and the memory of a returned result is not written by the next three operations of any kind.",
		Assumptions: []string{
			"The Fourier transform is an uninterpreted function for the evaluator part (C18, C23 decide it).",
			"A copy is made and used at the level in force when its original was made.",
		},
		Min: 200,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, n := range []int{16, 64, 1024, 2048} {
				n := n
				us = append(us, Unit{fmt.Sprintf("polynomial evaluator %d", n), func(w *eng.World, r *Rep) { checkPolyCopies(w, r, n) }})
			}
			us = append(us, levelUnits(w, "copies", checkCopies, "trgsw", "gates")...)
			us = append(us, levelUnits(w, "results", checkResultPool, "trgsw", "gates")...)
			for _, k := range []string{"external", "cmux", "blindrotate", "bootstrap"} {
				k := k
				us = append(us, levelUnits(w, "copy."+k, func(c *Ctx, r *Rep) { c.copies = true; checkPBS(c, r, k) }, "trgsw", "gates")...)
			}
			return us
		},
	})
}

// checkPolyCopies: polynomial evaluators and their copies are independent.
func checkPolyCopies(w *eng.World, r *Rep, n int) {
	l := newL(w, r, n)
	if !l.evaluator() {
		return
	}
	evs := []lin.Value{l.ev}
	names := []string{"an evaluator"}
	add := func(name string, v lin.Value, ok bool) {
		if ok {
			evs, names = append(evs, v), append(names, name)
		}
	}
	cp := l.fn("Evaluator", "ShallowCopy")
	if cp != nil {
		v, ok := l.run("poly.Evaluator.ShallowCopy", cp, l.ev)
		add("its copy", v, ok)
		if ok {
			v, ok = l.run("poly.Evaluator.ShallowCopy", cp, v)
			add("the copy's copy", v, ok)
		}
	}
	v, ok := l.run("poly.NewEvaluator", l.fn("", "NewEvaluator"), int64(n))
	add("a second evaluator", v, ok)
	var reach []map[lin.Cell1]string
	for _, e := range evs {
		reach = append(reach, lin.Reach(e))
	}
	glob := l.x.Globals()
	hand := map[string]bool{"GetDecompBuffer": true, "GetDecompFFTBuffer": true, "GetRotationBuffer": true, "GetTRLWEBuffer": true, "PolyMulWithXK": true}
	mk := func(ctor string) lin.Value {
		v, ok := l.run("poly."+ctor, l.fn("", ctor), int64(n))
		if !ok || coefs(v) == nil {
			r.undecided("analysis", "poly."+ctor, "no polynomial")
			return nil
		}
		return v
	}
	p, q, o := mk("NewPoly"), mk("NewPoly"), mk("NewPoly")
	fa, fb, fo := mk("NewFourierPoly"), mk("NewFourierPoly"), mk("NewFourierPoly")
	if p == nil || q == nil || o == nil || fa == nil || fb == nil || fo == nil {
		return
	}
	for i, ev := range evs {
		done := map[string]bool{}
		each := func(name string, args ...lin.Value) {
			f := l.fn("Evaluator", name)
			if f == nil || len(f.Params) != len(args)+1 {
				return
			}
			l.x.Log = map[lin.Cell1]string{}
			res, ok := l.run("poly.Evaluator."+name, f, append([]lin.Value{ev}, args...)...)
			log := l.x.Log
			l.x.Log = nil
			if !ok {
				return
			}
			if hand[name] {
				for c := range lin.Reach(res) {
					if _, ok := log[c]; !ok {
						log[c] = "the caller, through the buffer handed out"
					}
				}
			}
			for c, pos := range log {
				for j := range evs {
					if path, hit := reach[j][c]; hit && j != i {
						r.ok("copies-independent", "poly.Evaluator."+name, false, "degree %d: used on %s, it writes memory %s reaches too (field path %s), at %s", n, names[i], names[j], path, pos)
						return
					}
				}
				if path, hit := glob[c]; hit {
					r.ok("copies-independent", "poly.Evaluator."+name, false, "degree %d: it writes package variable %s, which every evaluator uses, at %s", n, path, pos)
					return
				}
			}
			if !done[name] {
				r.ok("copies-independent", fmt.Sprintf("poly.Evaluator.%s on %s", name, names[i]), true, "")
				done[name] = true
			}
		}
		l.allOps(each, p, q, o, fa, fb, fo)
	}
	// rotating pools
	pool := func(what string, next func() (lin.Value, bool), reset func()) {
		var seq []map[lin.Cell1]string
		for k := 0; k < 13; k++ {
			if k == 9 && reset != nil {
				reset()
				seq = nil
			}
			v, ok := next()
			if !ok {
				return
			}
			cells := lin.Reach(v)
			if t, isT := v.(lin.Tuple); isT && len(t) == 2 {
				a, b := lin.Reach(t[0]), lin.Reach(t[1])
				for c := range a {
					if _, hit := b[c]; hit {
						r.ok("pool-rotation", what, false, "degree %d: the two buffers handed out together share memory", n)
						return
					}
				}
			}
			for d := 1; d <= 3 && d <= len(seq); d++ {
				for c := range cells {
					if _, hit := seq[len(seq)-d][c]; hit {
						r.ok("pool-rotation", what, false, "degree %d: request %d hands out memory handed out %d requests before", n, k, d)
						return
					}
				}
			}
			seq = append(seq, cells)
		}
		r.ok("pool-rotation", what, true, "")
	}
	meth := func(typ, name string, recv lin.Value) func() (lin.Value, bool) {
		f := l.fn(typ, name)
		if f == nil {
			return nil
		}
		return func() (lin.Value, bool) { return l.run("poly."+typ+"."+name, f, recv) }
	}
	do := func(typ string, recv lin.Value, name, reset string) {
		next := meth(typ, name, recv)
		if next == nil {
			return
		}
		var rs func()
		if m := meth(typ, reset, recv); m != nil {
			rs = func() { m() }
		}
		pool("poly."+typ+"."+name, next, rs)
	}
	for _, ev := range evs {
		do("Evaluator", ev, "GetRotationBuffer", "ResetRotationPool")
		do("Evaluator", ev, "GetTRLWEBuffer", "ResetTRLWEPool")
		if f := l.fn("Evaluator", "PolyMulWithXK"); f != nil {
			pool("poly.Evaluator.PolyMulWithXK", func() (lin.Value, bool) {
				return l.run("poly.Evaluator.PolyMulWithXK", f, ev, coefs(p), int64(3))
			}, nil)
		}
	}
	if f := l.fn("", "NewBufferManager"); f != nil {
		if bm, ok := l.run("poly.NewBufferManager", f, int64(n)); ok {
			do("BufferManager", bm, "GetRotationBuffer", "Reset")
			do("BufferManager", bm, "GetTRLWEBuffer", "Reset")
		}
	}
	l.note()
}

// region is a set of objects, with family indices.
type region []*eng.Ptr

func overlap(fam, idx []*eng.Term) bool {
	for i := range fam {
		if i < len(idx) && eng.Distinct(fam[i], idx[i]) {
			return false
		}
	}
	return true
}

func (a region) touches(o *eng.Obj, idx []*eng.Term) bool {
	for _, p := range a {
		if p.Obj() == o && overlap(p.Fam(), idx) {
			return true
		}
	}
	return false
}

type evOp struct {
	name string
	run  func(ev eng.Value) eng.Value
}

func (c *Ctx) evalOps() []evOp {
	off := eng.Sym("offset", eng.TU32)
	g := c.sym("g", "trgsw", "TRGSWLv1FFT")
	in0, in1, out := c.sym("in0", "trlwe", "TRLWELv1"), c.sym("in1", "trlwe", "TRLWELv1"), c.sym("out", "trlwe", "TRLWELv1")
	src, src2 := c.sym("src", "tlwe", "TLWELv0"), c.sym("src2", "tlwe", "TLWELv0")
	out0 := c.sym("out0", "tlwe", "TLWELv0")
	bsk, ksk := c.bsk("bsk"), c.ksk("ksk")
	lut := c.sym("lut", "lut", "LookUpTable")
	f := c.X.SymVal("f", intFunc())
	m := func(name string, args ...eng.Value) evOp {
		return evOp{name, func(ev eng.Value) eng.Value {
			return c.method("evaluator", "Evaluator", name, append([]eng.Value{ev}, args...)...)
		}}
	}
	return []evOp{
		m("Bootstrap", src, in0, bsk, ksk, off),
		m("BootstrapLUTTemp", src, lut, bsk, ksk, off),
		m("BootstrapLUT", src, lut, bsk, ksk, off),
		m("BootstrapFunc", src, f, eng.I(4), bsk, ksk, off),
		m("BootstrapAssign", src, in0, bsk, ksk, off, out0),
		m("BootstrapLUTAssign", src, lut, bsk, ksk, off, out0),
		m("BootstrapFuncAssign", src, f, eng.I(4), bsk, ksk, off, out0),
		m("BlindRotateAssign", src, in0, bsk, off, out),
		m("CMuxAssign", g, in0, in1, off, out),
		m("ExternalProductAssign", g, in0, off, out),
		m("PrepareAND", src, src2), m("PrepareNAND", src, src2), m("PrepareOR", src, src2), m("PrepareXOR", src, src2),
	}
}

func intFunc() *types.Signature {
	ti := types.Typ[types.Int]
	return types.NewSignature(nil, types.NewTuple(types.NewVar(0, nil, "x", ti)), types.NewTuple(types.NewVar(0, nil, "", ti)), false)
}

// logged runs an operation and returns its write events; the state advances.
func (c *Ctx) logged(r *Rep, what string, f func() eng.Value) (eng.Value, []*eng.Event, bool) {
	c.X.Problems, c.X.Panics, c.X.Bounds = nil, nil, nil
	c.bad = nil
	c.X.Conc, c.X.Ev = true, nil
	v := f()
	ev := c.X.Ev
	c.X.Conc, c.X.Ev = false, nil
	for _, b := range c.bad {
		r.undecided("analysis", what, "%s", b)
		return nil, nil, false
	}
	for _, p := range c.X.Problems {
		r.undecided("analysis", what, "%s", p)
		return nil, nil, false
	}
	return v, ev, true
}

func checkCopies(c *Ctx, r *Rep) {
	fourierModels(c.X)
	n := eng.I(c.N)
	evs := []eng.Value{c.call("evaluator", "NewEvaluator", n)}
	names := []string{"an evaluator", "its copy", "the copy's copy", "a second evaluator"}
	evs = append(evs, c.method("evaluator", "Evaluator", "ShallowCopy", evs[0]))
	evs = append(evs, c.method("evaluator", "Evaluator", "ShallowCopy", evs[1]))
	evs = append(evs, c.call("evaluator", "NewEvaluator", n))
	if len(c.bad) > 0 {
		r.undecided("analysis", "evaluator.Evaluator.ShallowCopy", "%s", c.bad[0])
		return
	}
	var reach []region
	for i, e := range evs {
		g := region(c.X.Reach(c.St, e))
		r.ok("memory-found", "evaluator.Evaluator ("+names[i]+")", len(g) >= 10, "only %d objects reachable", len(g))
		reach = append(reach, g)
	}
	// a workspace the user can reach through two of them is written through both
	for i := range evs {
		bad := ""
		for _, p := range reach[i] {
			t := types.TypeString(eng.ObjType(p.Obj()), func(p *types.Package) string { return p.Name() })
			switch t {
			case "poly.Evaluator", "poly.Decomposer", "poly.BufferManager", "evaluator.BufferPool", "evaluator.Evaluator":
				for j := range evs {
					if j != i && reach[j].touches(p.Obj(), p.Fam()) {
						bad = fmt.Sprintf("%s and %s use the same %s", names[i], names[j], t)
					}
				}
			}
		}
		r.ok("workspaces-distinct", "evaluator.Evaluator ("+names[i]+")", bad == "", "%s", bad)
	}
	ops := c.evalOps()
	base := c.St
	own := map[string]bool{"BlindRotateAssign": true, "CMuxAssign": true, "ExternalProductAssign": true}
	models := c.X.Models
	c.X.Models = map[string]eng.Model{}
	for k, m := range models {
		c.X.Models[k] = m
	}
	pbsModels(c)
	composed := c.X.Models
	for i, ev := range evs[:2] {
		for _, op := range ops {
			// what is built on blind rotation is interpreted down to it, blind rotation on its own
			c.X.Models = composed
			if own[op.name] {
				c.X.Models = models
			}
			c.St = base.Fork()
			what := "evaluator.Evaluator." + op.name
			_, log, ok := c.logged(r, what, func() eng.Value { return op.run(ev) })
			if !ok {
				continue
			}
			bad := ""
			for _, e := range log {
				if e.Kind != eng.EvWrite {
					continue
				}
				for j := range evs {
					if j != i && reach[j].touches(e.Key.Obj(), e.Idx) {
						bad = fmt.Sprintf("used on %s, it writes memory %s reaches too, at %s", names[i], names[j], e.Pos)
					}
				}
			}
			r.ok("copies-independent", what+" on "+names[i], bad == "", "%s", bad)
		}
	}
	r.note(c)
}

// checkResultPool: a returned result survives the next three operations.
func checkResultPool(c *Ctx, r *Rep) {
	fourierModels(c.X)
	pbsModels(c)
	n := eng.I(c.N)
	ev := c.call("evaluator", "NewEvaluator", n)
	ops := c.evalOps()
	base := c.St
	for start := 0; start < 4; start++ {
		for _, first := range ops[:4] {
			for k, next := range ops {
				if start > 0 && k >= 4 {
					break
				}
				c.St = base.Fork()
				ok := true
				for i := 0; i < start && ok; i++ {
					_, _, ok = c.logged(r, "evaluator.Evaluator."+ops[0].name, func() eng.Value { return ops[0].run(ev) })
				}
				if !ok {
					return
				}
				what := "evaluator.Evaluator." + first.name
				v, _, ok := c.logged(r, what, func() eng.Value { return first.run(ev) })
				if !ok {
					break
				}
				mem := region(c.X.Reach(c.St, v))
				bad := ""
				if len(mem) == 0 {
					bad = "result not resolved"
				}
				for k := 1; k <= 3 && bad == ""; k++ {
					_, log, ok := c.logged(r, "evaluator.Evaluator."+next.name, func() eng.Value { return next.run(ev) })
					if !ok {
						return
					}
					for _, e := range log {
						if e.Kind == eng.EvWrite && mem.touches(e.Key.Obj(), e.Idx) {
							bad = fmt.Sprintf("its result is overwritten by call %d of %s after it, at %s (result slot %d)", k, next.name, e.Pos, start)
						}
					}
				}
				r.ok("result-intact", fmt.Sprintf("%s then %s (slot %d)", what, next.name, start), bad == "", "%s", bad)
			}
		}
	}
	r.note(c)
}
