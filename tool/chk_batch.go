package main

import (
	"go/types"

	"vtool/eng"
)

func init() {
	register(&Prop{
		ID:          "C02",
		Rule:        "For every security level, the result slice of each batch gate is computed as a closed-form term for an arbitrary batch length and a generic position i (abstract interpretation through the goroutines); the circuit of result i must be the gate applied to input pair i, the result has the length of the input, and the call joins every goroutine before returning.",
		Assumptions: []string{"blind rotation, sample extraction and key switching satisfy their own properties (C12, C14, C15)"},
		Min:         100,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			for _, g := range gateTable {
				g := g
				if w.Func("gates", "Batch"+g.name) == nil && g.name != "NAND" && g.name != "AND" && g.name != "OR" && g.name != "XOR" && g.name != "NOR" && g.name != "XNOR" {
					continue
				}
				us = append(us, levelUnits(w, "gates.Batch"+g.name, func(c *Ctx, r *Rep) { checkBatch(c, r, g) }, "gates")...)
			}
			return us
		},
	})
}

func checkBatch(c *Ctx, r *Rep, g gate) {
	name := "gates.Batch" + g.name
	pbsModels(c)
	fn := c.W.Func("gates", "Batch"+g.name)
	if fn == nil {
		r.undecided("anchor", name, "function not found")
		return
	}
	in := c.X.SymVal("inputs", fn.Params[0].Type())
	elem := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
	ptr := elem.Underlying().(*types.Array).Elem()
	ckv := c.sym("ck", "cloudkey", "CloudKey")
	ck := c.ckTerms(ckv)
	n := eng.SliceLen(in)
	i := eng.NewVar("i", 0, 1<<40)
	var cells []input
	for k := 0; k < g.n; k++ {
		p := c.X.Load(c.St, eng.Elem(eng.Elem(in, i), eng.I(int64(k))), ptr)
		cells = append(cells, c.input(p))
	}
	res := c.call("gates", "Batch"+g.name, in, ckv)
	c.problems(r, name)
	c.joined(r, name)
	rn := eng.SliceLen(res)
	if !r.ok("batch-length", name, rn != nil && eng.Equal(rn, n), "result has length %v, expected %v", rn, n) {
		return
	}
	rt := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	e := c.X.Load(c.St, eng.Elem(res, i), rt)
	e = c.X.Under(e, eng.Lt(i, n))
	c.gateResult(r, name, e, cells, ck, g, eng.Lt(i, n))
}

// joined checks the rules of concurrent execution on the events recorded so far.
func (c *Ctx) joined(r *Rep, name string) int {
	is, gos, pairs := c.X.CheckConc(c.St)
	r.ok("concurrency", name, len(is) == 0, "%d issues", len(is))
	r.Obligations += pairs
	for _, i := range is {
		r.ok(i.Rule, i.Fn, false, "%s: %s", i.Pos, i.Detail)
	}
	return gos
}
