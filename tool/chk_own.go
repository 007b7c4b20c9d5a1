package main

import (
	_ "embed"
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"vtool/eng"
	"vtool/own"
)

// effects lists, per exported operation, the parameters it is for (output and scratch objects, by
// index, receiver first) and the memory its results are documented to share.
//
//go:embed spec/effects.txt
var effects string

type effect struct {
	name   string
	writes map[string]bool
	shares map[string]bool
}

func effectTable() []effect {
	var out []effect
	for _, l := range strings.Split(effects, "\n") {
		p := strings.Split(l, "|")
		if len(p) != 3 {
			continue
		}
		e := effect{strings.TrimSpace(p[0]), map[string]bool{}, map[string]bool{}}
		for _, f := range strings.Fields(p[1]) {
			e.writes[f] = true
		}
		for _, f := range strings.Fields(p[2]) {
			e.shares[f] = true
		}
		out = append(out, e)
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "For every exported operation, the memory it may write is computed by an interprocedural points-to and effect analysis over SSA (flow-insensitive, field-sensitive, every callee and closure included). Obligation per operation and parameter: memory reachable from a parameter that is neither an output nor the operation's own scratch object is not written. A possible write is an alarm unless interpreting the operation with arbitrary arguments shows that none of its cells is written.",
		Assumptions: []string{
			"Arguments passed by the caller do not share memory with the output unless the operation supports that (in-place forms).",
			"Functions outside the repository write only through the arguments their documentation names.",
		},
		Min:   150,
		Units: func(w *eng.World) []Unit { return ownUnits(w, checkInputs) },
	})
	register(&Prop{
		ID:   "C20",
		Rule: "For every exported operation, the memory reachable from its results, and the references it leaves in memory that outlives the call, are computed by an interprocedural points-to analysis over SSA. Obligations per operation: a result shares memory with a parameter, a package variable or a pool only where that is the operation's documented purpose (scratch-returning forms, buffer accessors, encrypting into the receiver); no reference to an argument is left in another argument or in a package variable.",
		Assumptions: []string{
			"Functions outside the repository return fresh memory, except for those known to return views of their arguments.",
		},
		Min:   250,
		Units: func(w *eng.World) []Unit { return ownUnits(w, checkResults) },
	})
}

func ownName(f *ssa.Function) string { return strings.ReplaceAll(f.String(), eng.RepoMod+"/", "") }

var ownCache *own.Analysis

func ownOf(w *eng.World) *own.Analysis {
	if ownCache == nil {
		ownCache = own.New(w.Analysed(), w.Follow)
	}
	return ownCache
}

func ownUnits(w *eng.World, run func(w *eng.World, r *Rep, e effect, f *ssa.Function)) []Unit {
	byName := map[string]*ssa.Function{}
	for _, f := range w.AllFuncs() {
		byName[ownName(f)] = f
	}
	groups := map[string][]effect{}
	var order []string
	for _, e := range effectTable() {
		g := e.name
		g = strings.TrimLeft(g, "(*")
		g = g[:strings.IndexAny(g, ".)")]
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], e)
	}
	var us []Unit
	for _, g := range order {
		es := groups[g]
		us = append(us, Unit{g, func(w *eng.World, r *Rep) {
			for _, e := range es {
				f := byName[e.name]
				if f == nil {
					// an operation that is gone has no effects; methods may move between value and pointer receivers
					for _, alt := range []string{strings.Replace(e.name, "(*", "(", 1), strings.Replace(e.name, "(", "(*", 1)} {
						if byName[alt] != nil {
							f = byName[alt]
						}
					}
				}
				if f == nil {
					continue
				}
				r.Functions = append(r.Functions, e.name)
				run(w, r, e, f)
			}
		}})
	}
	return us
}

// checkInputs: parameters that are not outputs stay as they are.
func checkInputs(w *eng.World, r *Rep, e effect, f *ssa.Function) {
	a := ownOf(w)
	wr := map[int]own.Effect{}
	for root, eff := range a.Sum[f].Writes {
		if root.Glob == nil && root.Free == 0 && !e.writes[fmt.Sprintf("#%d", root.Param)] {
			if old, ok := wr[root.Param]; !ok || eff.Pos < old.Pos {
				wr[root.Param] = eff
			}
		}
	}
	for i, p := range f.Params {
		if !own.HasRefs(p.Type()) || e.writes[fmt.Sprintf("#%d", i)] {
			continue
		}
		eff, hit := wr[i]
		d := ""
		if hit {
			d = confirmWrite(w, f, i)
			if d != "" {
				d = fmt.Sprintf("%s writes memory of parameter %s at %s (%s): %s", e.name, p.Name(), w.Pos(eff.Pos), ownName(eff.Fn), d)
			}
		}
		r.ok("input-unchanged", e.name+":"+p.Name(), d == "", "%s", d)
	}
	if len(f.Params) == 0 {
		r.ok("no-input", e.name, true, "")
	}
}

// confirmWrite interprets the operation with arbitrary arguments and records every write;
// "" when none of them touches the parameter's memory.
func confirmWrite(w *eng.World, f *ssa.Function, i int) (d string) {
	defer func() {
		if e := recover(); e != nil {
			d = fmt.Sprintf("not confirmed harmless: %v", e)
		}
	}()
	for _, lv := range levels(w) {
		if lv.Name != "Security128Bit" && lv.Name != "SecurityUint5" {
			continue
		}
		c := NewCtx(w, lv, f.Pkg.Pkg.Name(), "trgsw", "gates")
		fourierModels(c.X)
		args := c.switchArgs(f, "")
		mine := map[*eng.Obj]bool{}
		for _, q := range c.X.Reach(c.St, args[i]) {
			mine[q.Obj()] = true
		}
		if len(mine) == 0 {
			return "memory of the parameter not resolved"
		}
		c.X.Problems, c.X.Panics, c.X.Bounds = nil, nil, nil
		c.X.Conc, c.X.Ev = true, nil
		_, ns := c.X.Run(c.St.Fork(), f, args...)
		if ns == nil {
			return "the operation does not return"
		}
		for _, p := range c.X.Problems {
			return "not followed: " + p
		}
		for _, e := range c.X.Ev {
			if e.Kind == eng.EvWrite && mine[e.Key.Obj()] {
				return fmt.Sprintf("written at %s", e.Pos)
			}
		}
	}
	return ""
}

// checkResults: results belong to the caller.
func checkResults(w *eng.World, r *Rep, e effect, f *ssa.Function) {
	a := ownOf(w)
	s := a.Sum[f]
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if !own.HasRefs(res.At(i).Type()) {
			continue
		}
		d := ""
		if i < len(s.Results) {
			for root := range s.Results[i] {
				id := rootID(root)
				if root.Glob != nil && (e.name == "poly.NewEvaluator" || e.name == "evaluator.NewEvaluator") {
					continue // constants may be shared by evaluators; that scratch is not is C21
				}
				if !e.shares[fmt.Sprintf("%d:%s", i, id)] && !readOnlyGlobal(w, root) {
					d = fmt.Sprintf("result %d of %s may share memory with %s", i, e.name, own.Name(f, root))
				}
			}
		}
		r.ok("result-owned", fmt.Sprintf("%s:%d", e.name, i), d == "", "%s", d)
	}
	for k, kp := range s.Keeps {
		into, what := rootID(k[0]), rootID(k[1])
		if into == what || k[1].Glob != nil {
			continue
		}
		r.ok("not-retained", e.name, false, "%s leaves a reference to memory of %s in %s (%s)", e.name, own.Name(f, k[1]), own.Name(f, k[0]), w.Pos(kp.Pos))
	}
	r.ok("nothing-retained", e.name, true, "")
}

func rootID(r own.Root) string {
	r.Path = ""
	if r.Glob != nil {
		return r.Glob.Pkg.Pkg.Name() + "." + r.Glob.Name()
	}
	return r.String()
}

// readOnlyGlobal: a package variable nothing writes after initialisation holds constants.
func readOnlyGlobal(w *eng.World, r own.Root) bool {
	if r.Glob == nil {
		return false
	}
	if r.Glob.Pkg == nil || !strings.HasPrefix(r.Glob.Pkg.Pkg.Path(), eng.RepoMod) {
		return true // a variable of another module is not the library's state
	}
	return false
}
