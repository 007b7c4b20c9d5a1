package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"vtool/eng"
)

// spawning lists the functions of the repository that start goroutines.
func spawning(w *eng.World) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Go:
					r[f] = true
				case ssa.CallInstruction:
					if c := i.Common().StaticCallee(); c != nil && c.String() == "(*sync.WaitGroup).Go" {
						r[f] = true
					}
				}
			}
		}
	}
	return r
}

// calls lists what a function may call or create (static callees and closures).
func callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if i, ok := in.(ssa.CallInstruction); ok {
				if c := i.Common().StaticCallee(); c != nil {
					r = append(r, c)
				}
			}
			for _, op := range in.Operands(nil) {
				if op != nil {
					if c, ok := (*op).(*ssa.Function); ok {
						r = append(r, c)
					}
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, m.Fn.(*ssa.Function))
			}
		}
	}
	return r
}

// concRoots lists the exported functions from which a goroutine start is reachable.
func concRoots(w *eng.World) (roots []*ssa.Function, sites int) {
	sp := spawning(w)
	memo := map[*ssa.Function]int{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if sp[f] {
			return true
		}
		if memo[f] != 0 {
			return memo[f] == 2
		}
		memo[f] = 1
		for _, c := range callees(f) {
			if w.InRepo(c) && reach(c) {
				memo[f] = 2
				return true
			}
		}
		return false
	}
	for _, f := range w.Exported() {
		if reach(f) {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	return roots, len(sp)
}

func init() {
	register(&Prop{
		ID:          "C03",
		Rule:        "Every exported function from which a goroutine start is reachable is analysed with arbitrary inputs; every memory access of every goroutine and of the caller is recorded with symbolic indices over one generic iteration of every loop. Obligations: each goroutine is counted before it starts and signals completion exactly once as its last effect; every wait matches the starts and every goroutine is waited for on return; no two accesses that may run at the same time touch the same cell with one writing; nothing is used after it was handed back to a pool.",
		Assumptions: []string{"the memory given to an operation by its caller is not aliased between distinct parameters", "the Fourier transforms touch only their arguments and the evaluator's own buffers"},
		Min:         20,
		Units: func(w *eng.World) []Unit {
			var us []Unit
			roots, _ := concRoots(w)
			for _, f := range roots {
				f := f
				pk := f.Pkg.Pkg.Name()
				us = append(us, levelUnits(w, pk+"."+f.Name(), func(c *Ctx, r *Rep) { checkConc(c, r, f) }, "gates", "trgsw")...)
			}
			return us
		},
	})
}

func checkConc(c *Ctx, r *Rep, f *ssa.Function) {
	name := f.Pkg.Pkg.Name() + "." + f.Name()
	fourierModels(c.X)
	c.X.Conc = true
	var args []eng.Value
	for _, p := range f.Params {
		args = append(args, c.arg(p.Name(), p.Type()))
	}
	c.X.Ev = nil
	res, ns := c.X.Run(c.St, f, args...)
	if ns == nil {
		r.undecided("analysis", name, "does not return")
		return
	}
	c.St = ns
	c.problems(r, name)
	gos := c.joined(r, name)
	r.ok("goroutines-found", name, gos > 0, "no goroutine start was reached")
	if res != nil {
		s := c.X.Released(c.St, res)
		r.ok("no-use-after-release", name, s == "", "returns %s", s)
	}
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
