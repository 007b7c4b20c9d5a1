package eng

import (
	"math"
	"sort"
)

// Same decides equality of two terms beyond identity of their normal forms: binders are opened with
// ranged variables, equal recurrences are matched component by component.
func Same(a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = Normalize(a), Normalize(b)
	if a == b {
		return true
	}
	if a.ty.ring() && a.ty == b.ty {
		// cancel the common monomials
		d := Sub(a, b)
		if d.IsZero() {
			return true
		}
	}
	return false
}

// Normalize re-normalises a term with ranged binders.
func Normalize(t *Term) *Term { return normRec(t, map[int]*Term{}) }

func normRec(t *Term, memo map[int]*Term) *Term {
	if len(t.args) == 0 && len(t.mon) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == OSum && t.bv == 0:
		n := normRec(t.args[0], memo)
		w := NewVar("s", 0, boundHi(n))
		r = Sum(n, Lam([]*Term{w}, normRec(Inst(t.args[1], w), map[int]*Term{})))
	case t.op == OFn && t.name == "arr" && t.bv == 0:
		n := normRec(t.args[0], memo)
		w := NewVar("a", 0, boundHi(n))
		r = ArrOf(n, w, normRec(Inst(t.args[1], w), map[int]*Term{}))
	case t.op == ORec && t.bv == 0:
		r = normRecur(t, memo)
	case t.op == OLam && t.bv == 0:
		vs := make([]*Term, t.iv)
		for i := range vs {
			vs[i] = NewVar("l", math.MinInt64, math.MaxInt64)
		}
		r = Lam(vs, normRec(Inst(t, vs...), map[int]*Term{}))
	case t.bv > 0:
		r = t
	case t.op == OIte && t.ty.isInt() && t.args[1].op == OConst && t.args[2].op == OConst:
		a, b := t.args[1], t.args[2]
		c := normRec(t.args[0], memo)
		if d := Sub(a, b); d.iv == 1 && b.iv == 0 || c.op == OConst {
			r = Ite(c, a, b)
		} else {
			r = Add(b, Mul(d, Ite(c, Int(t.ty, 1), Int(t.ty, 0))))
		}
	default:
		r = Rebuild(t, func(a *Term, d int) *Term { return normRec(a, memo) })
	}
	memo[t.id] = r
	return r
}

func normRecur(t *Term, memo map[int]*Term) *Term {
	as := make([]*Term, len(t.args))
	cnt := normRec(t.args[0], memo)
	for i, a := range t.args {
		if a.op != OLam {
			as[i] = normRec(a, memo)
			continue
		}
		vs := make([]*Term, a.iv)
		for k := range vs {
			vs[k] = NewVar("r", 0, math.MaxInt64)
		}
		_ = cnt
		as[i] = Lam(vs, normRec(Inst(a, vs...), map[int]*Term{}))
	}
	return intern(&Term{op: ORec, ty: t.ty, iv: t.iv, name: t.name, args: as})
}

// ArrOf is the array term whose element w (0<=w<n) is body.
func ArrOf(n, w, body *Term) *Term {
	return Fn("arr", TRef, n, Lam([]*Term{w}, body))
}

// Atoms lists the distinct subterms of t that satisfy p.
func Atoms(t *Term, p func(*Term) bool) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if p(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				rec(a)
			}
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// OuterAtoms lists the distinct outermost subterms of t that satisfy p.
func OuterAtoms(t *Term, p func(*Term) bool) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if p(t) {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				rec(a)
			}
		}
	}
	rec(t)
	return out
}

// Diff finds the innermost pair of differing subterms (debugging).
func Diff(a, b *Term) (*Term, *Term) {
	for {
		if a == b {
			return nil, nil
		}
		if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) || len(a.mon) != len(b.mon) {
			return a, b
		}
		if a.op == OLam && a.bv == 0 && a.iv == b.iv {
			vs := make([]*Term, a.iv)
			for i := range vs {
				vs[i] = NewVar("d", 0, 1<<40)
			}
			x, y := Inst(a, vs...), Inst(b, vs...)
			if x == y {
				return a, b
			}
			a, b = x, y
			continue
		}
		found := false
		for i := range a.args {
			if a.args[i] != b.args[i] {
				a, b = a.args[i], b.args[i]
				found = true
				break
			}
		}
		if found {
			continue
		}
		for i := range a.mon {
			if len(a.mon[i].atoms) != len(b.mon[i].atoms) {
				return a, b
			}
			for j := range a.mon[i].atoms {
				if a.mon[i].atoms[j] != b.mon[i].atoms[j] {
					a, b = a.mon[i].atoms[j], b.mon[i].atoms[j]
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			return a, b
		}
	}
}
