package eng

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Equal decides that two terms agree under the given conditions. Beyond identical normal forms it
// opens binders and distinguishes the cases of conditional terms, discarding contradictory cases.
// A false answer means "not shown".
func Equal(a, b *Term, pc ...*Term) bool {
	e := &eqr{budget: 20000}
	return e.eq(a, b, pc, 0)
}

type eqr struct{ budget int }

// DebugEq prints the innermost comparisons that failed.
var DebugEq bool

func (e *eqr) eq(a, b *Term, pc []*Term, depth int) bool {
	r := e.eq0(a, b, pc, depth)
	if !r && DebugEq {
		fmt.Printf("EQ %*s%d %s\n  %*s== %s\n   pc %v\n", depth, "", e.budget, cut(a.String()), depth, "", cut(b.String()), cut(fmt.Sprint(pc)))
	}
	return r
}

func cut(s string) string {
	if len(s) > 400 {
		return s[:400]
	}
	return s
}

func (e *eqr) eq0(a, b *Term, pc []*Term, depth int) bool {
	e.budget--
	if e.budget < 0 || depth > 60 {
		return false
	}
	if a.ty != b.ty {
		return false
	}
	if Same(a, b) {
		return true
	}
	if a.ty == TI64 && len(pc) > 0 && Unsat(append(append([]*Term(nil), pc...), Not(Eq(a, b)))...) {
		return true
	}
	// a case distinction visible at this level
	if c := splitOn(a, b); c != nil {
		for _, v := range []bool{true, false} {
			l := c
			if !v {
				l = Not(c)
			}
			npc := append(append([]*Term(nil), pc...), l)
			if Unsat(npc...) {
				continue
			}
			na, nb := applyCase(a, c, v), applyCase(b, c, v)
			if f := eqSubst(l); f != nil {
				na, nb = f(na), f(nb)
				for i := range npc {
					if npc[i] != l {
						npc[i] = f(npc[i])
					}
				}
				if Unsat(npc...) {
					continue
				}
			}
			if !e.eq(na, nb, npc, depth+1) {
				return false
			}
		}
		return true
	}
	if a.ty == TBool {
		return Unsat(append(append([]*Term(nil), pc...), a, Not(b))...) && Unsat(append(append([]*Term(nil), pc...), Not(a), b)...)
	}
	if a.op == OPoly || b.op == OPoly {
		return e.eqPoly(a, b, pc, depth)
	}
	if a.op == ORec && b.op == ORec {
		return e.eqRec(a, b, pc, depth)
	}
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) || a.iv != b.iv {
		return false
	}
	switch a.op {
	case OSum:
		if !Same(a.args[0], b.args[0]) {
			return false
		}
		w := NewVar("s", 0, boundHi(a.args[0]))
		return e.eq(Inst(a.args[1], w), Inst(b.args[1], w), append(append([]*Term(nil), pc...), Lt(w, a.args[0])), depth+1)
	case OFn:
		if a.name == "arr" {
			if !Same(a.args[0], b.args[0]) {
				return false
			}
			w := NewVar("a", 0, boundHi(a.args[0]))
			return e.eq(Inst(a.args[1], w), Inst(b.args[1], w), append(append([]*Term(nil), pc...), Lt(w, a.args[0])), depth+1)
		}
		if a.name == "cmul" && len(a.args) == 3 {
			if !Same(a.args[2], b.args[2]) {
				return false
			}
			return e.eq(a.args[0], b.args[0], pc, depth+1) && e.eq(a.args[1], b.args[1], pc, depth+1) ||
				e.eq(a.args[0], b.args[1], pc, depth+1) && e.eq(a.args[1], b.args[0], pc, depth+1)
		}
	case OConv, OShr, OShl, OBAnd, OBOr, OBXor, ODiv, ORem, OSel, OEq, OEq0, OLt, OLt0, ONot:
	case OLam:
		vs := make([]*Term, a.iv)
		for i := range vs {
			vs[i] = NewVar("l", -1<<62, 1<<62)
		}
		return e.eq(Inst(a, vs...), Inst(b, vs...), pc, depth+1)
	default:
		return false
	}
	for i := range a.args {
		if !e.eq(a.args[i], b.args[i], pc, depth+1) {
			return false
		}
	}
	return true
}

// eqPoly matches the monomials two sums do not share.
func (e *eqr) eqPoly(a, b *Term, pc []*Term, depth int) bool {
	if !a.ty.ring() {
		return false
	}
	d := Sub(a, b)
	if d.IsZero() {
		return true
	}
	if d.op != OPoly {
		return false
	}
	// pair monomials of opposite coefficient whose atoms are equal
	n := len(d.mon)
	if n%2 != 0 || n > 12 {
		return false
	}
	used := make([]bool, n)
	for i := 0; i < n; i++ {
		if used[i] {
			continue
		}
		used[i] = true
		ok := false
		for j := i + 1; j < n && !ok; j++ {
			if used[j] || len(d.mon[i].atoms) != len(d.mon[j].atoms) || len(d.mon[i].atoms) == 0 {
				continue
			}
			mi, mj := d.mon[i], d.mon[j]
			if a.ty == TF64 {
				if mi.cr == nil || mj.cr == nil || mi.cr.Cmp(new(big.Rat).Neg(mj.cr)) != 0 {
					continue
				}
			} else if wrap(a.ty, mi.ci+mj.ci) != 0 {
				continue
			}
			if e.atomsEq(mi.atoms, mj.atoms, pc, depth) {
				used[j] = true
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (e *eqr) atomsEq(a, b []*Term, pc []*Term, depth int) bool {
	used := make([]bool, len(b))
	for _, x := range a {
		ok := false
		for j, y := range b {
			if !used[j] && e.eq(x, y, pc, depth+1) {
				used[j] = true
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// splitOn finds the condition of a conditional outside any binder.
func splitOn(ts ...*Term) *Term {
	seen := map[int]bool{}
	var best *Term
	var rec func(t *Term, depth int)
	rec = func(t *Term, depth int) {
		if best != nil || seen[t.id] || depth > 6 || t.bv > 0 {
			return
		}
		seen[t.id] = true
		switch t.op {
		case OIte:
			c := t.args[0]
			for c.op == ONot || c.op == OAnd || c.op == OIte {
				c = c.args[0]
			}
			best = c
			return
		case OLam, OSum, ORec:
			return
		case OFn:
			if t.name == "arr" {
				return
			}
		}
		for _, a := range t.args {
			rec(a, depth+1)
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				rec(a, depth+1)
			}
		}
	}
	for _, t := range ts {
		rec(t, 0)
	}
	return best
}

// applyCase simplifies t where the literal c has truth value v, including inside binders.
func applyCase(t, c *Term, v bool) *Term {
	memo := map[int]*Term{}
	l := c
	if !v {
		l = Not(c)
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == c {
			return Bool(v)
		}
		if len(t.args) == 0 && len(t.mon) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		if t.ty == TBool && t.bv == 0 && (t.op == OLt0 || t.op == OEq0 || t.op == OLt || t.op == OEq) {
			if Unsat(l, t) {
				memo[t.id] = False()
				return False()
			}
			if Unsat(l, Not(t)) {
				memo[t.id] = True()
				return True()
			}
		}
		r := Rebuild(t, func(a *Term, d int) *Term {
			if d > 0 && a.bv > 0 {
				return a
			}
			return rec(a)
		})
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// eqSubst turns an equation a case assumes into a substitution.
func eqSubst(l *Term) func(t *Term) *Term {
	if l.op != OEq0 {
		return nil
	}
	d := l.args[0]
	for _, id := range d.fv {
		v := varByID(d, id)
		if v == nil {
			continue
		}
		k, rest, ok := Linear(d, v)
		if !ok || (k != 1 && k != -1) {
			continue
		}
		e := rest
		if k == 1 {
			e = Neg(rest)
		}
		m := map[int32]*Term{id: e}
		return func(t *Term) *Term { return Subst(t, m) }
	}
	if d.ty != TI64 {
		return nil
	}
	// an atom determined by the others
	for _, m := range d.monos() {
		if len(m.atoms) != 1 || (m.ci != 1 && m.ci != -1) || m.atoms[0].bv > 0 {
			continue
		}
		at := m.atoms[0]
		e := Sub(d, mkPoly(TI64, []mono{m}))
		if m.ci == 1 {
			e = Neg(e)
		}
		if len(Atoms(e, func(x *Term) bool { return x == at })) > 0 {
			continue
		}
		memo := map[int]*Term{}
		var rec func(t *Term) *Term
		rec = func(t *Term) *Term {
			if t == at {
				return e
			}
			if len(t.args) == 0 && len(t.mon) == 0 {
				return t
			}
			if r, ok := memo[t.id]; ok {
				return r
			}
			r := Rebuild(t, func(a *Term, d int) *Term { return rec(a) })
			memo[t.id] = r
			return r
		}
		return rec
	}
	return nil
}

func varByID(t *Term, id int32) *Term {
	as := Atoms(t, func(x *Term) bool { return x.op == OVar && len(x.fv) == 1 && x.fv[0] == id })
	if len(as) == 0 {
		return nil
	}
	return as[0]
}

// recParts splits a recurrence into its level, the number of index arguments and the index ranges
// of its components.
func recParts(t *Term) (lvl, nj int, hi [][]int64) {
	ps := strings.Split(t.name, ";")
	fmt.Sscanf(ps[0], "%d:%d", &lvl, &nj)
	for _, p := range ps[1:] {
		var h []int64
		for _, f := range strings.Fields(p) {
			k, _ := strconv.ParseInt(f, 10, 64)
			if k < 0 {
				k = 1 << 60
			}
			h = append(h, k)
		}
		hi = append(hi, h)
	}
	return
}

var recMatch int

// eqRec matches two systems of recurrences component by component (in any order): equal initial
// values, and equal steps provided the components were equal before the step.
func (e *eqr) eqRec(a, b *Term, pc []*Term, depth int) bool {
	la, nja, ha := recParts(a)
	lb, njb, hb := recParts(b)
	if nja != njb || len(ha) != len(hb) || a.ty != b.ty {
		return false
	}
	for i := 0; i <= nja; i++ {
		if !e.eq(a.args[i], b.args[i], pc, depth+1) {
			return false
		}
	}
	ca, cb := a.args[1+nja:], b.args[1+nja:]
	n := len(ha)
	if len(ca) != 2*n || len(cb) != 2*n {
		return false
	}
	cells := make([][]*Term, n)
	rng := make([][]*Term, n)
	for i := range cells {
		for _, h := range ha[i] {
			v := NewVar("r", 0, h+1)
			cells[i] = append(cells[i], v)
		}
	}
	v := NewVar("v", 0, boundHi(a.args[0]))
	npc := append(append([]*Term(nil), pc...), Lt(v, a.args[0]))
	_ = rng
	recMatch++
	id := recMatch
	inst := func(ps []*Term, i int, step bool, xs []*Term, ren map[string]string) *Term {
		l := ps[2*i]
		as := xs
		if step {
			l = ps[2*i+1]
			as = append([]*Term{v}, xs...)
		}
		if int(l.iv) != len(as) {
			return nil
		}
		t := Inst(l, as...)
		if ren != nil {
			t = renSel(t, ren, map[int]*Term{})
		}
		return t
	}
	m := make([]int, n) // component of a -> component of b
	used := make([]bool, n)
	memo := map[[2]int]bool{}
	done := map[[2]int]bool{}
	initEq := func(i, j int) bool {
		k := [2]int{i, j}
		if done[k] {
			return memo[k]
		}
		done[k] = true
		if len(ha[i]) != len(hb[j]) {
			return false
		}
		for x := range ha[i] {
			if ha[i][x] != hb[j][x] {
				return false
			}
		}
		p, q := inst(ca, i, false, cells[i], nil), inst(cb, j, false, cells[i], nil)
		memo[k] = p != nil && q != nil && e.eq(p, q, pc, depth+1)
		return memo[k]
	}
	steps := func() bool {
		ra, rb := map[string]string{}, map[string]string{}
		for i := range m {
			nm := fmt.Sprintf("ρm%d_%d", id, i)
			ra[fmt.Sprintf("ρ%d_%d", la, i)] = nm
			rb[fmt.Sprintf("ρ%d_%d", lb, m[i])] = nm
		}
		for i := range m {
			p, q := inst(ca, i, true, cells[i], ra), inst(cb, m[i], true, cells[i], rb)
			if p == nil || q == nil || !e.eq(p, q, npc, depth+1) {
				return false
			}
		}
		return true
	}
	var try func(i int) bool
	try = func(i int) bool {
		if i == n {
			return steps()
		}
		for j := 0; j < n; j++ {
			if used[j] || (i == int(a.iv)) != (j == int(b.iv)) || !initEq(i, j) {
				continue
			}
			used[j] = true
			m[i] = j
			if try(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return try(0)
}

// renSel renames placeholder arrays.
func renSel(t *Term, m map[string]string, memo map[int]*Term) *Term {
	if len(t.args) == 0 && len(t.mon) == 0 && t.op != OSel {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	f := func(a *Term, d int) *Term { return renSel(a, m, memo) }
	var r *Term
	if nm, ok := m[t.name]; ok && t.op == OSel {
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a, 0)
		}
		r = intern(&Term{op: OSel, ty: t.ty, name: nm, args: as})
	} else {
		r = Rebuild(t, f)
	}
	memo[t.id] = r
	return r
}
