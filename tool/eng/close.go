package eng

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
)

// node is one loop-carried quantity: a scalar phi leaf or a memory key.
type node struct {
	leaf *leafInfo
	km   *keyMod
	mty  bool // memory closed by quantifying its writes
	bad  bool
	xs   *Upd // generic cell (vars, n, idx) for cell-wise closing
	step *Term
	self bool
	deps []int
	ids  map[int32]bool
	done bool
	// widen goes back from the cells written to all cells
	widen func()
	// value at the start of iteration v
	at        func(v *Term, x []*Term) *Term
	contentAt func(v *Term) *Content
}

func (nd *node) own() int32 {
	if nd.leaf != nil {
		return nd.leaf.own
	}
	return nd.km.own
}

func collectFV(v Value, ids map[int32]bool) {
	mapTerms(v, func(t *Term) *Term {
		for _, f := range t.fv {
			ids[f] = true
		}
		return t
	})
}

func updFV(u *Upd, ids map[int32]bool) {
	collectFV(u.val, ids)
	collectFV(u.guard, ids)
	for _, e := range u.idx {
		collectFV(e, ids)
	}
	for _, e := range u.n {
		if e != nil {
			collectFV(e, ids)
		}
	}
}

// close computes closed forms for everything the loop carries.
func (lc *loopCtx) close(v, T *Term, mod *modInfo, stB *State) func(k Key, v *Term) *Content {
	x := lc.x
	var nodes []*node
	byOwn := map[int32]int{}
	for _, p := range lc.phis {
		for _, l := range p.lv {
			if l.closed == nil {
				byOwn[l.own] = len(nodes)
				nodes = append(nodes, &node{leaf: l, step: l.next})
			}
		}
	}
	byKey := map[Key]int{}
	for _, k := range lc.modKeys(mod) {
		km := mod.keys[k]
		byOwn[km.own] = len(nodes)
		byKey[k] = len(nodes)
		nodes = append(nodes, &node{km: km})
	}
	fvOf := func(nd *node) map[int32]bool {
		ids := map[int32]bool{}
		if nd.km != nil && nd.mty {
			for _, u := range nd.km.patt {
				updFV(u, ids)
			}
		} else if nd.step != nil {
			collectFV(nd.step, ids)
		}
		return ids
	}
	setDeps := func(nd *node) {
		nd.ids = fvOf(nd)
		nd.deps = nil
		nd.self = false
		for id := range nd.ids {
			if j, ok := byOwn[id]; ok {
				if nodes[j] == nd {
					nd.self = true
				} else {
					nd.deps = append(nd.deps, j)
				}
			}
		}
		sort.Ints(nd.deps)
	}
	toG := func(nd *node) {
		nd.mty = false
		k := nd.km.key
		ty, ok := tyOf(pathType(k.obj, k.path))
		if !ok {
			nd.bad = true
			return
		}
		set := func(xs *Upd) bool {
			t, ok := x.read(nil, stB.get(k), xs.idx).(*Term)
			if !ok || t.ty != ty {
				nd.bad = true
				return false
			}
			nd.xs, nd.step = xs, alignSelf(t, nd.km.own, xs.idx, nil)
			return true
		}
		wide := x.allCells(k)
		narrow := narrowCells(wide, nd.km.patt, v, byOwn)
		if narrow != nil {
			nd.widen = func() {
				nd.widen = nil
				if set(wide) {
					nd.ids = fvOf(nd)
				}
			}
			set(narrow)
			return
		}
		set(wide)
	}
	ids0 := map[int32]bool{}
	for id := range byOwn {
		ids0[id] = true
	}
	for _, nd := range nodes {
		if nd.km != nil {
			nd.mty = x.mable(nd.km, v, ids0)
			if !nd.mty {
				toG(nd)
			}
		}
		setDeps(nd)
	}
	// strongly connected components; quantified memory cannot be part of a cycle
	var order [][]int
	for {
		order = sccs(nodes)
		again := false
		for _, c := range order {
			if len(c) > 1 {
				for _, i := range c {
					if nodes[i].km != nil && nodes[i].mty {
						toG(nodes[i])
						setDeps(nodes[i])
						again = true
					}
				}
			}
		}
		if !again {
			break
		}
	}
	// substitution of everything already closed, at iteration w
	env := func(w *Term, except map[int32]bool) (map[int32]*Term, map[int32]func([]*Term) *Term) {
		m := map[int32]*Term{}
		if w != v {
			m[v.VarID()] = w
		}
		sel := map[int32]func([]*Term) *Term{}
		for _, nd := range nodes {
			nd := nd
			if !nd.done || except[nd.own()] {
				continue
			}
			if nd.leaf != nil {
				m[nd.leaf.own] = nd.at(w, nil)
			} else {
				ty, _ := tyOf(pathType(nd.km.key.obj, nd.km.key.path))
				sel[nd.km.own] = func(J []*Term) *Term {
					if r, ok := x.read(nil, nd.contentAt(w), J).(*Term); ok {
						return r
					}
					return opaque("carried "+x.keyName(nd.km.key), ty)
				}
			}
		}
		return m, sel
	}
	lazyEnv := func(ids map[int32]bool, w *Term) (map[int32]*Term, map[int32]func([]*Term) *Term) {
		ex := map[int32]bool{}
		for _, nd := range nodes {
			if !ids[nd.own()] {
				ex[nd.own()] = true
			}
		}
		return env(w, ex)
	}
	for _, comp := range order {
		if len(comp) == 1 {
			nd := nodes[comp[0]]
			lc.closeOne(nd, v, lazyEnv)
			nd.done = true
			continue
		}
		lc.closeRec(nodes, comp, v, lazyEnv)
		for _, i := range comp {
			nodes[i].done = true
		}
	}
	for _, nd := range nodes {
		if nd.leaf != nil {
			nd := nd
			nd.leaf.closed = func(w *Term) *Term { return nd.at(w, nil) }
		}
	}
	cache := map[[2]int]*Content{}
	return func(k Key, w *Term) *Content {
		i := byKey[k]
		ck := [2]int{i, w.id}
		if c, ok := cache[ck]; ok {
			return c
		}
		c := nodes[i].contentAt(w)
		cache[ck] = c
		return c
	}
}

// mable decides whether the writes of all iterations can be quantified as they stand.
func (x *Interp) mable(km *keyMod, v *Term, ids0 map[int32]bool) bool {
	all0 := true
	for _, u := range km.patt {
		ids := map[int32]bool{}
		updFV(u, ids)
		if ids[km.own] {
			return false
		}
		for _, e := range u.idx {
			if e.HasFV(v.VarID()) {
				all0 = false
			}
		}
		if u.guard.HasFV(v.VarID()) {
			all0 = false
		}
		for _, e := range u.n {
			if e != nil && e.HasFV(v.VarID()) {
				all0 = false
			}
		}
	}
	if all0 {
		// the same cells every iteration: guards must not carry loop state
		for _, u := range km.patt {
			for _, f := range u.guard.fv {
				if ids0[f] {
					return false
				}
			}
			for _, e := range u.idx {
				for _, f := range e.fv {
					if ids0[f] {
						return false
					}
				}
			}
		}
		return true
	}
	var q []*Upd
	for _, u := range km.patt {
		g := quantify(u, v, v)
		J := make([]*Term, len(u.idx))
		ex := x.extents(km.key)
		for i := range J {
			hi := int64(1 << 62)
			if i < len(ex) && ex[i] != nil {
				if _, h := Bounds(ex[i]); h < inf {
					hi = h
				}
			}
			J[i] = NewVar("q", 0, hi)
		}
		_, sub, ok := match(g, J)
		if !ok {
			return false
		}
		_ = sub
		q = append(q, g)
	}
	// later iterations of an earlier write must not overtake a later write
	for i := range q {
		for j := i + 1; j < len(q); j++ {
			b := renUpd(km.patt[j], map[int32]*Term{v.VarID(): v})
			// exists v1 > v (iteration of b) with idxA(v1) = idxB(v)
			a := quantify(km.patt[i], v, nil)
			c, sub, ok := match(a, b.idx)
			if !ok {
				return false
			}
			if c.isFalse() {
				continue
			}
			v1 := sub[a.vars[0].VarID()]
			if v1 == nil {
				return false
			}
			if !And(c, Lt0(Sub(v, v1))).isFalse() {
				return false
			}
		}
	}
	return true
}

// quantify turns the write of iteration v into the writes of all iterations below n.
func quantify(u *Upd, v, n *Term) *Upd {
	w := NewVar(v.name, 0, v.hi)
	g := renUpd(u, map[int32]*Term{v.VarID(): w})
	g.vars = append([]*Term{w}, g.vars...)
	nn := n
	if n == nil {
		nn = I(v.hi)
	}
	g.n = append([]*Term{nn}, g.n...)
	return g
}

type envFn func(ids map[int32]bool, w *Term) (map[int32]*Term, map[int32]func([]*Term) *Term)

func (lc *loopCtx) closeOne(nd *node, v *Term, env envFn) {
	x := lc.x
	if nd.km != nil && nd.bad {
		nd.contentAt = func(w *Term) *Content {
			return x.opaqueContent(nd.km.key, lc.st0, "loop-carried memory "+x.keyName(nd.km.key))
		}
		return
	}
	if nd.km != nil && nd.mty {
		var gs []*Upd
		for _, u := range nd.km.patt {
			m, sel := env(nd.ids, v)
			f := func(t *Term) *Term { return SubstSel(t, m, sel) }
			g := &Upd{vars: u.vars, n: append([]*Term(nil), u.n...), guard: f(u.guard), val: mapTerms(u.val, f)}
			for _, e := range u.idx {
				g.idx = append(g.idx, f(e))
			}
			for i, e := range g.n {
				if e != nil {
					g.n[i] = f(e)
				}
			}
			gs = append(gs, g)
		}
		nd.contentAt = func(w *Term) *Content {
			c := nd.km.pre
			for _, g := range gs {
				c = c.push(quantify(g, v, w))
			}
			return c
		}
		return
	}
	ty := nd.step.ty
	var xs []*Term
	var selfT, init *Term
	if nd.leaf != nil {
		selfT, init = nd.leaf.ph, nd.leaf.init
	} else {
		xs = nd.xs.idx
		selfT = Sel(nd.km.name, ty, nd.km.own, xs...)
		if t, ok := x.read(nil, nd.km.pre, xs).(*Term); ok {
			init = t
		} else {
			init = opaque("initial "+x.keyName(nd.km.key), ty)
		}
	}
	val := func(body func(w *Term) *Term) {
		nd.at = func(w *Term, J []*Term) *Term {
			t := body(w)
			if len(xs) > 0 {
				m := map[int32]*Term{}
				for i := range xs {
					if xs[i].op == OVar && len(nd.xs.vars) == len(xs) {
						m[xs[i].VarID()] = J[i]
					}
				}
				t = Subst(t, m)
			}
			return t
		}
		if nd.km != nil {
			nd.contentAt = func(w *Term) *Content {
				u := *nd.xs
				u.val = body(w)
				return nd.km.pre.push(&u)
			}
		}
	}
	m, sel := env(nd.ids, v)
	if !nd.self {
		st := SubstSel(nd.step, m, sel)
		val(func(w *Term) *Term {
			if w.op == OConst && w.iv > 0 || (w.op != OConst && Lt0(Neg(w)).isTrue()) {
				return Subst(st, map[int32]*Term{v.VarID(): AddI(w, -1)})
			}
			return Ite(Lt0(Neg(w)), Subst(st, map[int32]*Term{v.VarID(): AddI(w, -1)}), init)
		})
		return
	}
	if ty.ring() {
		d := Sub(nd.step, selfT)
		if !d.HasFV(nd.own()) {
			d = SubstSel(d, m, sel)
			l := Lam([]*Term{v}, d)
			val(func(w *Term) *Term { return Add(init, Sum(w, l)) })
			return
		}
		// ite(c, self+g, self)-like forms are handled by Ite normalisation; modular counters:
		if s := nd.step; s.op == ORem && s.args[1].op == OConst && nd.leaf != nil {
			dd := Sub(s.args[0], selfT)
			if dd.op == OConst && dd.iv >= 0 {
				if lo, _ := Bounds(init); lo >= 0 {
					val(func(w *Term) *Term { return Rem(Add(init, Mul(dd, Conv(w, ty))), s.args[1]) })
					return
				}
			}
		}
	}
	lc.closeRec([]*node{nd}, []int{0}, v, env)
}

// recComp is one component of a recurrence system.
type recComp struct {
	own    int32
	scalar bool
	xs     []*Term
	init   *Term
	step   *Term // at iteration v, over the components' placeholders
	h      uint64
}

// mkRecs builds canonical recurrence terms; result i maps (count, indices) to the value of
// component i after count iterations.
func mkRecs(v *Term, cs []*recComp) []func(w *Term, J []*Term) *Term {
	lvl := 0
	anon := map[int32]bool{}
	for _, c := range cs {
		if l := recLevel(c.step); l > lvl {
			lvl = l
		}
		if l := recLevel(c.init); l > lvl {
			lvl = l
		}
		anon[c.own] = true
	}
	lvl++
	for _, c := range cs {
		m := map[int]uint64{}
		c.h = anonHash(Lam(append([]*Term{v}, c.xs...), c.step), anon, m)*31 + anonHash(Lam(c.xs, c.init), anon, m)
	}
	ord := append([]*recComp(nil), cs...)
	sort.SliceStable(ord, func(i, j int) bool { return ord[i].h < ord[j].h })
	m := map[int32]*Term{}
	sel := map[int32]func([]*Term) *Term{}
	pos := map[*recComp]int{}
	for j, c := range ord {
		pos[c] = j
		nm := fmt.Sprintf("ρ%d_%d", lvl, j)
		ty := c.step.ty
		if c.scalar {
			m[c.own] = Sel(nm, ty, 0)
		} else {
			sel[c.own] = func(J []*Term) *Term { return Sel(nm, ty, 0, J...) }
		}
	}
	var body []*Term
	rng := ""
	for _, c := range ord {
		rng += ";"
		for _, xv := range c.xs {
			_, hi := Bounds(xv)
			if hi >= inf {
				hi = -1
			}
			rng += fmt.Sprintf(" %d", hi)
		}
		body = append(body, Lam(c.xs, c.init), Lam(append([]*Term{v}, c.xs...), SubstSel(c.step, m, sel)))
	}
	var out []func(w *Term, J []*Term) *Term
	for _, c := range cs {
		j := pos[c]
		ty := c.step.ty
		out = append(out, func(w *Term, J []*Term) *Term {
			if w.op == OConst && w.iv == 0 {
				return Inst(body[2*j], J...)
			}
			args := append([]*Term{w}, J...)
			args = append(args, body...)
			return intern(&Term{op: ORec, ty: ty, iv: int64(j), name: fmt.Sprintf("%d:%d%s", lvl, len(J), rng), args: args})
		})
	}
	return out
}

// closeRec expresses a group of mutually dependent quantities as a recurrence term.
func (lc *loopCtx) closeRec(nodes []*node, comp []int, v *Term, env envFn) {
	x := lc.x
	var cs []*recComp
	for _, i := range comp {
		if nd := nodes[i]; nd.widen != nil {
			nd.widen()
		}
	}
	for _, i := range comp {
		nd := nodes[i]
		if nd.bad || nd.step == nil {
			// cannot be expressed: everything in the group is unknown
			for _, j := range comp {
				lc.giveUp(nodes[j])
			}
			return
		}
	}
	for _, i := range comp {
		nd := nodes[i]
		c := &recComp{own: nd.own(), scalar: nd.leaf != nil}
		m, sel := env(nd.ids, v)
		c.step = SubstSel(nd.step, m, sel)
		if nd.leaf != nil {
			c.init = nd.leaf.init
		} else {
			c.xs = nd.xs.idx
			if t, ok := x.read(nil, nd.km.pre, c.xs).(*Term); ok {
				c.init = t
			} else {
				c.init = opaque("initial "+x.keyName(nd.km.key), nd.step.ty)
			}
		}
		cs = append(cs, c)
	}
	fs := mkRecs(v, cs)
	for j, i := range comp {
		nd := nodes[i]
		mk := fs[j]
		nd.at = mk
		if nd.km != nil {
			nd.contentAt = func(w *Term) *Content {
				u := *nd.xs
				u.val = mk(w, nd.xs.idx)
				return nd.km.pre.push(&u)
			}
		}
	}
}

func (lc *loopCtx) giveUp(nd *node) {
	x := lc.x
	if nd.leaf != nil {
		o := opaque("loop-carried scalar in "+lc.name, nd.leaf.init.ty)
		nd.at = func(w *Term, J []*Term) *Term { return o }
		return
	}
	nd.contentAt = func(w *Term) *Content {
		return x.opaqueContent(nd.km.key, lc.st0, "loop-carried memory "+x.keyName(nd.km.key))
	}
	nd.at = func(w *Term, J []*Term) *Term { return opaque("loop-carried", nd.step.ty) }
}

func recLevel(t *Term) int {
	memo := map[int]int{}
	var rec func(t *Term) int
	rec = func(t *Term) int {
		if r, ok := memo[t.id]; ok {
			return r
		}
		l := 0
		if t.op == OSel && strings.HasPrefix(t.name, "ρ") {
			fmt.Sscanf(t.name, "ρ%d_", &l)
		}
		up := func(a *Term) {
			if k := rec(a); k > l {
				l = k
			}
		}
		for _, a := range t.args {
			up(a)
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				up(a)
			}
		}
		memo[t.id] = l
		return l
	}
	return rec(t)
}

// anonHash is a structural hash that ignores the identity of the given placeholders.
func anonHash(t *Term, anon map[int32]bool, memo map[int]uint64) uint64 {
	if h, ok := memo[t.id]; ok {
		return h
	}
	f := fnv.New64a()
	name := t.name
	if id, ok := ownIDs[t.name]; ok && anon[id] {
		name = "@"
	}
	rv := ""
	if t.rv != nil {
		rv = t.rv.String()
	}
	fmt.Fprintf(f, "%d|%d|%d|%s|%s", t.op, t.ty, t.iv, name, rv)
	var hs []uint64
	for _, a := range t.args {
		hs = append(hs, anonHash(a, anon, memo))
	}
	if t.op == OAnd {
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	}
	if t.op == OPoly {
		for _, m := range t.mon {
			g := fnv.New64a()
			var as []uint64
			for _, a := range m.atoms {
				as = append(as, anonHash(a, anon, memo))
			}
			sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
			if m.cr != nil {
				fmt.Fprintf(g, "%s", m.cr.String())
			} else {
				fmt.Fprintf(g, "%d", m.ci)
			}
			fmt.Fprint(g, as)
			hs = append(hs, g.Sum64())
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	}
	fmt.Fprint(f, hs)
	h := f.Sum64()
	memo[t.id] = h
	return h
}

// sccs returns the strongly connected components of the dependency graph, dependencies first.
func sccs(nodes []*node) [][]int {
	n := len(nodes)
	idx := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	for i := range idx {
		idx[i] = -1
	}
	var st []int
	cnt := 0
	var out [][]int
	var dfs func(u int)
	dfs = func(u int) {
		idx[u], low[u] = cnt, cnt
		cnt++
		st = append(st, u)
		on[u] = true
		for _, w := range nodes[u].deps {
			if idx[w] < 0 {
				dfs(w)
				if low[w] < low[u] {
					low[u] = low[w]
				}
			} else if on[w] && idx[w] < low[u] {
				low[u] = idx[w]
			}
		}
		if low[u] == idx[u] {
			var c []int
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == u {
					break
				}
			}
			sort.Ints(c)
			out = append(out, c)
		}
	}
	for i := 0; i < n; i++ {
		if idx[i] < 0 {
			dfs(i)
		}
	}
	return out
}

// alignSelf rewrites reads of the carried memory at indices that the surrounding conditions
// equate with the cell under consideration.
func alignSelf(t *Term, own int32, xs, lits []*Term) *Term {
	if !t.HasFV(own) {
		return t
	}
	switch t.op {
	case OIte:
		c := t.args[0]
		pos := append([]*Term(nil), lits...)
		if c.op == OAnd {
			pos = append(pos, c.args...)
		} else {
			pos = append(pos, c)
		}
		neg := lits
		if c.op == ONot {
			neg = append(append([]*Term(nil), lits...), c.args[0])
		}
		return Ite(c, alignSelf(t.args[1], own, xs, pos), alignSelf(t.args[2], own, xs, neg))
	case OPoly:
		return Rebuild(t, func(a *Term, d int) *Term {
			if d > 0 {
				return a
			}
			return alignSelf(a, own, xs, lits)
		})
	case OSel:
		if len(t.args) != len(xs) {
			return t
		}
		hit := false
		for _, f := range ownFV(t) {
			hit = hit || f == own
		}
		if !hit {
			return t
		}
		for k, j := range t.args {
			if j == xs[k] {
				continue
			}
			e := Eq(j, xs[k])
			found := false
			for _, l := range lits {
				found = found || l == e
			}
			if !found {
				return t
			}
		}
		return Sel(t.name, t.ty, own, xs...)
	}
	return t
}

// narrowCells restricts the generic cell in every dimension in which all writes use the same
// index, fixed throughout the loop.
func narrowCells(wide *Upd, patt []*Upd, v *Term, carried map[int32]int) *Upd {
	if len(patt) == 0 || len(wide.idx) < 2 {
		return nil
	}
	u := &Upd{guard: True()}
	hit := false
	for d, w := range wide.idx {
		var e *Term
		for k, p := range patt {
			if len(p.idx) != len(wide.idx) {
				return nil
			}
			if k == 0 {
				e = p.idx[d]
			} else if e != p.idx[d] {
				e = nil
			}
			if e == nil {
				break
			}
			for _, f := range e.fv {
				_, own := carried[f]
				if own || f == v.VarID() {
					e = nil
					break
				}
			}
			for _, q := range p.vars {
				if e != nil && e.HasFV(q.VarID()) {
					e = nil
				}
			}
			if e == nil {
				break
			}
		}
		if e != nil && e.op != OConst {
			hit = true
			u.idx = append(u.idx, e)
			continue
		}
		u.idx = append(u.idx, w)
		u.vars = append(u.vars, w)
		u.n = append(u.n, wide.n[d])
	}
	if !hit {
		return nil
	}
	return u
}
