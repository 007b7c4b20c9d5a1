package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"go/token"
	"golang.org/x/tools/go/ssa"
)

// UnrollMax is the largest constant trip count analysed iteration by iteration.
var UnrollMax = 40

// workMax bounds the basic blocks analysed while a loop is taken iteration by iteration.
const workMax = 60000

// modInfo describes the memory a loop modifies, as known to the current pass.
type modInfo struct {
	v    *Term
	keys map[Key]*keyMod
	used map[Key]bool
}

type keyMod struct {
	key  Key
	pre  *Content
	own  int32
	name string
	patt []*Upd // writes of one iteration, oldest first, in terms of v
	ok   bool   // patt are plain enough to be used
}

var phSeq int

func newPlaceholder(prefix string) (string, int32) {
	phSeq++
	n := fmt.Sprintf("%%%s%d", prefix, phSeq)
	id := newFV()
	ownIDs[n] = id
	return n, id
}

// hasPH reports whether a loop placeholder occurs in t.
func hasPH(t *Term, ids map[int32]bool) bool {
	for _, f := range t.fv {
		if ids[f] {
			return true
		}
	}
	return false
}

// readPrev reads the loop-entry content of the current iteration.
func (x *Interp) readPrev(st *State, r *Root, J []*Term) Value {
	m := r.mod
	km := m.keys[r.key]
	type cv struct {
		c *Term
		v Value
	}
	// newest write first
	for i := len(km.patt) - 1; i >= 0; i-- {
		u := km.patt[i]
		// an earlier iteration w < v wrote J?
		w := NewVar("w", 0, m.v.hi)
		ren := map[int32]*Term{m.v.VarID(): w}
		g := renUpd(u, ren)
		g.vars = append([]*Term{w}, g.vars...)
		g.n = append([]*Term{m.v}, g.n...)
		c, sub, ok := match(g, J)
		if ok {
			c = x.simp(st, c)
			if c.isFalse() {
				continue
			}
			if c.isTrue() && i == len(km.patt)-1 && km.injective(m.v) {
				// a unique earlier iteration wrote it
				if t, okk := g.val.(*Term); okk {
					if !hasPH(t, m.phIDs()) {
						return Subst(t, sub)
					}
				} else if !valHasPH(g.val, m.phIDs()) {
					return mapTerms(g.val, func(t *Term) *Term { return Subst(t, sub) })
				}
			}
		}
		m.used[r.key] = true
		if ty, ok := tyOf(r.typ); ok {
			return Sel(km.name, ty, km.own, J...)
		}
		return unk("loop-carried reference in %s", x.keyName(r.key))
	}
	return x.read(st, km.pre, J)
}

func (m *modInfo) phIDs() map[int32]bool {
	r := map[int32]bool{}
	for _, k := range m.keys {
		r[k.own] = true
	}
	return r
}

// injective: one write per iteration, each to its own cell.
func (km *keyMod) injective(v *Term) bool {
	if len(km.patt) != 1 {
		return false
	}
	u := km.patt[0]
	for _, e := range u.idx {
		if len(u.vars) == 0 {
			if c, _, ok := Linear(e, v); ok && c != 0 {
				return true
			}
		} else if e == v {
			return true
		}
	}
	return false
}

func valHasPH(v Value, ids map[int32]bool) bool {
	hit := false
	mapTerms(v, func(t *Term) *Term {
		if hasPH(t, ids) {
			hit = true
		}
		return t
	})
	return hit
}

func renUpd(u *Upd, ren map[int32]*Term) *Upd {
	// fresh bound variables as well
	n := &Upd{}
	m := map[int32]*Term{}
	for k, t := range ren {
		m[k] = t
	}
	for i, v := range u.vars {
		nv := NewVar(v.name, v.lo, v.hi)
		m[v.VarID()] = nv
		n.vars = append(n.vars, nv)
		if u.n[i] == nil {
			n.n = append(n.n, nil)
		} else {
			n.n = append(n.n, Subst(u.n[i], m))
		}
	}
	for _, e := range u.idx {
		n.idx = append(n.idx, Subst(e, m))
	}
	n.guard = Subst(u.guard, m)
	n.val = mapTerms(u.val, func(t *Term) *Term { return Subst(t, m) })
	return n
}

// canonUpd replaces bound variables by canonical ones so that updates compare by identity.
var canonVars []*Term

func canonUpd(u *Upd) *Upd {
	for len(canonVars) < len(u.vars) {
		canonVars = append(canonVars, NewVar("c", -1<<62, 1<<62))
	}
	if len(u.vars) == 0 {
		return u
	}
	m := map[int32]*Term{}
	n := &Upd{}
	for i, v := range u.vars {
		m[v.VarID()] = canonVars[i]
		if u.n[i] == nil {
			n.n = append(n.n, nil)
		} else {
			n.n = append(n.n, Subst(u.n[i], m))
		}
	}
	for _, e := range u.idx {
		n.idx = append(n.idx, Subst(e, m))
	}
	n.guard = Subst(u.guard, m)
	n.val = mapTerms(u.val, func(t *Term) *Term { return Subst(t, m) })
	return n
}

func updEq(a, b *Upd) bool {
	if len(a.vars) != len(b.vars) || len(a.idx) != len(b.idx) {
		return false
	}
	ca, cb := canonUpd(a), canonUpd(b)
	for i := range ca.idx {
		if ca.idx[i] != cb.idx[i] {
			return false
		}
	}
	for i := range ca.n {
		if ca.n[i] != cb.n[i] {
			return false
		}
	}
	return ca.guard == cb.guard && valEq(ca.val, cb.val)
}

// ---------------------------------------------------------------- value leaves

// leaves lists the scalar terms of a value; the shape string identifies the rest.
func leaves(v Value) (string, []*Term) {
	var ts []*Term
	var b strings.Builder
	var rec func(v Value)
	rec = func(v Value) {
		switch y := v.(type) {
		case *Term:
			fmt.Fprintf(&b, "t%d", y.ty)
			ts = append(ts, y)
		case *Ptr:
			fmt.Fprintf(&b, "p%d.%d", y.obj.id, y.win)
			for _, f := range y.fam {
				ts = append(ts, f)
			}
			for _, s := range y.path {
				if s.f < 0 {
					b.WriteString("[]")
					ts = append(ts, s.idx)
				} else {
					fmt.Fprintf(&b, ".%d", s.f)
				}
			}
			b.WriteByte(';')
		case *SliceV:
			b.WriteByte('s')
			rec(y.base)
			ts = append(ts, y.off, y.len, y.cap)
		case *StructV:
			b.WriteByte('{')
			for _, f := range y.f {
				rec(f)
			}
			b.WriteByte('}')
		case *ArrV:
			b.WriteByte('[')
			for _, f := range y.e {
				rec(f)
			}
			b.WriteByte(']')
		case *TupleV:
			b.WriteByte('(')
			for _, f := range y.e {
				rec(f)
			}
			b.WriteByte(')')
		case NilV:
			b.WriteByte('0')
		case *IfaceV:
			b.WriteString("i" + y.typ.String())
			rec(y.v)
		case *FuncV:
			fmt.Fprintf(&b, "f%p%p%s", y.fn, y.bi, y.sym)
			for _, f := range y.binds {
				rec(f)
			}
		case *IteV:
			b.WriteString("ite")
			ts = append(ts, y.c)
			rec(y.a)
			rec(y.b)
		case *Unk:
			fmt.Fprintf(&b, "u%p", y)
		default:
			fmt.Fprintf(&b, "?%T", v)
		}
	}
	rec(v)
	return b.String(), ts
}

// withLeaves rebuilds v with its scalar terms replaced in order.
func withLeaves(v Value, ts []*Term) Value {
	k := 0
	// mapTerms visits in the same order as leaves
	return mapTermsAll(v, func(t *Term) *Term { k++; return ts[k-1] })
}

func mapTermsAll(v Value, f func(*Term) *Term) Value {
	switch y := v.(type) {
	case *IteV:
		c := f(y.c)
		a := mapTermsAll(y.a, f)
		b := mapTermsAll(y.b, f)
		return mkIte(c, a, b)
	case *StructV:
		n := &StructV{make([]Value, len(y.f))}
		for i := range y.f {
			n.f[i] = mapTermsAll(y.f[i], f)
		}
		return n
	case *ArrV:
		n := &ArrV{make([]Value, len(y.e))}
		for i := range y.e {
			n.e[i] = mapTermsAll(y.e[i], f)
		}
		return n
	case *TupleV:
		n := &TupleV{make([]Value, len(y.e))}
		for i := range y.e {
			n.e[i] = mapTermsAll(y.e[i], f)
		}
		return n
	case *IfaceV:
		return &IfaceV{y.typ, mapTermsAll(y.v, f)}
	}
	return mapTerms(v, f)
}

// ---------------------------------------------------------------- loops

type leafInfo struct {
	init   *Term
	name   string
	own    int32
	ph     *Term
	closed func(v *Term) *Term // value at the start of iteration v
	next   *Term
}

type phiInfo struct {
	phi   *ssa.Phi
	init  Value
	shape string
	lv    []*leafInfo
	next  Value
}

func (p *phiInfo) at(v *Term) Value {
	ts := make([]*Term, len(p.lv))
	for i, l := range p.lv {
		if l.closed != nil {
			ts[i] = l.closed(v)
		} else {
			ts[i] = l.ph
		}
	}
	return withLeaves(p.init, ts)
}

type logMark struct{ panics, bounds, ev, problems, nb int }

func (x *Interp) mark() logMark {
	return logMark{len(x.Panics), len(x.Bounds), len(x.Ev), len(x.Problems), x.NBounds}
}
func (x *Interp) rewind(m logMark) {
	x.Panics, x.Bounds, x.Ev, x.Problems, x.NBounds = x.Panics[:m.panics], x.Bounds[:m.bounds], x.Ev[:m.ev], x.Problems[:m.problems], m.nb
}

type loopCtx struct {
	x     *Interp
	fr    *frame
	f     *loopForest
	L     *Loop
	st0   *State
	phis  []*phiInfo
	name  string
	exits map[*ssa.BasicBlock]bool // blocks with an edge out of the loop
	defs  map[ssa.Value]bool
}

// DebugLoops traces loop summaries.
var DebugLoops bool

func (x *Interp) execLoop(fr *frame, f *loopForest, L *Loop, es []edge) []edge {
	lc := &loopCtx{x: x, fr: fr, f: f, L: L, exits: map[*ssa.BasicBlock]bool{}}
	lc.name = fmt.Sprintf("%s loop at %s", fr.fn.Name(), x.pos(loopPos(L)))
	for b := range L.blocks {
		for _, s := range b.Succs {
			if !L.blocks[s] {
				lc.exits[b] = true
			}
		}
	}
	var ph []*ssa.Phi
	for _, in := range L.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ph = append(ph, p)
		} else {
			break
		}
	}
	st0, init := x.mergeEdges(fr, L.header, es, ph)
	if st0 == nil {
		return nil
	}
	lc.st0 = st0
	for i, p := range ph {
		pi := &phiInfo{phi: p, init: init[i]}
		lc.phis = append(lc.phis, pi)
		lc.setInit(pi, init[i])
	}
	nrets, ndef := len(fr.rets), len(fr.defers)
	out, ok := lc.summarise()
	if ok {
		if len(fr.defers) != ndef {
			x.problem("defer inside a loop in %s", fr.fn)
		}
		return out
	}
	fr.rets = fr.rets[:nrets]
	fr.defers = fr.defers[:ndef]
	return out
}

func loopPos(L *Loop) token.Pos {
	for _, in := range L.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func (lc *loopCtx) setInit(pi *phiInfo, v Value) {
	pi.init = v
	sh, ts := leaves(v)
	pi.shape = sh
	pi.lv = nil
	for _, t := range ts {
		l := &leafInfo{init: t}
		l.closed = func(v *Term) *Term { return t } // optimistic: invariant
		pi.lv = append(pi.lv, l)
	}
	// syntactic induction variables
	if len(pi.lv) == 1 {
		if _, ok := v.(*Term); ok && pi.lv[0].init.ty.isInt() {
			l := pi.lv[0]
			varies := false
			var stepC *int64
			same := true
			for i, p := range lc.L.header.Preds {
				if !lc.L.blocks[p] {
					continue
				}
				e := pi.phi.Edges[i]
				if e == pi.phi {
					continue
				}
				varies = true
				c, ok := constStep(e, pi.phi)
				if !ok || (stepC != nil && *stepC != c) {
					same = false
					break
				}
				stepC = &c
			}
			if varies && same && stepC != nil {
				c := *stepC
				init := l.init
				l.closed = func(v *Term) *Term { return ivAt(init, Int(TI64, c), v) }
			} else if varies {
				lc.makePH(l)
			}
		}
	}
}

func ivAt(init, c, v *Term) *Term {
	ty := init.ty
	if ty == TI64 {
		return Add(init, Mul(c, v))
	}
	return Add(init, Mul(Conv(c, ty), Conv(v, ty)))
}

func (lc *loopCtx) makePH(l *leafInfo) {
	n, id := newPlaceholder("phi")
	l.name, l.own = n, id
	l.ph = PhiSym(n, l.init.ty, id)
	l.closed = nil
}

func constStep(e ssa.Value, phi *ssa.Phi) (int64, bool) {
	b, ok := e.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return 0, false
	}
	one := func(a, c ssa.Value) (int64, bool) {
		if a != ssa.Value(phi) {
			return 0, false
		}
		k, ok := c.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		t, ok := constVal(k).(*Term)
		if !ok || !t.ty.isInt() {
			return 0, false
		}
		return center(t.ty, t.iv), true
	}
	if c, ok := one(b.X, b.Y); ok {
		if b.Op == token.SUB {
			return -c, true
		}
		return c, true
	}
	if b.Op == token.ADD {
		return one(b.Y, b.X)
	}
	return 0, false
}

// runPass executes the loop region once at iteration v.
func (lc *loopCtx) runPass(v, n *Term, mod *modInfo, at func(k Key) *Content, tag string) (back, exit []edge) {
	x := lc.x
	st := lc.st0.fork()
	if mod != nil {
		for k := range mod.keys {
			st.set(k, &Content{root: &Root{kind: rPrev, key: k, typ: pathType(k.obj, k.path), name: x.keyName(k), mod: mod}})
		}
	}
	if at != nil {
		for _, k := range lc.modKeys(mod) {
			st.set(k, at(k))
		}
	}
	pre := map[*ssa.Phi]Value{}
	for _, p := range lc.phis {
		pre[p.phi] = p.at(v)
	}
	x.active = append(x.active, actVar{v, n})
	es := x.execRegion(lc.fr, lc.f, lc.L, lc.L.header, []edge{{nil, lc.L.header, st, nil}}, pre)
	x.active = x.active[:len(x.active)-1]
	for _, e := range es {
		if e.to == lc.L.header {
			back = append(back, e)
		} else {
			exit = append(exit, e)
		}
	}
	return
}

func (lc *loopCtx) modKeys(m *modInfo) []Key {
	if m == nil {
		return nil
	}
	var ks []Key
	for k := range m.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].obj.id != ks[j].obj.id {
			return ks[i].obj.id < ks[j].obj.id
		}
		return ks[i].path < ks[j].path
	})
	return ks
}

// headerExit evaluates the loop header alone and returns the continue condition if the header is
// the loop's exit test.
func (lc *loopCtx) headerExit(v *Term) (*Term, bool) {
	x := lc.x
	if !lc.exits[lc.L.header] {
		return nil, false
	}
	st := lc.st0.fork()
	for _, p := range lc.phis {
		lc.fr.env[p.phi] = p.at(v)
	}
	x.quiet++
	es := x.execBlock(lc.fr, lc.L.header, st)
	x.quiet--
	if len(es) == 2 {
		for _, e := range es {
			if lc.L.blocks[e.to] {
				return e.st.pc.lit, true
			}
		}
	}
	if len(es) == 1 {
		return Bool(lc.L.blocks[es[0].to]), true
	}
	return nil, false
}

// tripOf solves the first v>=0 at which cont fails.
func (x *Interp) tripOf(st *State, cont, v *Term) (*Term, bool) {
	if cont.isFalse() {
		return I(0), true
	}
	var d *Term
	switch {
	case cont.op == OLt0:
		d = cont.args[0]
	case cont.op == ONot && cont.args[0].op == OLt0:
		d = AddI(Neg(cont.args[0].args[0]), -1)
	case cont.op == ONot && cont.args[0].op == OEq0 && cont.args[0].args[0].ty == TI64:
		a, r, ok := Linear(cont.args[0].args[0], v)
		if !ok || a == 0 || r.HasFV(v.VarID()) {
			return nil, false
		}
		if a < 0 {
			a, r = -a, Neg(r)
		}
		// a*v + r == 0
		q, c, ok := divExact(Neg(r), a)
		if !ok || !c.isTrue() {
			return nil, false
		}
		return x.nonNeg(st, q), true
	case cont.op == OLt || (cont.op == ONot && cont.args[0].op == OLt):
		a, b := cont, cont
		neg := false
		if cont.op == ONot {
			a, neg = cont.args[0], true
		}
		l, r := a.args[0], a.args[1]
		if !l.ty.isInt() {
			return nil, false
		}
		_ = b
		cl, cr := Conv(l, TI64), Conv(r, TI64)
		// small machine integers: compare as ints when the counter cannot wrap before the bound
		vi := v.VarID()
		lin := func(t *Term) *Term { // t = c*conv(v)+k without wrap
			return unwrapConv(t, v)
		}
		if l.HasFV(vi) {
			cl = lin(l)
		}
		if r.HasFV(vi) {
			cr = lin(r)
		}
		if cl == nil || cr == nil {
			return nil, false
		}
		if neg {
			return x.tripOf(st, Not(Lt0(Sub(cl, cr))), v)
		}
		return x.tripOf(st, Lt0(Sub(cl, cr)), v)
	case cont.op == OAnd:
		// conjunction: only when a single literal depends on v and the others hold at entry
		var dep []*Term
		for _, a := range cont.args {
			if a.HasFV(v.VarID()) {
				dep = append(dep, a)
			} else if !x.simp(st, a).isTrue() {
				return nil, false
			}
		}
		if len(dep) == 1 {
			return x.tripOf(st, dep[0], v)
		}
		return nil, false
	default:
		return nil, false
	}
	a, r, ok := Linear(d, v)
	if !ok || a <= 0 || r.HasFV(v.VarID()) {
		return nil, false
	}
	// a*v + r < 0  <=>  v < ceil(-r/a)
	t := Neg(r)
	if a > 1 {
		q, ok := floorDivT(AddI(t, a-1), a)
		if !ok {
			return nil, false
		}
		t = q
	}
	return x.nonNeg(st, t), true
}

func (x *Interp) nonNeg(st *State, t *Term) *Term {
	if lo, _ := Bounds(t); lo >= 0 {
		return t
	}
	c := x.simp(st, Lt0(t))
	if c.isFalse() {
		return t
	}
	if c.isTrue() {
		return I(0)
	}
	// a count of at most zero: t<=0 equals t<0 for the purpose of counting
	if x.simp(st, Lt0(AddI(t, -1))).isFalse() {
		return t
	}
	return Ite(c, I(0), t)
}

// unwrapConv reads c*conv(v)+k over machine integers as the same expression over ints.
func unwrapConv(t, v *Term) *Term {
	s := I(0)
	for _, m := range t.monos() {
		ci := m.ci
		switch len(m.atoms) {
		case 0:
			s = AddI(s, ci)
		case 1:
			a := m.atoms[0]
			if a.op == OConv && a.args[0] == v {
				s = Add(s, MulI(v, ci))
			} else if a == v {
				s = Add(s, MulI(v, ci))
			} else if !a.HasFV(v.VarID()) {
				s = Add(s, MulI(Conv(a, TI64), ci))
			} else {
				return nil
			}
		default:
			return nil
		}
	}
	return s
}

func (lc *loopCtx) latches() []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, p := range lc.L.header.Preds {
		if lc.L.blocks[p] {
			r = append(r, p)
		}
	}
	return r
}

// domLatches reports whether b runs in every iteration.
func (lc *loopCtx) domLatches(b *ssa.BasicBlock) bool {
	for _, l := range lc.latches() {
		if !b.Dominates(l) {
			return false
		}
	}
	return true
}

func (lc *loopCtx) note(how string) {
	lc.x.NLoops[lc.name] = how
	if DebugLoops && lc.x.quiet == 0 {
		fmt.Printf("loop %s: %s\n", lc.name, how)
	}
}

func (lc *loopCtx) summarise() ([]edge, bool) {
	x, fr := lc.x, lc.fr
	nrets, ndef := len(fr.rets), len(fr.defers)
	v := NewVar("i", 0, 1<<62)
	var T *Term
	exitBlk := lc.L.header
	bottom := false

	// --- trip count from the header alone
	if len(lc.exits) == 1 && lc.exits[lc.L.header] {
		if cont, ok := lc.headerExit(v); ok {
			if t, ok := x.tripOf(lc.st0, cont, v); ok {
				T = t
			}
		}
	} else if len(lc.exits) == 1 {
		for b := range lc.exits {
			if lc.domLatches(b) {
				exitBlk, bottom = b, true
			}
		}
	}
	if T != nil && T.op == OConst && T.iv <= int64(UnrollMax) {
		if out, ok := lc.unroll(UnrollMax+1, false); ok {
			return out, true
		}
		fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
	}

	// --- passes
	mod := &modInfo{v: v, keys: map[Key]*keyMod{}, used: map[Key]bool{}}
	setRange := func(T *Term) {
		_, hi := Bounds(T)
		if hi >= inf {
			hi = 1 << 62
		}
		v = NewVar("i", 0, hi)
		mod.v = v
		for _, k := range mod.keys {
			k.patt = nil
		}
	}
	if T != nil {
		setRange(T)
	}
	n := T
	if n == nil {
		n = opaque("trip", TI64)
	}
	var back, exit []edge
	var stB *State
	stable := false
	tried := false
	for pass := 0; pass < 12; pass++ {
		m := x.mark()
		fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
		mod.used = map[Key]bool{}
		if pass == 0 {
			x.quiet++
		}
		back, exit = lc.runPass(v, n, mod, nil, "")
		if pass == 0 {
			x.quiet--
		}
		if len(fr.rets) > nrets {
			// returns from inside the loop: only iteration by iteration
			x.rewind(m)
			break
		}
		if len(back) == 0 {
			// the body never comes back: executed at most once
			x.rewind(m)
			if out, ok := lc.unroll(2, false); ok {
				return out, true
			}
			break
		}
		changed := false
		if bottom && T == nil {
			// exit literal at the bottom test
			for _, e := range exit {
				if e.from == exitBlk && e.st.pc != nil && len(exit) == 1 {
					if t, ok := x.tripOf(lc.st0, Not(e.st.pc.lit), v); ok {
						T = AddI(t, 1)
						n = T
						setRange(T)
						changed = true
					}
				}
			}
			if changed {
				x.rewind(m)
				if T.op == OConst && T.iv <= int64(UnrollMax) {
					if out, ok := lc.unroll(UnrollMax+1, false); ok {
						return out, true
					}
				}
				continue
			}
		}
		base := lc.st0.mem
		var nexts []Value
		ph := make([]*ssa.Phi, len(lc.phis))
		for i, p := range lc.phis {
			ph[i] = p.phi
		}
		stB, nexts = x.mergeEdges(fr, lc.L.header, back, ph)
		// phis
		fail := ""
		for i, p := range lc.phis {
			p.next = nexts[i]
			sh, ts := leaves(p.next)
			if sh != p.shape {
				if lc.reshape(p, p.next) {
					changed = true
					continue
				}
				fail = fmt.Sprintf("loop-carried reference %s (%s -> %s)", p.phi.Name(), ShowVal(p.init), ShowVal(p.next))
				break
			}
			for k, l := range p.lv {
				l.next = ts[k]
				if l.closed != nil {
					if l.next != l.closed(AddI(v, 1)) {
						// not what was assumed
						d := tryStep(l.next, l.closed(v))
						if l.ph == nil {
							if d != nil && !d.HasFV(v.VarID()) && !lc.depends(d, mod) && d.ty.isInt() {
								init := l.init
								l.closed = func(v *Term) *Term { return ivAt(init, d, v) }
								lc.makeOnlyPH(l)
							} else {
								lc.makePH(l)
							}
							changed = true
						} else {
							lc.makePH(l)
							changed = true
						}
					}
				} else {
					// placeholder: induction variable?
					d := tryStep(l.next, l.ph)
					if d != nil && !d.HasFV(v.VarID()) && !d.HasFV(l.own) && !lc.depends(d, mod) && d.ty.isInt() {
						init := l.init
						l.closed = func(v *Term) *Term { return ivAt(init, d, v) }
						changed = true
					} else if l.next.HasFV(v.VarID()) && !l.next.HasFV(l.own) && !lc.depends(l.next, mod) {
						// a value the previous iteration computed from its number alone, which
						// at the number before the first is the initial value
						next, own := l.next, v.VarID()
						prev := func(w *Term) *Term { return Subst(next, map[int32]*Term{own: AddI(w, -1)}) }
						if prev(I(0)) == l.init {
							l.closed = prev
							changed = true
						}
					}
				}
			}
		}
		if fail != "" {
			x.rewind(m)
			if DebugLoops {
				fmt.Printf("loop %s: %s\n", lc.name, fail)
			}
			break
		}
		if T == nil && !bottom && len(lc.exits) == 1 && lc.exits[lc.L.header] {
			if cont, ok := lc.headerExit(v); ok {
				if t, ok := x.tripOf(lc.st0, cont, v); ok {
					T, n = t, t
					setRange(T)
					changed = true
					if T.op == OConst && T.iv <= int64(UnrollMax) {
						x.rewind(m)
						fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
						if out, ok := lc.unroll(UnrollMax+1, false); ok {
							return out, true
						}
					}
				}
			}
		}
		// memory
		if !changed || pass == 0 {
			for k := range stB.keysSince(base) {
				c := stB.get(k)
				km := mod.keys[k]
				if km == nil {
					if c.upd == nil || c == x.content(lc.st0, k) {
						continue
					}
					name, own := newPlaceholder("m")
					km = &keyMod{key: k, pre: x.content(lc.st0, k), own: own, name: name}
					mod.keys[k] = km
					changed = true
					if pass == 0 {
						km.patt, km.ok = pattSince(c, km.pre)
					}
					continue
				}
				p, ok := pattSince(c, nil)
				same := ok == km.ok && len(p) == len(km.patt)
				if same {
					for i := range p {
						if !updEq(p[i], km.patt[i]) {
							same = false
							break
						}
					}
				}
				if !same {
					if DebugLoops && pass >= 6 {
						fmt.Printf("loop %s pass %d: %s changes (%d -> %d updates)\n", lc.name, pass, x.keyName(k), len(km.patt), len(p))
						for i := range p {
							if i < len(km.patt) && !updEq(p[i], km.patt[i]) {
								fmt.Println("    ", ShowUpd(km.patt[i]), "\n     ", ShowUpd(p[i]))
							}
						}
					}
					km.patt, km.ok = p, ok
					changed = true
				}
			}
		}
		if !changed && T != nil {
			stable = true
			break
		}
		x.rewind(m)
		if !changed {
			break
		}
		if pass == 11 && DebugLoops {
			fmt.Printf("loop %s: not stable\n", lc.name)
		}
	}
	if !stable {
		fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
		if !tried {
			mk := x.mark()
			limit := 64
			if T != nil && T.op == OConst {
				limit = int(T.iv) + 1
				if limit > 80 {
					limit = 0
				}
			}
			if limit > 0 {
				if out, ok := lc.unroll(limit, T == nil); ok {
					return out, true
				}
			}
			x.rewind(mk)
			fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
		}
		if out, ok := lc.lasso(T); ok {
			return out, true
		}
		fr.rets, fr.defers = fr.rets[:nrets], fr.defers[:ndef]
		return lc.havoc(v), true
	}
	lc.note(fmt.Sprintf("summarised, %d trips", T.iv))
	if T.op != OConst {
		lc.note("summarised, symbolic trips")
	}
	// --- closing
	at := lc.close(v, T, mod, stB)
	if !bottom {
		return lc.exitAtHeader(v, T, mod, at)
	}
	x.quiet++
	last := AddI(T, -1)
	_, exit = lc.runPass(last, T, mod, func(k Key) *Content { return at(k, last) }, "")
	x.quiet--
	return lc.finishExits(exit), true
}

// finishExits drops the facts assumed inside the loop.
func (lc *loopCtx) finishExits(es []edge) []edge {
	for i := range es {
		es[i].st.pc = lc.st0.pc
	}
	return es
}

func (lc *loopCtx) makeOnlyPH(l *leafInfo) {
	n, id := newPlaceholder("phi")
	l.name, l.own = n, id
	l.ph = PhiSym(n, l.init.ty, id)
}

// depends reports whether t uses a value that changes from iteration to iteration.
func (lc *loopCtx) depends(t *Term, mod *modInfo) bool {
	for _, p := range lc.phis {
		for _, l := range p.lv {
			if l.own != 0 && t.HasFV(l.own) {
				return true
			}
		}
	}
	for _, k := range mod.keys {
		if t.HasFV(k.own) {
			return true
		}
	}
	return false
}

func tryStep(next, cur *Term) *Term {
	if next.ty != cur.ty || !next.ty.ring() {
		return nil
	}
	return Sub(next, cur)
}

// reshape adapts a nil slice that the loop grows.
func (lc *loopCtx) reshape(p *phiInfo, next Value) bool {
	if _, ok := p.init.(NilV); ok {
		if s, ok := next.(*SliceV); ok && s.base.obj.grow {
			// one array for the whole loop, made before it
			b := s.base
			if len(b.fam) > len(lc.x.active) {
				b = lc.x.alloc(lc.fr, p.phi, "append", b.obj.typ, I(0))
				b.obj.grow = true
				b.obj.n = nil
			}
			lc.setInit(p, &SliceV{b, I(0), I(0), I(0)})
			return true
		}
	}
	return false
}

// pattSince lists the updates of c above stop (or above the loop root), oldest first.
func pattSince(c, stop *Content) ([]*Upd, bool) {
	var r []*Upd
	for c != nil && c != stop && c.upd != nil {
		r = append(r, c.upd)
		c = c.parent
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, true
}

// exitAtHeader evaluates the header at iteration T and leaves the loop.
func (lc *loopCtx) exitAtHeader(v, T *Term, mod *modInfo, at func(k Key, v *Term) *Content) ([]edge, bool) {
	x := lc.x
	st := lc.st0.fork()
	if mod != nil {
		for _, k := range lc.modKeys(mod) {
			st.set(k, at(k, T))
		}
	}
	for _, p := range lc.phis {
		lc.fr.env[p.phi] = p.at(T)
	}
	x.quiet++
	es := x.execBlock(lc.fr, lc.L.header, st)
	x.quiet--
	var out []edge
	for _, e := range es {
		if !lc.L.blocks[e.to] {
			out = append(out, e)
		}
	}
	if len(out) == 0 {
		return nil, false
	}
	if len(es) > 1 {
		for _, e := range out {
			e.st.pc = lc.st0.pc
		}
	}
	return out, true
}

// unroll executes the loop iteration by iteration as long as its control is decided.
func (lc *loopCtx) unroll(limit int, decided bool) ([]edge, bool) {
	x, fr := lc.x, lc.fr
	w0 := x.work
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	nrets := len(fr.rets)
	m := x.mark()
	vals := make([]Value, len(lc.phis))
	for i, p := range lc.phis {
		vals[i] = p.init
	}
	st := lc.st0
	var out []edge
	ph := make([]*ssa.Phi, len(lc.phis))
	for i, p := range lc.phis {
		ph[i] = p.phi
	}
	for it := 0; ; it++ {
		if it >= limit || (x.work-w0 > workMax && it > 0) {
			x.rewind(m)
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		fr.ctx = fmt.Sprintf("%s:%d", ctx, it)
		pre := map[*ssa.Phi]Value{}
		for i := range ph {
			pre[ph[i]] = vals[i]
		}
		es := x.execRegion(fr, lc.f, lc.L, lc.L.header, []edge{{nil, lc.L.header, st.fork(), nil}}, pre)
		var back []edge
		for _, e := range es {
			if e.to == lc.L.header {
				back = append(back, e)
			} else {
				e.env = lc.snapshot()
				out = append(out, e)
			}
		}
		if len(back) == 0 {
			break
		}
		if decided && len(back) != len(es) {
			x.rewind(m)
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		st, vals = x.mergeEdges(fr, lc.L.header, back, ph)
	}
	lc.note("unrolled")
	if len(out) == 1 {
		out[0].env = nil
	}
	return out, true
}

// snapshot copies the values defined in the loop.
func (lc *loopCtx) snapshot() map[ssa.Value]Value {
	r := map[ssa.Value]Value{}
	for b := range lc.L.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if w, ok := lc.fr.env[v]; ok {
					r[v] = w
				}
			}
		}
	}
	return r
}

// havoc forgets everything the loop may change.
func (lc *loopCtx) havoc(v *Term) []edge {
	x, fr := lc.x, lc.fr
	lc.note("not summarised: effects forgotten")
	if x.quiet == 0 && DebugLoops {
		fmt.Printf("loop %s: havoc\n", lc.name)
	}
	for _, p := range lc.phis {
		hv := unkOf(p.phi.Type(), "loop "+lc.name)
		if sl, ok := p.init.(*SliceV); ok {
			_ = sl
			hv = unk("loop %s", lc.name)
		}
		p.init = hv
		_, ts := leaves(hv)
		p.lv = nil
		for _, t := range ts {
			t := t
			p.lv = append(p.lv, &leafInfo{init: t, closed: func(*Term) *Term { return t }})
		}
	}
	keys := map[Key]*Content{}
	nrets := len(fr.rets)
	for pass := 0; pass < 6; pass++ {
		mk := x.mark()
		fr.rets = fr.rets[:nrets]
		st := lc.st0.fork()
		for k, c := range keys {
			st.set(k, c)
		}
		pre := map[*ssa.Phi]Value{}
		for _, p := range lc.phis {
			pre[p.phi] = p.init
		}
		x.active = append(x.active, actVar{v, opaque("trip", TI64)})
		es := x.execRegion(fr, lc.f, lc.L, lc.L.header, []edge{{nil, lc.L.header, st, nil}}, pre)
		x.active = x.active[:len(x.active)-1]
		grew := false
		for _, e := range es {
			for k := range e.st.keysSince(lc.st0.mem) {
				if _, ok := keys[k]; ok {
					continue
				}
				if e.st.get(k) == x.content(lc.st0, k) {
					continue
				}
				grew = true
				keys[k] = x.opaqueContent(k, lc.st0, "loop "+lc.name)
			}
		}
		if !grew || pass == 5 {
			var out []edge
			for _, e := range es {
				if e.to != lc.L.header {
					e.st.pc = lc.st0.pc
					out = append(out, e)
				}
			}
			if grew {
				x.problem("loop %s: effects not bounded", lc.name)
			}
			return out
		}
		x.rewind(mk)
	}
	return nil
}

// opaqueContent is unknown content for every cell of k.
func (x *Interp) opaqueContent(k Key, st *State, why string) *Content {
	pre := x.content(st, k)
	u := x.allCells(k)
	t := pathType(k.obj, k.path)
	if ty, ok := tyOf(t); ok {
		u.val = opaque(why+" "+x.keyName(k), ty, u.vars...)
	} else {
		u.val = unk("%s", why)
	}
	return pre.push(u)
}

// allCells is an update covering every cell of k (value to be filled in).
func (x *Interp) allCells(k Key) *Upd {
	u := &Upd{guard: True()}
	for _, e := range x.extents(k) {
		hi := int64(1 << 62)
		if e != nil {
			if _, h := Bounds(e); h < inf {
				hi = h
			}
		}
		w := NewVar("x", 0, hi)
		u.vars = append(u.vars, w)
		if e != nil && e.op == OConst {
			u.n = append(u.n, e)
		} else {
			u.n = append(u.n, nil)
		}
		u.idx = append(u.idx, w)
	}
	return u
}

var _ = types.Identical

// ShowUpd prints an update (debugging).
func ShowUpd(u *Upd) string {
	c := canonUpd(u)
	return fmt.Sprintf("%v n=%v idx=%v guard=%v val=%s", c.vars, c.n, c.idx, c.guard, ShowVal(c.val))
}
