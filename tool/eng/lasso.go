package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop whose carried references rotate through a fixed set of buffers (pools of scratch
// ciphertexts) is analysed per discrete configuration: which buffer every reference denotes and the
// value of constant counters. The configurations form a lasso; the data the loop carries is named by
// access path, and every configuration must transform it by the same step.

type liveArr struct {
	path string
	key  Key
	pre  []*Term // leading indices
	off  *Term
	n    *Term
	ty   Ty
	own  int32
	name string
}

var liveOwn = map[string]int32{}

func liveName(path string) (string, int32) {
	n := "%live:" + path
	if id, ok := liveOwn[n]; ok {
		return n, id
	}
	id := newFV()
	ownIDs[n] = id
	liveOwn[n] = id
	return n, id
}

// lasso handles loops that rotate through a fixed set of buffers.
func (lc *loopCtx) lasso(T *Term) ([]edge, bool) {
	x, fr := lc.x, lc.fr
	if T == nil || T.op != OConst || len(lc.exits) != 1 || !lc.exits[lc.L.header] {
		return nil, false
	}
	fail := func(why string, a ...interface{}) ([]edge, bool) {
		if DebugLoops {
			fmt.Printf("loop %s: lasso: %s\n", lc.name, fmt.Sprintf(why, a...))
		}
		return nil, false
	}
	ctx := fr.ctx
	mk := x.mark()
	ok := false
	defer func() {
		fr.ctx = ctx
		if !ok {
			x.rewind(mk)
		}
	}()
	v := NewVar("i", 0, T.iv)
	ivs := map[int]func(*Term) *Term{}
	// counters that are induction variables keep their closed form
	for i, p := range lc.phis {
		if t, isT := p.init.(*Term); isT {
			probe := &phiInfo{phi: p.phi}
			lc.setInit(probe, t)
			if l := probe.lv; len(l) == 1 && l[0].closed != nil {
				f := l[0].closed
				ivs[i] = f
			}
		}
	}
	type conf struct {
		st    *State
		vals  []Value
		lives []*liveArr
		sig   string
		numk  map[Key]bool
	}
	var confs []*conf
	st := lc.st0
	vals := make([]Value, len(lc.phis))
	for i, p := range lc.phis {
		vals[i] = p.init
	}
	ph := make([]*ssa.Phi, len(lc.phis))
	for i, p := range lc.phis {
		ph[i] = p.phi
	}
	var inits []*Term
	var steps []*Term // step of each live cell
	var paths []string
	var cells []*Term
	firstObj, born := x.nobj, x.nalloc
	loopBack := -1
	fresh := func(o *Obj) bool { return o.id > firstObj || o.born > born }
	for k := 0; k < 24; k++ {
		// live data of this configuration
		var lives []*liveArr
		okLive := true
		var sig strings.Builder
		for i := range ph {
			if ivs[i] != nil {
				continue
			}
			if !x.liveWalk(st, vals[i], ph[i].Type(), fmt.Sprintf("%d", i), &lives, &sig, fresh, 0) {
				okLive = false
			}
		}
		if !okLive {
			return fail("live data not traversable at %d: %s", k, sig.String())
		}
		// discrete memory
		numk := map[Key]bool{}
		var dk []string
		var ks []Key
		for key := range st.keysSince(lc.st0.mem) {
			ks = append(ks, key)
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].obj.id != ks[j].obj.id {
				return ks[i].obj.id < ks[j].obj.id
			}
			return ks[i].path < ks[j].path
		})
		for _, key := range ks {
			if fresh(key.obj) {
				if ty, isT := tyOf(pathType(key.obj, key.path)); isT && ty != TI64 {
					numk[key] = true
				}
				continue
			}
			c := st.get(key)
			if c == x.content(lc.st0, key) {
				continue
			}
			if s, isD := x.discrete(st, key, c, lc.st0, fresh); isD {
				dk = append(dk, x.keyName(key)+"="+s)
			} else if _, isT := tyOf(pathType(key.obj, key.path)); isT {
				numk[key] = true
			} else {
				return fail("carried reference %s", x.keyName(key))
			}
		}
		sg := sig.String() + "|" + strings.Join(dk, ";")
		// entry state: everything modified becomes dirty, live data is named
		entry := st.fork()
		for key := range numk {
			entry.set(key, x.stale(st, lc.st0, key))
		}
		if !disjointLives(lives) {
			return fail("live data overlaps")
		}
		if k == 0 {
			for _, l := range lives {
				xv := NewVar("x", 0, boundHi(l.n))
				if l.off == nil {
					xv = nil
				}
				cells = append(cells, xv)
				paths = append(paths, l.path)
				t, isT := x.read(st, x.content(st, l.key), l.at(xv)).(*Term)
				if !isT {
					return fail("initial live data")
				}
				inits = append(inits, t)
			}
		} else if len(lives) != len(paths) {
			return fail("live data changes shape")
		}
		for i, l := range lives {
			if l.path != paths[i] {
				return fail("live data changes shape")
			}
			x.setLive(entry, l, func(j *Term) *Term {
				if l.off == nil {
					return Sel(l.name, l.ty, l.own)
				}
				return Sel(l.name, l.ty, l.own, j)
			})
		}
		cf := &conf{entry, vals, lives, sg, numk}
		for i, c := range confs {
			if c.sig == sg {
				loopBack = i
			}
		}
		confs = append(confs, cf)
		// one iteration
		fr.ctx = fmt.Sprintf("%s:L%d", ctx, k)
		pre := map[*ssa.Phi]Value{}
		for i := range ph {
			if f := ivs[i]; f != nil {
				pre[ph[i]] = f(v)
			} else {
				pre[ph[i]] = vals[i]
			}
		}
		if k > 0 {
			x.quiet++
		}
		nsp := len(x.Ev)
		es := x.execRegion(fr, lc.f, lc.L, lc.L.header, []edge{{nil, lc.L.header, entry.fork(), nil}}, pre)
		if k > 0 {
			x.quiet--
		}
		for _, e := range x.Ev[nsp:] {
			if e.Kind == EvGo || e.Kind == EvWait {
				return fail("spawns goroutines")
			}
		}
		var back []edge
		for _, e := range es {
			if e.to == lc.L.header {
				back = append(back, e)
			}
		}
		if len(back) == 0 {
			return fail("no back edge")
		}
		nst, nvals := x.mergeEdges(fr, lc.L.header, back, ph)
		nst.pc = lc.st0.pc
		for i := range ph {
			if f := ivs[i]; f != nil && !valEq(nvals[i], f(AddI(v, 1))) {
				return fail("counter")
			}
		}
		// the step on the live data
		var nl []*liveArr
		var dummy strings.Builder
		for i := range ph {
			if ivs[i] != nil {
				continue
			}
			if !x.liveWalk(nst, nvals[i], ph[i].Type(), fmt.Sprintf("%d", i), &nl, &dummy, fresh, 0) {
				return fail("live data not traversable after %d: %s %s", k, ShowVal(nvals[i]), dummy.String())
			}
		}
		if len(nl) != len(paths) {
			return fail("live data changes shape")
		}
		var ns []*Term
		for i, l := range nl {
			if l.path != paths[i] {
				return fail("live data changes shape")
			}
			t, isT := x.read(nst, x.content(nst, l.key), l.at(cells[i])).(*Term)
			if !isT {
				return fail("live step")
			}
			if s, op := IsOpaque(t); op {
				return fail("step uses undecided data %s", s)
			}
			ns = append(ns, t)
		}
		if k == 0 {
			steps = ns
		} else {
			for i := range ns {
				if ns[i] != steps[i] && !Same(ns[i], steps[i]) {
					da, db := Diff(Normalize(ns[i]), Normalize(steps[i]))
					return fail("configuration %d transforms %s differently: %s vs %s", k, paths[i], da, db)
				}
			}
		}
		st, vals = nst, nvals
		if loopBack >= 0 {
			break
		}
	}
	if loopBack < 0 {
		return fail("no repetition")
	}
	// closed forms
	var cs []*recComp
	for i := range paths {
		l := confs[0].lives[i]
		c := &recComp{own: l.own, scalar: l.off == nil, init: inits[i], step: steps[i]}
		if l.off != nil {
			c.xs = []*Term{cells[i]}
		}
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		return fail("nothing carried")
	}
	fs := mkRecs(v, cs)
	last := len(confs) - 1 // same configuration as loopBack
	kT := int(T.iv)
	if kT > last {
		period := last - loopBack
		kT = loopBack + (kT-loopBack)%period
	}
	fin := confs[kT]
	out := fin.st.fork()
	for i, l := range fin.lives {
		x.setLive(out, l, func(j *Term) *Term {
			if l.off == nil {
				return fs[i](T, nil)
			}
			return fs[i](T, []*Term{j})
		})
	}
	fr.ctx = ctx
	for i, p := range lc.phis {
		if f := ivs[i]; f != nil {
			fr.env[p.phi] = f(T)
		} else {
			fr.env[p.phi] = fin.vals[i]
		}
	}
	x.quiet++
	es := x.execBlock(fr, lc.L.header, out)
	x.quiet--
	var res []edge
	for _, e := range es {
		if !lc.L.blocks[e.to] {
			e.st.pc = lc.st0.pc
			res = append(res, e)
		}
	}
	if len(res) == 0 {
		return fail("no exit")
	}
	ok = true
	lc.note(fmt.Sprintf("summarised over %d buffer configurations, %d trips", len(confs)-1, T.iv))
	return res, true
}

func boundHi(n *Term) int64 {
	if n == nil {
		return 1
	}
	if _, h := Bounds(n); h < inf {
		return h
	}
	return 1 << 62
}

func (l *liveArr) at(xv *Term) []*Term {
	J := append([]*Term(nil), l.pre...)
	if l.off != nil {
		J = append(J, Add(l.off, xv))
	}
	return J
}

func disjointLives(ls []*liveArr) bool {
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			a, b := ls[i], ls[j]
			if a.key != b.key {
				continue
			}
			same := true
			for k := range a.pre {
				if Eq(a.pre[k], b.pre[k]).isFalse() {
					same = false
				}
			}
			if !same {
				continue
			}
			if a.off != nil && b.off != nil {
				if Not(Lt0(Sub(Sub(b.off, a.off), a.n))).isTrue() || Not(Lt0(Sub(Sub(a.off, b.off), b.n))).isTrue() {
					continue
				}
			}
			return false
		}
	}
	return true
}

func (x *Interp) setLive(st *State, l *liveArr, val func(j *Term) *Term) {
	c := x.content(st, l.key)
	if l.off == nil {
		st.set(l.key, c.push(&Upd{idx: l.pre, guard: True(), val: val(nil)}))
		return
	}
	j := NewVar("j", 0, boundHi(l.n))
	st.set(l.key, c.push(&Upd{vars: []*Term{j}, n: []*Term{l.n}, idx: l.at(j), guard: True(), val: val(j)}))
}

// liveWalk lists the numeric data reachable from v and renders the references.
func (x *Interp) liveWalk(st *State, v Value, t types.Type, path string, out *[]*liveArr, sig *strings.Builder, fresh func(*Obj) bool, d int) bool {
	if d > 6 {
		return false
	}
	objSig := func(p *Ptr) {
		if fresh(p.obj) {
			fmt.Fprintf(sig, "new(%s)", p.obj.typ)
		} else {
			fmt.Fprintf(sig, "o%d", p.obj.id)
			for _, f := range p.fam {
				fmt.Fprintf(sig, "{%d}", f.id)
			}
		}
		for _, s := range p.path {
			if s.f < 0 {
				fmt.Fprintf(sig, "[%d]", s.idx.id)
			} else {
				fmt.Fprintf(sig, ".%d", s.f)
			}
		}
	}
	switch y := v.(type) {
	case NilV:
		sig.WriteString("nil;")
		return true
	case *Ptr:
		objSig(y)
		sig.WriteByte(';')
		et := ptrElem(y)
		return x.liveMem(st, y, et, path+"*", out, sig, fresh, d+1)
	case *SliceV:
		objSig(y.base)
		fmt.Fprintf(sig, "[%d:%d];", y.off.id, y.len.id)
		et := elemOfSlice(y)
		ty, ok := tyOf(et)
		if !ok {
			return false
		}
		k, idx := leafKey(y.base.elem(y.off))
		nm, own := liveName(path)
		*out = append(*out, &liveArr{path: path, key: k, pre: idx[:len(idx)-1], off: y.off, n: y.len, ty: ty, own: own, name: nm})
		return true
	}
	fmt.Fprintf(sig, "?%T %s", v, ShowVal(v))
	return false
}

func (x *Interp) liveMem(st *State, p *Ptr, t types.Type, path string, out *[]*liveArr, sig *strings.Builder, fresh func(*Obj) bool, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !x.liveMem(st, p.field(i), u.Field(i).Type(), fmt.Sprintf("%s.%s", path, u.Field(i).Name()), out, sig, fresh, d) {
				return false
			}
		}
		return true
	case *types.Slice, *types.Pointer:
		return x.liveWalk(st, x.load(st, p, t), t, path, out, sig, fresh, d+1)
	}
	if ty, ok := tyOf(t); ok {
		k, idx := leafKey(p)
		nm, own := liveName(path)
		*out = append(*out, &liveArr{path: path, key: k, pre: idx, ty: ty, own: own, name: nm})
		return true
	}
	return false
}

// discrete renders the constant cells of a counter written since base.
func (x *Interp) discrete(st *State, k Key, c *Content, base *State, fresh func(*Obj) bool) (string, bool) {
	ty, isT := tyOf(pathType(k.obj, k.path))
	if isT && ty != TI64 && ty != TBool {
		return "", false
	}
	stop := x.content(base, k)
	seen := map[string]bool{}
	var parts []string
	for c0 := c; c0 != nil && c0 != stop && c0.upd != nil; c0 = c0.parent {
		u := c0.upd
		if len(u.vars) > 0 {
			return "", false
		}
		key := ""
		for i, e := range u.idx {
			if e.op == OVar && x.isActive(e) {
				// the iteration of an enclosing loop: fixed here, and the only one used
				if c.upd == nil || i >= len(c.upd.idx) || c.upd.idx[i] != e {
					return "", false
				}
				key += fmt.Sprintf("v%d,", e.id)
				continue
			}
			if e.op != OConst || c.upd != nil && i < len(c.upd.idx) && c.upd.idx[i].op != OConst {
				return "", false
			}
			key += fmt.Sprintf("%d,", e.iv)
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		v := x.read(st, c, u.idx)
		switch y := v.(type) {
		case *Term:
			if y.op != OConst {
				return "", false
			}
			parts = append(parts, fmt.Sprintf("%s:%s", key, y))
		case *Ptr:
			if fresh(y.obj) {
				return "", false
			}
			parts = append(parts, fmt.Sprintf("%s:%s", key, ShowVal(y)))
		case NilV:
			parts = append(parts, key+":nil")
		default:
			return "", false
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, " "), true
}

// stale is the content of a scratch location of which nothing is known any more: the cells
// written since base are forgotten.
func (x *Interp) stale(st, base *State, key Key) *Content {
	u := x.allCells(key)
	b := x.content(base, key)
	for i := range u.idx {
		var at *Term
		same := true
		for c := x.content(st, key); c != nil && c != b && c.upd != nil; c = c.parent {
			if i >= len(c.upd.idx) || at != nil && c.upd.idx[i] != at {
				same = false
				break
			}
			at = c.upd.idx[i]
		}
		if same && at != nil && at.op == OVar && x.isActive(at) {
			v := u.idx[i]
			u.idx[i] = at
			for k := range u.vars {
				if u.vars[k] == v {
					u.vars = append(append([]*Term(nil), u.vars[:k]...), u.vars[k+1:]...)
					u.n = append(append([]*Term(nil), u.n[:k]...), u.n[k+1:]...)
					break
				}
			}
		}
	}
	ty, _ := tyOf(pathType(key.obj, key.path))
	u.val = opaque("stale "+x.keyName(key), ty, u.vars...)
	return b.push(u)
}

func (x *Interp) isActive(v *Term) bool {
	for _, a := range x.active {
		if a.v == v {
			return true
		}
	}
	return false
}
