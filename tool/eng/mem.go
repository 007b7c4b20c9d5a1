package eng

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Key names one leaf location family: an object and a field path.
type Key struct {
	obj  *Obj
	path string
}

func (k Key) Obj() *Obj    { return k.obj }
func (k Key) Path() string { return k.path }

// Upd is a guarded (possibly quantified) write: for all vars in [0,n): guard => mem[idx] = val.
type Upd struct {
	vars, n []*Term
	idx     []*Term
	guard   *Term
	val     Value
}

type rootKind int

const (
	rZero rootKind = iota
	rInit
	rPrev
)

type Root struct {
	kind rootKind
	key  Key
	typ  types.Type
	name string
	own  int32
	mod  *modInfo
}

// Content is a persistent list of updates over a root.
type Content struct {
	parent *Content
	upd    *Upd
	root   *Root
	depth  int
}

func (c *Content) push(u *Upd) *Content {
	return &Content{parent: c, upd: u, root: c.root, depth: c.depth + 1}
}

type layer struct {
	parent *layer
	m      map[Key]*Content
	depth  int
}

type pcNode struct {
	parent *pcNode
	lit    *Term
	depth  int
}

// State is an abstract memory with a path condition.
type State struct {
	mem *layer
	pc  *pcNode
}

func newState() *State { return &State{mem: &layer{m: map[Key]*Content{}}} }

func (s *State) fork() *State {
	return &State{mem: &layer{parent: s.mem, m: map[Key]*Content{}, depth: s.mem.depth + 1}, pc: s.pc}
}

func (s *State) get(k Key) *Content {
	for l := s.mem; l != nil; l = l.parent {
		if c, ok := l.m[k]; ok {
			return c
		}
	}
	return nil
}

func (s *State) set(k Key, c *Content) { s.mem.m[k] = c }

func (s *State) assume(lit *Term) *State {
	if lit.isTrue() {
		return s
	}
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &pcNode{s.pc, lit, d}
	return s
}

// keysSince lists the keys written in layers above base.
func (s *State) keysSince(base *layer) map[Key]bool {
	r := map[Key]bool{}
	for l := s.mem; l != nil && l != base; l = l.parent {
		for k := range l.m {
			r[k] = true
		}
	}
	return r
}

// AllKeys lists every materialised location.
func (s *State) AllKeys() map[Key]bool { return s.keysSince(nil) }

func pcDepth(p *pcNode) int {
	if p == nil {
		return 0
	}
	return p.depth
}

func pcSplit(a, b *pcNode) (anc *pcNode, la, lb []*Term) {
	for pcDepth(a) > pcDepth(b) {
		la = append(la, a.lit)
		a = a.parent
	}
	for pcDepth(b) > pcDepth(a) {
		lb = append(lb, b.lit)
		b = b.parent
	}
	for a != b {
		la = append(la, a.lit)
		a = a.parent
		lb = append(lb, b.lit)
		b = b.parent
	}
	return a, la, lb
}

func (x *Interp) pcLits(s *State, base *pcNode) []*Term {
	var r []*Term
	for p := s.pc; p != nil && p != base; p = p.parent {
		r = append(r, p.lit)
	}
	return r
}

// mergeStates joins two states; sel is true when a was taken.
func (x *Interp) mergeStates(a, b *State) (*State, *Term) {
	anc, la, lb := pcSplit(a.pc, b.pc)
	sel := And(la...)
	// the first diverging literals are usually complementary
	if len(la) > 0 && len(lb) > 0 && la[len(la)-1] == Not(lb[len(lb)-1]) {
		sel = la[len(la)-1]
	}
	un := Or(And(la...), And(lb...))
	// common layer
	pa, pb := a.mem, b.mem
	for pa != pb {
		if pa == nil || pb == nil {
			pa = nil
			break
		}
		if pa.depth >= pb.depth && pa.depth > 0 {
			pa = pa.parent
		} else {
			pb = pb.parent
		}
	}
	base := pa
	res := &State{mem: &layer{parent: base, m: map[Key]*Content{}, depth: 1}, pc: anc}
	if base != nil {
		res.mem.depth = base.depth + 1
	}
	keys := a.keysSince(base)
	for k := range b.keysSince(base) {
		keys[k] = true
	}
	for k := range keys {
		ca, cb := a.get(k), b.get(k)
		if ca == nil || cb == nil {
			// materialised on one side only: the other side holds the object's root
			r := x.rootOf(k)
			if ca == nil {
				ca = r
			}
			if cb == nil {
				cb = r
			}
		}
		res.set(k, x.mergeContent(sel, ca, cb))
	}
	if !un.isTrue() {
		res.assume(un)
	}
	return res, sel
}

func (x *Interp) mergeContent(sel *Term, a, b *Content) *Content {
	if a == b {
		return a
	}
	var ua, ub []*Upd
	pa, pb := a, b
	for pa != pb {
		if pa.depth >= pb.depth {
			if pa.upd == nil {
				break
			}
			ua = append(ua, pa.upd)
			pa = pa.parent
		} else {
			if pb.upd == nil {
				break
			}
			ub = append(ub, pb.upd)
			pb = pb.parent
		}
	}
	if pa != pb {
		if pa.upd == nil && pb.upd == nil && pa.root == pb.root {
			pb = pa
		} else if pa.root.kind == pb.root.kind && pa.root.name == pb.root.name && pa.root.key == pb.root.key {
			pb = pa
		} else {
			x.problem("memory join without common ancestor for %s", x.keyName(a.root.key))
			return a
		}
	}
	c := pa
	// same tail pairs: identical point writes collapse into one conditional write
	if len(ua) == 1 && len(ub) == 1 && len(ua[0].vars) == 0 && len(ub[0].vars) == 0 && ua[0].guard.isTrue() && ub[0].guard.isTrue() && sameTerms(ua[0].idx, ub[0].idx) {
		return c.push(&Upd{idx: ua[0].idx, guard: True(), val: mkIte(sel, ua[0].val, ub[0].val)})
	}
	for i := len(ua) - 1; i >= 0; i-- {
		u := *ua[i]
		u.guard = And(u.guard, sel)
		if !u.guard.isFalse() {
			c = c.push(&u)
		}
	}
	ns := Not(sel)
	for i := len(ub) - 1; i >= 0; i-- {
		u := *ub[i]
		u.guard = And(u.guard, ns)
		if !u.guard.isFalse() {
			c = c.push(&u)
		}
	}
	return c
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- keys and types

// pathType walks a key path from the object type.
func pathType(o *Obj, path string) types.Type {
	t := o.typ
	i := 0
	if o.arr && strings.HasPrefix(path, "[]") {
		i = 2
	}
	for i < len(path) {
		if path[i] == '[' {
			t = t.Underlying().(*types.Array).Elem()
			i += 2
			continue
		}
		j := i + 1
		for j < len(path) && path[j] >= '0' && path[j] <= '9' {
			j++
		}
		n, _ := strconv.Atoi(path[i+1 : j])
		t = t.Underlying().(*types.Struct).Field(n).Type()
		i = j
	}
	return t
}

// KeyName renders a location family readably.
func (x *Interp) keyName(k Key) string {
	t := k.obj.typ
	i := 0
	var b strings.Builder
	b.WriteString(k.obj.name)
	if k.obj.arr && strings.HasPrefix(k.path, "[]") {
		i = 2
		b.WriteString("[]")
	}
	for i < len(k.path) {
		if k.path[i] == '[' {
			t = t.Underlying().(*types.Array).Elem()
			b.WriteString("[]")
			i += 2
			continue
		}
		j := i + 1
		for j < len(k.path) && k.path[j] >= '0' && k.path[j] <= '9' {
			j++
		}
		n, _ := strconv.Atoi(k.path[i+1 : j])
		f := t.Underlying().(*types.Struct).Field(n)
		b.WriteString("." + f.Name())
		t = f.Type()
		i = j
	}
	return b.String()
}

// KeyName exports keyName.
func (x *Interp) KeyName(k Key) string { return x.keyName(k) }

// extents returns the index extents of a key (nil where unknown).
func (x *Interp) extents(k Key) []*Term {
	var r []*Term
	r = append(r, k.obj.famN...)
	for len(r) < k.obj.nfam {
		r = append(r, nil)
	}
	t := k.obj.typ
	i := 0
	if k.obj.arr && strings.HasPrefix(k.path, "[]") {
		if k.obj.grow {
			r = append(r, nil)
		} else {
			r = append(r, k.obj.n)
		}
		i = 2
	}
	for i < len(k.path) {
		if k.path[i] == '[' {
			a := t.Underlying().(*types.Array)
			r = append(r, I(a.Len()))
			t = a.Elem()
			i += 2
			continue
		}
		j := i + 1
		for j < len(k.path) && k.path[j] >= '0' && k.path[j] <= '9' {
			j++
		}
		n, _ := strconv.Atoi(k.path[i+1 : j])
		t = t.Underlying().(*types.Struct).Field(n).Type()
		i = j
	}
	return r
}

func (x *Interp) rootOf(k Key) *Content {
	if c, ok := x.roots[k]; ok {
		return c
	}
	kind := rZero
	if k.obj.sym {
		kind = rInit
	}
	c := &Content{root: &Root{kind: kind, key: k, typ: pathType(k.obj, k.path), name: x.keyName(k)}}
	x.roots[k] = c
	return c
}

func (x *Interp) content(st *State, k Key) *Content {
	if c := st.get(k); c != nil {
		return c
	}
	return x.rootOf(k)
}

// leafKey converts a pointer to a key and its indices.
func leafKey(p *Ptr) (Key, []*Term) {
	idx := append([]*Term(nil), p.fam...)
	var b strings.Builder
	for _, s := range p.path {
		if s.f < 0 {
			b.WriteString("[]")
			idx = append(idx, s.idx)
		} else {
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(s.f))
		}
	}
	return Key{p.obj, b.String()}, idx
}

func (p *Ptr) field(i int) *Ptr {
	n := &Ptr{obj: p.obj, fam: p.fam}
	n.path = append(append([]step(nil), p.path...), step{f: i})
	return n
}

// elem addresses element i of the array p points to (or of the window).
func (p *Ptr) elem(i *Term) *Ptr {
	n := &Ptr{obj: p.obj, fam: p.fam}
	n.path = append([]step(nil), p.path...)
	if p.win > 0 {
		l := &n.path[len(n.path)-1]
		l.idx = Add(l.idx, i)
		return n
	}
	n.path = append(n.path, step{f: -1, idx: i})
	return n
}

// ---------------------------------------------------------------- load / store

func isLeaf(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// load reads a value of type t at p.
func (x *Interp) load(st *State, pv Value, t types.Type) Value {
	switch p := pv.(type) {
	case *IteV:
		return mkIte(p.c, x.load(st, p.a, t), x.load(st, p.b, t))
	case *Ptr:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := &StructV{}
			for i := 0; i < u.NumFields(); i++ {
				s.f = append(s.f, x.load(st, p.field(i), u.Field(i).Type()))
			}
			return s
		case *types.Array:
			if u.Len() > 64 {
				return unk("load of a large array")
			}
			a := &ArrV{}
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, x.load(st, p.elem(I(i)), u.Elem()))
			}
			return a
		}
		k, idx := leafKey(p)
		x.logAccess(st, k, idx, false)
		return x.read(st, x.content(st, k), idx)
	case NilV:
		return unk("load through nil")
	}
	return unkOf(t, "load through unknown pointer")
}

func unkOf(t types.Type, why string) Value {
	if ty, ok := tyOf(t); ok {
		return opaque(why, ty)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, unkOf(u.Field(i).Type(), why))
		}
		return s
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.e = append(s.e, unkOf(u.At(i).Type(), why))
		}
		return s
	}
	return unk("%s", why)
}

func (x *Interp) store(st *State, pv Value, t types.Type, v Value, guard *Term) {
	switch p := pv.(type) {
	case *IteV:
		x.store(st, p.a, t, v, And(guard, p.c))
		x.store(st, p.b, t, v, And(guard, Not(p.c)))
		return
	case *Ptr:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if iv, ok := v.(*IteV); ok {
				x.store(st, pv, t, iv.b, guard)
				x.store(st, pv, t, iv.a, And(guard, iv.c))
				return
			}
			s, ok := v.(*StructV)
			for i := 0; i < u.NumFields(); i++ {
				var fv Value
				if ok {
					fv = s.f[i]
				} else {
					fv = unkOf(u.Field(i).Type(), "store of unknown struct")
				}
				x.store(st, p.field(i), u.Field(i).Type(), fv, guard)
			}
			return
		case *types.Array:
			s, ok := v.(*ArrV)
			if !ok && u.Len() > 64 {
				x.problem("store of unknown array")
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				var fv Value
				if ok {
					fv = s.e[i]
				} else {
					fv = unkOf(u.Elem(), "store of unknown array")
				}
				x.store(st, p.elem(I(i)), u.Elem(), fv, guard)
			}
			return
		}
		k, idx := leafKey(p)
		x.logAccess(st, k, idx, true)
		if guard.isFalse() {
			return
		}
		c := x.content(st, k)
		// overwrite of the same cell replaces the previous write
		if c.upd != nil && guard.isTrue() && len(c.upd.vars) == 0 && c.upd.guard.isTrue() && sameTerms(c.upd.idx, idx) {
			c = c.parent
		}
		st.set(k, c.push(&Upd{idx: idx, guard: guard, val: v}))
		return
	case NilV:
		x.problem("store through nil")
		return
	}
	x.problem("store through an unknown pointer (%s)", ShowVal(pv))
}

// bulk writes val(j) to elements off+j, 0<=j<n of slice s.
func (x *Interp) bulk(st *State, s *SliceV, n *Term, val func(j *Term) Value) {
	if n.op == OConst && n.iv <= 0 {
		return
	}
	hi := int64(1<<62 - 1)
	if _, h := Bounds(n); h < inf {
		hi = h
	}
	j := NewVar("j", 0, hi)
	p := s.base.elem(Add(s.off, j))
	k, idx := leafKey(p)
	x.logAccessQ(st, k, idx, true, []*Term{j}, []*Term{n})
	v := val(j)
	c := x.content(st, k)
	st.set(k, c.push(&Upd{vars: []*Term{j}, n: []*Term{n}, idx: idx, guard: True(), val: v}))
}

// simp simplifies a boolean under the path condition.
func (x *Interp) simp(st *State, t *Term) *Term {
	if t.op == OConst || st == nil {
		return t
	}
	n := 0
	for p := st.pc; p != nil && n < 40; p = p.parent {
		t = assume(t, p.lit, true)
		if p.lit.op == OAnd {
			for _, l := range p.lit.args {
				t = assume(t, l, true)
			}
		}
		if t.op == OConst {
			return t
		}
		n++
	}
	if t.op == OLt0 || t.op == OAnd {
		var fs []*Term
		for p, k := st.pc, 0; p != nil && k < 24; p, k = p.parent, k+1 {
			if p.lit.op == OLt0 {
				fs = append(fs, p.lit.args[0])
			} else if p.lit.op == OAnd {
				for _, l := range p.lit.args {
					if l.op == OLt0 {
						fs = append(fs, l.args[0])
					}
				}
			}
		}
		if t.op == OLt0 {
			return decide2(t, fs)
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = a
			if a.op == OLt0 {
				as[i] = decide2(a, fs)
			}
		}
		return And(as...)
	}
	return t
}

// decide2 decides t = (d<0) from pairs of facts f<0 and the ranges of the variables.
func decide2(t *Term, fs []*Term) *Term {
	if len(fs) < 2 {
		return t
	}
	d := t.args[0]
	for i := range fs {
		a, b := Sub(d, fs[i]), Add(d, fs[i])
		for j := i + 1; j < len(fs); j++ {
			if _, hi := Bounds(Sub(a, fs[j])); hi <= 1 {
				return True()
			}
			if lo, _ := Bounds(Add(b, fs[j])); lo >= -2 {
				return False()
			}
		}
	}
	return t
}

// read evaluates a content at the given indices.
func (x *Interp) read(st *State, c *Content, J []*Term) Value {
	type cv struct {
		c *Term
		v Value
	}
	var acc []cv
	var res Value
	steps := 0
	for res == nil {
		if c.upd == nil {
			res = x.readRoot(st, c.root, J)
			break
		}
		steps++
		cond, sub, ok := match(c.upd, J)
		if !ok {
			if DebugMatch {
				fmt.Printf("nomatch %s: upd idx %v vars %v n %v; J %v\n", x.keyName(c.root.key), c.upd.idx, c.upd.vars, c.upd.n, J)
			}
			res = unkOf(c.root.typ, "unresolved read of "+x.keyName(c.root.key))
			break
		}
		if !cond.isFalse() {
			cond = x.simp(st, cond)
		}
		if cond.isFalse() {
			c = c.parent
			continue
		}
		v := c.upd.val
		if len(sub) > 0 {
			v = mapTerms(v, func(t *Term) *Term { return Subst(t, sub) })
		}
		if cond.isTrue() {
			res = v
			break
		}
		acc = append(acc, cv{cond, v})
		c = c.parent
	}
	if n := len(acc); n > 1 {
		// the guarded writes may cover every case
		cs := make([]*Term, 0, n+4)
		for _, a := range acc {
			cs = append(cs, Not(a.c))
		}
		if st != nil {
			for p, k := st.pc, 0; p != nil && k < 8; p, k = p.parent, k+1 {
				cs = append(cs, p.lit)
			}
		}
		if Unsat(cs...) {
			last := acc[n-1].c
			res = mapTerms(acc[n-1].v, func(t *Term) *Term { return assume(t, last, true) })
			acc = acc[:n-1]
		}
	}
	for i := len(acc) - 1; i >= 0; i-- {
		res = mkIte(acc[i].c, acc[i].v, res)
	}
	return res
}

// DebugMatch traces unresolved reads.
var DebugMatch bool

func (x *Interp) readRoot(st *State, r *Root, J []*Term) Value {
	switch r.kind {
	case rZero:
		return zeroVal(r.typ)
	case rInit:
		return x.symLeaf(r.key, r.name, r.typ, J)
	case rPrev:
		return x.readPrev(st, r, J)
	}
	return unk("root")
}

// symLeaf is the initial content of caller-provided memory.
func (x *Interp) symLeaf(k Key, name string, t types.Type, J []*Term) Value {
	if ty, ok := tyOf(t); ok {
		return Sel(name, ty, 0, J...)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &Ptr{obj: x.symChild(k, name, u.Elem(), false), fam: J}
	case *types.Slice:
		o := x.symChild(k, name, u.Elem(), true)
		n := o.n
		return &SliceV{&Ptr{obj: o, fam: J}, I(0), n, n}
	case *types.Signature:
		return &FuncV{sym: name}
	}
	return unk("initial value of %s", name)
}

func (x *Interp) symChild(k Key, name string, t types.Type, arr bool) *Obj {
	ck := Key{k.obj, k.path + "*"}
	if o, ok := x.children[ck]; ok {
		return o
	}
	o := x.newObj(name, t)
	o.sym = true
	o.arr = arr
	o.famN = x.extents(k)
	o.nfam = len(o.famN)
	o.Tag = k.obj.Tag
	if arr {
		o.n = nil
		if x.Shape != nil {
			o.n = x.Shape(x, k, t)
		}
		if o.n == nil {
			o.n = Fn("len", TI64, Str(name))
		}
	}
	x.children[ck] = o
	return o
}

func (x *Interp) newObj(name string, t types.Type) *Obj {
	x.nobj++
	return &Obj{id: x.nobj, name: name, typ: t}
}

// ---------------------------------------------------------------- index matching

// divExact divides t by c exactly; cond is the divisibility condition.
func divExact(t *Term, c int64) (*Term, *Term, bool) {
	if c < 0 {
		t, c = Neg(t), -c
	}
	if c == 1 {
		return t, True(), true
	}
	q, r := splitDiv(t, c)
	if r.op == OConst {
		if r.iv == 0 {
			return q, True(), true
		}
		return q, False(), true
	}
	rl, rh := Bounds(r)
	if rl > 0 && rh < c {
		return q, False(), true
	}
	if rl >= 0 && rh < c {
		return q, Eq(r, I(0)), true
	}
	if rl > -inf {
		k := int64(0)
		if rl < 0 {
			k = (-rl + c - 1) / c
		}
		rr := AddI(r, k*c)
		return Add(q, AddI(Div(rr, I(c)), -k)), Eq(Rem(rr, I(c)), I(0)), true
	}
	return nil, nil, false
}

// splitDiv writes t = c*q + r with the divisible monomials in q and the constant reduced.
func splitDiv(t *Term, c int64) (*Term, *Term) {
	var q, r []mono
	for _, m := range t.monos() {
		if m.ci%c == 0 {
			q = append(q, mono{m.atoms, m.ci / c, nil})
		} else if len(m.atoms) == 0 {
			f := floorDiv(m.ci, c)
			if f != 0 {
				q = append(q, mono{nil, f, nil})
			}
			r = append(r, mono{nil, m.ci - f*c, nil})
		} else {
			r = append(r, m)
		}
	}
	return mkPoly(TI64, q), mkPoly(TI64, r)
}

// floorDivT is floor(t/c), c>0.
func floorDivT(t *Term, c int64) (*Term, bool) {
	if c == 1 {
		return t, true
	}
	q, r := splitDiv(t, c)
	if r.op == OConst {
		return q, true
	}
	rl, rh := Bounds(r)
	if rl >= 0 && rh < c {
		return q, true
	}
	if rl > -inf {
		k := int64(0)
		if rl < 0 {
			k = (-rl + c - 1) / c
		}
		return Add(q, AddI(Div(AddI(r, k*c), I(c)), -k)), true
	}
	return nil, false
}

// match decides for which variable values an update covers index J. It returns the covering
// condition and the solution for the bound variables; ok=false if it cannot be decided.
func match(u *Upd, J []*Term) (*Term, map[int32]*Term, bool) {
	if len(u.idx) != len(J) {
		return nil, nil, false
	}
	var conds []*Term
	if len(u.vars) == 0 {
		for d := range J {
			c := Eq(u.idx[d], J[d])
			if c.isFalse() {
				return c, nil, true
			}
			conds = append(conds, c)
		}
		conds = append(conds, u.guard)
		return And(conds...), nil, true
	}
	sub := map[int32]*Term{}
	done := make([]bool, len(J))
	ord := map[int32]int{}
	for i, v := range u.vars {
		ord[v.VarID()] = i
	}
	unsolved := func(e *Term) []*Term {
		var r []*Term
		for _, v := range u.vars {
			if _, ok := sub[v.VarID()]; !ok && e.HasFV(v.VarID()) {
				r = append(r, v)
			}
		}
		return r
	}
	solve := func(e, j *Term, vs []*Term) bool {
		// e = sum c_k v_k + R
		type cv struct {
			v  *Term
			c  int64
			lo int64
			hi int64
		}
		var cs []cv
		R := e
		for _, v := range vs {
			c, rest, ok := Linear(R, v)
			if !ok {
				return false
			}
			R = rest
			hi := int64(-1)
			if n := u.n[ord[v.VarID()]]; n != nil {
				if _, nh := Bounds(n); nh < inf {
					hi = nh - 1
				}
			}
			cs = append(cs, cv{v: v, c: c, hi: hi})
		}
		for i := range cs {
			for k := i + 1; k < len(cs); k++ {
				if abs64(cs[k].c) > abs64(cs[i].c) {
					cs[i], cs[k] = cs[k], cs[i]
				}
			}
		}
		rhs := Sub(j, R)
		for i := range cs {
			if i == len(cs)-1 {
				q, cond, ok := divExact(mulSign(rhs, cs[i].c), abs64(cs[i].c))
				if !ok {
					return false
				}
				if cond.isFalse() {
					conds = append(conds, cond)
					return true
				}
				conds = append(conds, cond)
				sub[cs[i].v.VarID()] = q
				break
			}
			// range of the smaller part
			var lo, hi int64
			for k := i + 1; k < len(cs); k++ {
				if cs[k].hi < 0 {
					return false
				}
				if cs[k].c > 0 {
					hi += cs[k].c * cs[k].hi
				} else {
					lo += cs[k].c * cs[k].hi
				}
			}
			if hi-lo >= abs64(cs[i].c) {
				return false
			}
			var q *Term
			var ok bool
			if cs[i].c > 0 {
				q, ok = floorDivT(AddI(rhs, -lo), cs[i].c)
			} else {
				q, ok = floorDivT(AddI(Neg(rhs), hi), -cs[i].c)
			}
			if !ok {
				return false
			}
			sub[cs[i].v.VarID()] = q
			rhs = Sub(rhs, MulI(q, cs[i].c))
		}
		return true
	}
	for round := 0; round < len(J)+1; round++ {
		// the dimension with the fewest unsolved variables first
		best, bn := -1, 99
		for d := range J {
			if done[d] {
				continue
			}
			n := len(unsolved(u.idx[d]))
			if n < bn {
				best, bn = d, n
			}
		}
		if best < 0 {
			break
		}
		done[best] = true
		e := u.idx[best]
		if len(sub) > 0 {
			e = Subst(e, sub)
		}
		if bn == 0 {
			c := Eq(e, J[best])
			if c.isFalse() {
				return c, nil, true
			}
			conds = append(conds, c)
			continue
		}
		if !solve(e, J[best], unsolved(u.idx[best])) {
			return nil, nil, false
		}
		for _, c := range conds {
			if c.isFalse() {
				return c, nil, true
			}
		}
	}
	for i, v := range u.vars {
		s, ok := sub[v.VarID()]
		n := u.n[i]
		if n == nil {
			if !ok {
				return nil, nil, false
			}
			continue
		}
		if !ok {
			if u.guard.HasFV(v.VarID()) {
				return nil, nil, false
			}
			sub[v.VarID()] = AddI(n, -1)
			conds = append(conds, Lt0(Neg(n)))
			continue
		}
		c1 := Not(Lt0(s))
		if c1.isFalse() {
			return c1, nil, true
		}
		nn := n
		if len(n.fv) > 0 {
			nn = Subst(n, sub)
		}
		c2 := Lt0(Sub(s, nn))
		if c2.isFalse() {
			return c2, nil, true
		}
		conds = append(conds, c1, c2)
	}
	conds = append(conds, Subst(u.guard, sub))
	return And(conds...), sub, true
}

func mulSign(t *Term, c int64) *Term {
	if c < 0 {
		return Neg(t)
	}
	return t
}
