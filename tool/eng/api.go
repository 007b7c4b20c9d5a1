package eng

import (
	"fmt"
	"go/types"
	"strings"
)

// StructField returns field i of a struct value.
func StructField(v Value, i int) Value { return fieldOf(v, i) }

// ArrayTerm abstracts the current contents of a slice of scalars.
func (x *Interp) ArrayTerm(st *State, s Value, n *Term) (*Term, bool) {
	sv, ok := s.(*SliceV)
	if !ok {
		return nil, false
	}
	if n == nil {
		n = sv.len
	}
	w := NewVar("a", 0, boundHi(n))
	t, ok := x.load(st, sv.base.elem(Add(sv.off, w)), elemOfSlice(sv)).(*Term)
	if !ok {
		return nil, false
	}
	return ArrOf(n, w, t), true
}

// BulkWrite writes f(j) to elements 0..n-1 of a slice.
func (x *Interp) BulkWrite(st *State, s Value, n *Term, f func(j *Term) *Term) bool {
	sv, ok := s.(*SliceV)
	if !ok {
		return false
	}
	x.bulk(st, sv, n, func(j *Term) Value { return f(j) })
	return true
}

// ReadElem reads element j of a slice of scalars.
func (x *Interp) ReadElem(st *State, s Value, j *Term) *Term {
	sv, ok := s.(*SliceV)
	if !ok {
		if it, ok := s.(*IteV); ok {
			return Ite(it.c, x.ReadElem(st, it.a, j), x.ReadElem(st, it.b, j))
		}
		return opaque("element of "+ShowVal(s), TU32)
	}
	if t, ok := x.load(st, sv.base.elem(Add(sv.off, j)), elemOfSlice(sv)).(*Term); ok {
		return t
	}
	return opaque("element", TU32)
}

// Problem records that something could not be decided.
func (x *Interp) Problem(f string, a ...interface{}) { x.problem(f, a...) }

// Opaque is a fresh unknown.
func Opaque(why string, ty Ty, idx ...*Term) *Term { return opaque(why, ty, idx...) }

// SliceLen is the length of a slice value, nil if unknown.
func SliceLen(v Value) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.len
	case NilV:
		return I(0)
	case *IteV:
		a, b := SliceLen(s.a), SliceLen(s.b)
		if a != nil && b != nil {
			return Ite(s.c, a, b)
		}
	}
	return nil
}

// CurPtr is the element type a pointer designates.
func PtrType(v Value) types.Type {
	if p, ok := v.(*Ptr); ok {
		return ptrElem(p)
	}
	return nil
}

// Unit is the empty result.
func Unit() Value { return &TupleV{} }

// OwnerType names the struct type that declares the field k designates (or the pointee type).
func OwnerType(k Key) string {
	i := strings.LastIndexByte(k.path, '.')
	t := k.obj.typ
	if i >= 0 {
		t = pathType(k.obj, k.path[:i])
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// ConcreteSlice is a caller-provided slice of n elements.
func (x *Interp) SymSlice(name string, elem types.Type, n int64) Value {
	return x.NewSymSlice(name, elem, I(n))
}

// TupleElem returns result i of a call.
func TupleElem(v Value, i int) Value {
	if t, ok := v.(*TupleV); ok && i < len(t.e) {
		return t.e[i]
	}
	return v
}

// IsNil reports a nil reference.
func IsNil(v Value) bool { _, ok := v.(NilV); return ok }

// IsIte reports a conditional reference (or composite) value.
func IsIte(v Value) bool { _, ok := v.(*IteV); return ok }

// CmpCases compares two values case by case.
func (x *Interp) CmpCases(a, b Value, pc []*Term, f func(a, b Value, pc []*Term) string) string {
	var c *Term
	if i, ok := a.(*IteV); ok {
		c = i.c
	} else if i, ok := b.(*IteV); ok {
		c = i.c
	} else {
		return f(a, b, pc)
	}
	pick := func(v Value, t bool) Value {
		i, ok := v.(*IteV)
		if !ok {
			return v
		}
		if i.c == c {
			if t {
				return i.a
			}
			return i.b
		}
		l := c
		if !t {
			l = Not(c)
		}
		if Unsat(append(append([]*Term(nil), pc...), l, i.c)...) {
			return i.b
		}
		if Unsat(append(append([]*Term(nil), pc...), l, Not(i.c))...) {
			return i.a
		}
		return v
	}
	for _, t := range []bool{true, false} {
		l := c
		if !t {
			l = Not(c)
		}
		npc := append(append([]*Term(nil), pc...), l)
		if Unsat(npc...) {
			continue
		}
		na, nb := pick(a, t), pick(b, t)
		if s := f(na, nb, npc); s != "" {
			return s
		}
	}
	return ""
}

// Mono is a monomial of an integer polynomial term.
type Mono struct {
	Coef  int64
	Atoms []*Term
}

// Monos decomposes an integer term into monomials.
func Monos(t *Term) []Mono {
	if t.op == OConst {
		if t.iv == 0 {
			return nil
		}
		return []Mono{{t.iv, nil}}
	}
	if t.op != OPoly {
		return []Mono{{1, []*Term{t}}}
	}
	var r []Mono
	for _, m := range t.mon {
		r = append(r, Mono{m.ci, m.atoms})
	}
	return r
}

// NewObjAt allocates an object on behalf of a modelled call.
func (x *Interp) NewObjAt(ctx, what string, t types.Type, n *Term) Value {
	key := ctx + "@model:" + what
	o, ok := x.sites[key]
	if !ok {
		o = x.newObj("model."+what, t)
		o.nfam = len(x.active)
		x.sites[key] = o
	}
	x.nalloc++
	o.born = x.nalloc
	o.typ = t
	if n != nil {
		o.arr = true
		o.n = n
	}
	o.famN = nil
	p := &Ptr{obj: o}
	for _, a := range x.active {
		p.fam = append(p.fam, a.v)
		o.famN = append(o.famN, a.n)
	}
	if n != nil {
		return &SliceV{p, I(0), n, n}
	}
	return p
}

// StoreField writes a struct field.
func (x *Interp) StoreField(st *State, p Value, field string, v Value) {
	f, t := x.Field(p, field)
	if t == nil {
		x.problem("no field %s", field)
		return
	}
	x.store(st, f, t, v, True())
}

// LoadField reads a struct field.
func (x *Interp) LoadField(st *State, p Value, field string) Value {
	f, t := x.Field(p, field)
	if t == nil {
		return unk("field %s", field)
	}
	return x.load(st, f, t)
}

// Fork copies a state.
func (st *State) Fork() *State { return st.fork() }

// Simplify resolves the conditionals of t that the conditions decide.
func Simplify(t *Term, pc ...*Term) *Term {
	if len(pc) == 0 {
		return t
	}
	c := And(pc...)
	for i := 0; i < 50; i++ {
		done := true
		for _, l := range conds(t) {
			if Unsat(c, l) {
				t = applyCase(t, l, false)
				done = false
				break
			}
			if Unsat(c, Not(l)) {
				t = applyCase(t, l, true)
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	return t
}

// conds lists the literals deciding conditionals of t outside binders.
func conds(t *Term) []*Term {
	var out []*Term
	add := func(c *Term) {
		for _, l := range Atoms(c, func(x *Term) bool {
			return x.ty == TBool && x.bv == 0 && (x.op == OLt0 || x.op == OEq0 || x.op == OLt || x.op == OEq)
		}) {
			out = append(out, l)
		}
	}
	for _, a := range Atoms(t, func(x *Term) bool { return x.op == OIte && x.bv == 0 }) {
		add(a.args[0])
	}
	return out
}

// Under resolves a conditional value the condition decides.
func (x *Interp) Under(v Value, c *Term) Value {
	if i, ok := v.(*IteV); ok {
		if Unsat(c, i.c) {
			return x.Under(i.b, c)
		}
		if Unsat(c, Not(i.c)) {
			return x.Under(i.a, c)
		}
	}
	return v
}

// Havoc forgets the numbers stored in the arrays reachable from v: every torus or real cell holds
// an arbitrary (but fixed) value afterwards. References and counters are kept.
func (x *Interp) Havoc(st *State, v Value) int {
	n := 0
	seen := map[*Obj]bool{}
	for _, p := range x.reach(st, v) {
		o := p.obj
		if seen[o] || !o.arr {
			continue
		}
		seen[o] = true
		ty, ok := tyOf(o.typ)
		if !ok || ty != TU32 && ty != TF64 {
			continue
		}
		k := Key{o, "[]"}
		u := x.allCells(k)
		u.val = Sel(fmt.Sprintf("stale%d:%s", o.id, o.name), ty, 0, u.idx...)
		st.set(k, x.content(st, k).push(u))
		n++
	}
	return n
}

// Replace substitutes every occurrence of a subterm (outside its own binders).
func Replace(t, old, by *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == old {
			return by
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := Rebuild(t, rec)
		memo[t.id] = r
		return r
	}
	return rec(t, 0)
}

// CallSym is the result of an arbitrary (pure) function value.
func (x *Interp) CallSym(f Value, ty Ty, args ...*Term) *Term {
	if v, ok := f.(*FuncV); ok {
		return Fn(v.sym, ty, args...)
	}
	return opaque("function value", ty)
}

// Tuple makes a multiple result.
func Tuple(vs ...Value) Value { return &TupleV{vs} }

// Unwrap gives the dynamic value of an interface value.
func Unwrap(v Value) Value {
	if i, ok := v.(*IfaceV); ok {
		return i.v
	}
	return v
}

// Type is the dynamic type of an interface value.
func (i *IfaceV) Type() types.Type { return i.typ }

// Value is the dynamic value of an interface value.
func (i *IfaceV) Value() Value { return i.v }

// PtrEq reports pointers to the same object.
func PtrEq(a, b Value) bool {
	p, ok1 := a.(*Ptr)
	q, ok2 := b.(*Ptr)
	return ok1 && ok2 && p.obj == q.obj
}

// Dropped recognises a 64-bit number with its lowest or highest bit removed.
func Dropped(t *Term) (*Term, bool) {
	for t.op == OConv {
		t = t.args[0]
	}
	switch {
	case t.op == OShr && t.args[1].op == OConst && t.args[1].iv == 1:
		return t.args[0], true
	case t.op == OBAnd && t.args[1].op == OConst && t.args[1].iv == 1<<63-1:
		return t.args[0], true
	case t.op == ODiv && t.args[1].op == OConst && t.args[1].iv == 2, t.op == ORem && t.args[1].op == OConst && uint64(t.args[1].iv) == 1<<63:
		return t.args[0], true
	}
	return nil, false
}

// LowBits recognises the lowest k bits of a number.
func LowBits(t *Term, k uint) (*Term, bool) {
	switch {
	case t.op == OBAnd && t.args[1].op == OConst && t.args[1].iv == 1<<k-1:
		return t.args[0], true
	case t.op == ORem && t.args[1].op == OConst && t.args[1].iv == 1<<k:
		return t.args[0], true
	}
	return nil, false
}

// StrVal is the text of a constant string.
func StrVal(t *Term) (string, bool) {
	if t != nil && t.ty == TStr && t.op == OConst {
		return t.name, true
	}
	return "", false
}

// Distinct: two integers that certainly differ.
func Distinct(a, b *Term) bool { return Eq(a, b).isFalse() }

// ObjType is the type of an object's contents.
func ObjType(o *Obj) types.Type { return o.typ }
