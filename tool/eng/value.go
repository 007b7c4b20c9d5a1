package eng

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value: *Term, *Ptr, *SliceV, *StructV, *ArrV, *TupleV, *FuncV, *IfaceV,
// NilV, *IteV or *Unk.
type Value interface{}

// Obj is an abstract memory object, or a family of them indexed by the loop variables that
// were active at its allocation.
type Obj struct {
	born  int // when it was last allocated
	id    int
	name  string
	typ   types.Type // content type; for backing arrays the element type
	arr   bool       // backing array of a slice: indices start with the element index
	n     *Term      // number of elements if arr
	nfam  int
	famN  []*Term // extents of the family indices (nil entry: unknown)
	sym   bool    // caller-provided (symbolic) memory
	grow  bool    // growable (append target)
	Where string  // allocation site
	Tag   string
}

func (o *Obj) Name() string    { return o.name }
func (o *Obj) Sym() bool       { return o.sym }
func (o *Obj) Typ() types.Type { return o.typ }

type step struct {
	f   int   // field index, or -1 for an array index
	idx *Term // for array index
}

// Ptr points into an object.
type Ptr struct {
	obj  *Obj
	fam  []*Term
	path []step
	win  int64 // >0: pointer to an array of win elements starting at the final index step
}

func (p *Ptr) Obj() *Obj    { return p.obj }
func (p *Ptr) Fam() []*Term { return p.fam }

// SliceV is a slice: base is a pointer to the element container (no final index).
type SliceV struct {
	base          *Ptr
	off, len, cap *Term
}

func (s *SliceV) Len() *Term { return s.len }
func (s *SliceV) Base() *Ptr { return s.base }
func (s *SliceV) Off() *Term { return s.off }

type StructV struct{ f []Value }
type ArrV struct {
	e []Value
}
type TupleV struct{ e []Value }
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	sym   string // uninterpreted function value
}
type IfaceV struct {
	typ types.Type
	v   Value
}
type NilV struct{}
type IteV struct {
	c    *Term
	a, b Value
}

// Unk is an undecided value.
type Unk struct{ why string }

func (u *Unk) Why() string { return u.why }

var unkSeq int

// here is the program point being analysed.
var here struct {
	x   *Interp
	fr  *frame
	cnt map[string]int
}

type unkKey struct {
	x   *Interp
	ctx string
	cur ssa.Instruction
	why string
}

var unks = map[unkKey]*Unk{}

// unk makes an undecided value, the same one whenever the same program point is analysed again.
func unk(format string, a ...interface{}) *Unk {
	why := fmt.Sprintf(format, a...)
	k := unkKey{x: here.x, why: why}
	if here.fr != nil {
		k.ctx, k.cur = here.fr.ctx, here.fr.cur
	}
	u, ok := unks[k]
	if !ok {
		u = &Unk{why}
		unks[k] = u
	}
	return u
}

// opaque makes a fresh scalar symbol that equals nothing else.
func opaque(why string, ty Ty, idx ...*Term) *Term {
	if here.x == nil || here.fr == nil || here.fr.cur == nil {
		unkSeq++
		return Fn(fmt.Sprintf("?%d:%s", unkSeq, why), ty, idx...)
	}
	// Named after the program point, the calling context and the iteration of
	// every enclosing loop: the same unknown however often it is analysed.
	x := here.x
	if here.cnt == nil {
		here.cnt = map[string]int{}
	}
	here.cnt[why]++
	args := make([]*Term, 0, len(x.active)+len(idx))
	for _, a := range x.active {
		args = append(args, a.v)
	}
	args = append(args, idx...)
	return Fn(fmt.Sprintf("?%d.%s@%d.%d:%s", x.seq, here.fr.ctx, x.instrID(here.fr.cur), here.cnt[why], why), ty, args...)
}

// IsOpaque reports whether an undecided symbol occurs in t, and which.
func IsOpaque(t *Term) (string, bool) {
	seen := map[int]bool{}
	var rec func(t *Term) string
	rec = func(t *Term) string {
		if seen[t.id] {
			return ""
		}
		seen[t.id] = true
		if (t.op == OFn || t.op == OSym) && strings.HasPrefix(t.name, "?") {
			return t.name
		}
		for _, a := range t.args {
			if s := rec(a); s != "" {
				return s
			}
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				if s := rec(a); s != "" {
					return s
				}
			}
		}
		return ""
	}
	s := rec(t)
	return s, s != ""
}

// tyOf maps a Go type to a term type (ok=false if not a scalar).
func tyOf(t types.Type) (Ty, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return TBool, true
		case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
			return TI64, true
		case types.Int32:
			return TI32, true
		case types.Int16:
			return TI16, true
		case types.Int8:
			return TI8, true
		case types.Uint, types.Uint64, types.Uintptr:
			return TU64, true
		case types.Uint32:
			return TU32, true
		case types.Uint16:
			return TU16, true
		case types.Uint8:
			return TU8, true
		case types.Float64, types.Float32, types.UntypedFloat:
			return TF64, true
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return TC128, true
		case types.String, types.UntypedString:
			return TStr, true
		}
	}
	return 0, false
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Value {
	if ty, ok := tyOf(t); ok {
		switch ty {
		case TStr:
			return Str("")
		case TC128:
			return Fn("complex", TC128, Float(0), Float(0))
		}
		return zero(ty)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{}
		if u.Len() > 4096 {
			return unk("large array value")
		}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, zeroVal(u.Elem()))
		}
		return a
	case *types.Tuple:
		v := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			v.e = append(v.e, zeroVal(u.At(i).Type()))
		}
		return v
	}
	return NilV{}
}

// mapTerms rebuilds a value with f applied to every term in it.
func mapTerms(v Value, f func(*Term) *Term) Value {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *Ptr:
		ch := false
		n := &Ptr{obj: x.obj, win: x.win}
		for _, t := range x.fam {
			u := f(t)
			ch = ch || u != t
			n.fam = append(n.fam, u)
		}
		for _, s := range x.path {
			if s.f < 0 {
				u := f(s.idx)
				ch = ch || u != s.idx
				s.idx = u
			}
			n.path = append(n.path, s)
		}
		if !ch {
			return x
		}
		return n
	case *SliceV:
		b := mapTerms(x.base, f).(*Ptr)
		return &SliceV{b, f(x.off), f(x.len), f(x.cap)}
	case *StructV:
		n := &StructV{make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = mapTerms(x.f[i], f)
		}
		return n
	case *ArrV:
		n := &ArrV{make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = mapTerms(x.e[i], f)
		}
		return n
	case *TupleV:
		n := &TupleV{make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = mapTerms(x.e[i], f)
		}
		return n
	case *IfaceV:
		return &IfaceV{x.typ, mapTerms(x.v, f)}
	case *FuncV:
		if len(x.binds) == 0 {
			return x
		}
		n := &FuncV{fn: x.fn, bi: x.bi, sym: x.sym}
		for _, b := range x.binds {
			n.binds = append(n.binds, mapTerms(b, f))
		}
		return n
	case *MapV:
		n := &MapV{}
		for _, e := range x.e {
			n.e = append(n.e, mapEnt{f(e.k), mapTerms(e.v, f)})
		}
		return n
	case *IteV:
		c := f(x.c)
		if c.isTrue() {
			return mapTerms(x.a, f)
		}
		if c.isFalse() {
			return mapTerms(x.b, f)
		}
		return mkIte(c, mapTerms(x.a, f), mapTerms(x.b, f))
	}
	return v
}

// valEq is structural identity of values.
func valEq(a, b Value) bool {
	switch x := a.(type) {
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if x.e[i].k != y.e[i].k || !valEq(x.e[i].v, y.e[i].v) {
				return false
			}
		}
		return true
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.obj != y.obj || x.win != y.win || len(x.path) != len(y.path) || len(x.fam) != len(y.fam) {
			return false
		}
		for i := range x.fam {
			if x.fam[i] != y.fam[i] {
				return false
			}
		}
		for i := range x.path {
			if x.path[i].f != y.path[i].f || x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && valEq(x.base, y.base) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !valEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !valEq(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !valEq(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.bi != y.bi || x.sym != y.sym || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !valEq(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.typ, y.typ) && valEq(x.v, y.v)
	case *IteV:
		y, ok := b.(*IteV)
		return ok && x.c == y.c && valEq(x.a, y.a) && valEq(x.b, y.b)
	case *Unk:
		return a == b
	}
	return false
}

// mkIte merges two values under a condition.
func mkIte(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if valEq(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.ty == y.ty {
				return Ite(c, x, y)
			}
			return unk("merge of %v and %v", x.ty, y.ty)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.obj == y.obj && x.win == y.win && len(x.path) == len(y.path) {
			same := true
			for i := range x.path {
				if x.path[i].f != y.path[i].f {
					same = false
				}
			}
			if same {
				n := &Ptr{obj: x.obj, win: x.win}
				for i := range x.fam {
					n.fam = append(n.fam, Ite(c, x.fam[i], y.fam[i]))
				}
				for i := range x.path {
					s := x.path[i]
					if s.f < 0 {
						s.idx = Ite(c, s.idx, y.path[i].idx)
					}
					n.path = append(n.path, s)
				}
				return n
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if bp, ok := mkIte(c, x.base, y.base).(*Ptr); ok {
				return &SliceV{bp, Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)}
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			n := &StructV{}
			for i := range x.f {
				n.f = append(n.f, mkIte(c, x.f[i], y.f[i]))
			}
			return n
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.e) == len(y.e) {
			n := &ArrV{}
			for i := range x.e {
				n.e = append(n.e, mkIte(c, x.e[i], y.e[i]))
			}
			return n
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.e) == len(y.e) {
			n := &TupleV{}
			for i := range x.e {
				n.e = append(n.e, mkIte(c, x.e[i], y.e[i]))
			}
			return n
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && types.Identical(x.typ, y.typ) {
			return &IfaceV{x.typ, mkIte(c, x.v, y.v)}
		}
	}
	return &IteV{c, a, b}
}

// ShowVal renders a value for reports.
func ShowVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Ptr:
		var b strings.Builder
		b.WriteString("&" + x.obj.name)
		if len(x.fam) > 0 {
			s := []string{}
			for _, t := range x.fam {
				s = append(s, t.String())
			}
			b.WriteString("{" + strings.Join(s, ",") + "}")
		}
		for _, s := range x.path {
			if s.f < 0 {
				b.WriteString("[" + s.idx.String() + "]")
			} else {
				fmt.Fprintf(&b, ".%d", s.f)
			}
		}
		if x.win > 0 {
			fmt.Fprintf(&b, "(window %d)", x.win)
		}
		return b.String()
	case *SliceV:
		return fmt.Sprintf("%s[%s:+%s]", ShowVal(x.base), x.off, x.len)
	case *StructV:
		s := []string{}
		for _, f := range x.f {
			s = append(s, ShowVal(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *ArrV:
		s := []string{}
		for i, f := range x.e {
			if i > 4 {
				s = append(s, "...")
				break
			}
			s = append(s, ShowVal(f))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case *TupleV:
		s := []string{}
		for _, f := range x.e {
			s = append(s, ShowVal(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case NilV:
		return "nil"
	case *FuncV:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func " + x.sym
	case *IfaceV:
		return "iface(" + ShowVal(x.v) + ")"
	case *IteV:
		return "ite(" + x.c.String() + ", " + ShowVal(x.a) + ", " + ShowVal(x.b) + ")"
	case *Unk:
		return "unknown(" + x.why + ")"
	case nil:
		return "<none>"
	}
	return fmt.Sprintf("%T", v)
}
