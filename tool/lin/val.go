// Package lin is an abstract interpreter for straight numeric kernels: control flow, indices and
// constants are exact, data are polynomials of degree at most two over symbols (the inputs) with
// real coefficients, and integers obtained by rounding such forms are symbols of their own. It
// decides what linear (or bilinear) map a piece of code computes for every input.
package lin

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of int64 (any integer type), bool, string, *F, *U, *Cx, *Agg (struct or array by
// value), *Ptr, *Slice, *Fn, *Iface, Tuple or nil.
type Value interface{}

type term struct {
	s int32
	c float64
}

// F is a real: constant + linear form + quadratic form.
type F struct {
	c    float64
	lin  []term // sorted by symbol
	quad map[[2]int32]float64
}

// Num makes a constant.
func Num(c float64) *F { return &F{c: c} }

// IsNum reports a constant.
func (f *F) IsNum() bool { return len(f.lin) == 0 && len(f.quad) == 0 }

// Const is the constant part.
func (f *F) Const() float64 { return f.c }

// Coef is the coefficient of a symbol.
func (f *F) Coef(s int32) float64 {
	i := sort.Search(len(f.lin), func(i int) bool { return f.lin[i].s >= s })
	if i < len(f.lin) && f.lin[i].s == s {
		return f.lin[i].c
	}
	return 0
}

// Each visits the linear terms.
func (f *F) Each(v func(s int32, c float64)) {
	for _, t := range f.lin {
		v(t.s, t.c)
	}
}

// EachQuad visits the quadratic terms.
func (f *F) EachQuad(v func(a, b int32, c float64)) {
	for k, c := range f.quad {
		v(k[0], k[1], c)
	}
}

// NQuad is the number of quadratic terms.
func (f *F) NQuad() int { return len(f.quad) }

// NLin is the number of linear terms.
func (f *F) NLin() int { return len(f.lin) }

func addScaled(a, b *F, k float64) *F {
	r := &F{c: a.c + k*b.c}
	switch {
	case len(b.lin) == 0:
		r.lin = a.lin
	case len(a.lin) == 0 && k == 1:
		r.lin = b.lin
	default:
		out := make([]term, 0, len(a.lin)+len(b.lin))
		i, j := 0, 0
		for i < len(a.lin) || j < len(b.lin) {
			switch {
			case j == len(b.lin) || i < len(a.lin) && a.lin[i].s < b.lin[j].s:
				out = append(out, a.lin[i])
				i++
			case i == len(a.lin) || b.lin[j].s < a.lin[i].s:
				out = append(out, term{b.lin[j].s, k * b.lin[j].c})
				j++
			default:
				if c := a.lin[i].c + k*b.lin[j].c; c != 0 {
					out = append(out, term{a.lin[i].s, c})
				}
				i++
				j++
			}
		}
		r.lin = out
	}
	if len(a.quad)+len(b.quad) > 0 {
		r.quad = map[[2]int32]float64{}
		for q, c := range a.quad {
			r.quad[q] = c
		}
		for q, c := range b.quad {
			r.quad[q] += k * c
			if r.quad[q] == 0 {
				delete(r.quad, q)
			}
		}
	}
	return r
}

func scale(a *F, k float64) *F {
	if k == 0 && !math.IsNaN(a.c) && !math.IsInf(a.c, 0) {
		return Num(0)
	}
	r := &F{c: a.c * k, lin: make([]term, len(a.lin))}
	for i, t := range a.lin {
		r.lin[i] = term{t.s, t.c * k}
	}
	if len(a.quad) > 0 {
		r.quad = make(map[[2]int32]float64, len(a.quad))
		for q, c := range a.quad {
			r.quad[q] = c * k
		}
	}
	return r
}

func (x *Interp) mulF(a, b *F) *F {
	if a.IsNum() {
		return scale(b, a.c)
	}
	if b.IsNum() {
		return scale(a, b.c)
	}
	if len(a.quad) > 0 || len(b.quad) > 0 {
		x.fail("product of more than two unknowns")
	}
	r := &F{c: a.c * b.c, quad: make(map[[2]int32]float64, len(a.lin)*len(b.lin))}
	for _, s := range a.lin {
		for _, t := range b.lin {
			q := [2]int32{s.s, t.s}
			if q[0] > q[1] {
				q[0], q[1] = q[1], q[0]
			}
			r.quad[q] += s.c * t.c
		}
	}
	if a.c != 0 {
		r = addScaled(r, &F{lin: b.lin}, a.c)
	}
	if b.c != 0 {
		r = addScaled(r, &F{lin: a.lin}, b.c)
	}
	return r
}

func (f *F) String() string {
	var p []string
	if f.c != 0 || f.IsNum() {
		p = append(p, fmt.Sprintf("%.6g", f.c))
	}
	for i, t := range f.lin {
		if i > 5 {
			p = append(p, fmt.Sprintf("... (%d terms)", len(f.lin)))
			break
		}
		p = append(p, fmt.Sprintf("%.6g*s%d", t.c, t.s))
	}
	if len(f.quad) > 0 {
		p = append(p, fmt.Sprintf("(%d products)", len(f.quad)))
	}
	return strings.Join(p, " + ")
}

// U is an integer modulo a power of two: a linear form over integer symbols.
type U struct {
	c   int64
	lin map[int32]int64
}

// Cx is a complex number.
type Cx struct{ re, im *F }

// Agg is the memory (or value) of a struct or array.
type Agg struct {
	e    []Value
	elem types.Type // of arrays and backing arrays, nil for structs
}

// Ptr points at a cell of an aggregate, or at a window of n cells (n>0).
type Ptr struct {
	a  *Agg
	i  int
	lo int // bounds of the slice the pointer was derived from
	hi int
	n  int
}

// Slice is a slice of a backing array.
type Slice struct {
	a             *Agg
	off, len, cap int
}

// Len is the slice's length.
func (s *Slice) Len() int { return s.len }

// Fn is a function value.
type Fn struct {
	fn    *ssa.Function
	binds []Value
	ext   func(args []Value) Value
}

// Iface is an interface value.
type Iface struct {
	t types.Type
	v Value
}

// Tuple is a multiple result.
type Tuple []Value

// cellPtr points at one separately allocated cell.
func cellPtr(v Value) *Ptr { return &Ptr{a: &Agg{e: []Value{v}}, lo: 0, hi: 1} }

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{e: make([]Value, len(a.e)), elem: a.elem}
		for i, e := range a.e {
			n.e[i] = copyVal(e)
		}
		return n
	}
	return v
}

// zero is the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return Num(0)
		case u.Info()&types.IsComplex != 0:
			return &Cx{Num(0), Num(0)}
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		}
		return nil
	case *types.Struct:
		a := &Agg{e: make([]Value, u.NumFields())}
		for i := range a.e {
			a.e[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{e: make([]Value, u.Len()), elem: u.Elem()}
		for i := range a.e {
			a.e[i] = zero(u.Elem())
		}
		return a
	}
	return nil
}
