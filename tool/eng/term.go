// Package eng is a static value analysis for Go SSA: a dataflow analysis that
// computes, for every scalar and every array cell a function writes, a closed
// symbolic expression over the function's inputs.  Joins are gated (ite)
// merges, loops are summarised by induction-variable, reduction and recurrence
// recognition; no program path is enumerated and nothing is executed.
package eng

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Ty is a scalar type.
type Ty uint8

const (
	TBool Ty = iota
	TI64
	TI32
	TI16
	TI8
	TU64
	TU32
	TU16
	TU8
	TF64
	TC128
	TStr
	TRef // anything else (opaque reference identities, lambdas)
)

var tyNames = []string{"bool", "int", "i32", "i16", "i8", "u64", "u32", "u16", "u8", "f64", "c128", "str", "ref"}

func (t Ty) String() string { return tyNames[t] }
func (t Ty) isInt() bool    { return t >= TI64 && t <= TU8 }
func (t Ty) signed() bool   { return t >= TI64 && t <= TI8 }
func (t Ty) bits() uint {
	switch t {
	case TI64, TU64:
		return 64
	case TI32, TU32:
		return 32
	case TI16, TU16:
		return 16
	case TI8, TU8:
		return 8
	}
	return 0
}
func (t Ty) ring() bool { return t.isInt() || t == TF64 }

// Op is a term constructor.
type Op uint8

const (
	OConst Op = iota
	OPoly
	OVar // index variable (free)
	OBV  // bound variable (de Bruijn)
	OSym // scalar symbol
	OSel // element of a symbolic array: name[args...]
	OFn  // uninterpreted function application
	OLam // lambda binding nb variables
	OSum // sum_{i<args0} args1(i)
	OIte // args0 ? args1 : args2
	OEq0 // args0 == 0
	OEq  // args0 == args1
	OLt0 // args0 < 0 (int, no overflow)
	OLt  // args0 < args1 (machine)
	ONot
	OAnd
	ODiv
	ORem
	OShl
	OShr
	OBAnd
	OBOr
	OBXor
	OConv // conversion to ty
	ORec  // recurrence system
)

// Term is a hash-consed expression.
type Term struct {
	id   int
	op   Op
	ty   Ty
	args []*Term
	iv   int64    // integer constant / bool / bv index / nb
	rv   *big.Rat // float constant
	name string
	mon  []mono // OPoly
	fv   []int32
	bv   int32 // max loose bound variable index+1
	lo   int64 // for OVar: known constant range [lo,hi)
	hi   int64
	blo  int64
	bhi  int64
	bst  int8 // bounds state: 0 unknown, 1 computed ok, 2 none
	size int32
}

type mono struct {
	atoms []*Term
	ci    int64
	cr    *big.Rat
}

func (t *Term) ID() int        { return t.id }
func (t *Term) Op() Op         { return t.op }
func (t *Term) Ty() Ty         { return t.ty }
func (t *Term) Args() []*Term  { return t.args }
func (t *Term) Name() string   { return t.name }
func (t *Term) IsConst() bool  { return t.op == OConst }
func (t *Term) IVal() int64    { return t.iv }
func (t *Term) RVal() *big.Rat { return t.rv }

var (
	tab    = map[string]*Term{}
	nextID = 1
	keyBuf []byte
	fvNext int32 = 1
)

func noBound() (int64, int64) { return math.MinInt64, math.MaxInt64 }

func intern(t *Term) *Term {
	b := keyBuf[:0]
	b = append(b, byte(t.op), byte(t.ty))
	b = strconv.AppendInt(b, t.iv, 36)
	b = append(b, '|')
	b = append(b, t.name...)
	b = append(b, '|')
	if t.rv != nil {
		b = append(b, t.rv.String()...)
	}
	for _, a := range t.args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	for _, m := range t.mon {
		b = append(b, ';')
		if m.cr != nil {
			b = append(b, m.cr.String()...)
		} else {
			b = strconv.AppendInt(b, m.ci, 36)
		}
		for _, a := range m.atoms {
			b = append(b, '*')
			b = strconv.AppendInt(b, int64(a.id), 36)
		}
	}
	if t.op == OVar {
		b = append(b, '#')
		b = strconv.AppendInt(b, int64(t.fv[0]), 36)
	}
	keyBuf = b
	if r, ok := tab[string(b)]; ok {
		return r
	}
	t.id = nextID
	nextID++
	t.size = 1
	if t.op != OVar {
		own := t.fv
		var fv []int32
		var bvm int32
		add := func(a *Term) {
			fv = unionFV(fv, a.fv)
			if a.bv > bvm {
				bvm = a.bv
			}
			if t.size < 1<<28 {
				t.size += a.size
			}
		}
		for _, a := range t.args {
			add(a)
		}
		for _, m := range t.mon {
			for _, a := range m.atoms {
				add(a)
			}
		}
		if len(own) > 0 {
			fv = unionFV(fv, own)
		}
		t.fv = fv
		switch t.op {
		case OBV:
			bvm = int32(t.iv) + 1
		case OLam:
			bvm -= int32(t.iv)
			if bvm < 0 {
				bvm = 0
			}
		}
		t.bv = bvm
	}
	tab[string(b)] = t
	return t
}

func unionFV(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	sub := true
	i := 0
	for _, x := range b {
		for i < len(a) && a[i] < x {
			i++
		}
		if i >= len(a) || a[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// HasFV reports whether the free symbol id occurs in t.
func (t *Term) HasFV(id int32) bool {
	i := sort.Search(len(t.fv), func(i int) bool { return t.fv[i] >= id })
	return i < len(t.fv) && t.fv[i] == id
}

// VarID returns the free symbol id of a variable.
func (t *Term) VarID() int32 { return t.fv[0] }

func newFV() int32 { fvNext++; return fvNext }

// NewVar makes a fresh index variable with range [lo,hi) (use MinInt64/MaxInt64 for unknown).
func NewVar(name string, lo, hi int64) *Term {
	id := newFV()
	return intern(&Term{op: OVar, ty: TI64, name: name, lo: lo, hi: hi, fv: []int32{id}})
}

func wrap(ty Ty, v int64) int64 {
	switch ty {
	case TI32:
		return int64(int32(v))
	case TI16:
		return int64(int16(v))
	case TI8:
		return int64(int8(v))
	case TU32:
		return int64(uint32(v))
	case TU16:
		return int64(uint16(v))
	case TU8:
		return int64(uint8(v))
	}
	return v
}

// center wraps a coefficient into the signed range of the width.
func center(ty Ty, v int64) int64 {
	switch ty.bits() {
	case 32:
		return int64(int32(v))
	case 16:
		return int64(int16(v))
	case 8:
		return int64(int8(v))
	}
	return v
}

func Int(ty Ty, v int64) *Term { return intern(&Term{op: OConst, ty: ty, iv: wrap(ty, v)}) }
func I(v int64) *Term          { return Int(TI64, v) }
func Bool(b bool) *Term {
	if b {
		return intern(&Term{op: OConst, ty: TBool, iv: 1})
	}
	return intern(&Term{op: OConst, ty: TBool})
}
func Rat(r *big.Rat) *Term { return intern(&Term{op: OConst, ty: TF64, rv: r}) }
func Float(f float64) *Term {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return Fn(fmt.Sprintf("float:%v", f), TF64)
	}
	return Rat(new(big.Rat).SetFloat64(f))
}
func Str(s string) *Term           { return intern(&Term{op: OConst, ty: TStr, name: s}) }
func Sym(name string, ty Ty) *Term { return intern(&Term{op: OSym, ty: ty, name: name}) }
func True() *Term                  { return Bool(true) }
func False() *Term                 { return Bool(false) }
func (t *Term) isTrue() bool       { return t.op == OConst && t.ty == TBool && t.iv == 1 }
func (t *Term) isFalse() bool      { return t.op == OConst && t.ty == TBool && t.iv == 0 }
func (t *Term) IsTrue() bool       { return t.isTrue() }
func (t *Term) IsFalse() bool      { return t.isFalse() }
func (t *Term) IsZero() bool {
	return t.op == OConst && ((t.rv != nil && t.rv.Sign() == 0) || (t.ty.isInt() && t.iv == 0))
}
func Fn(name string, ty Ty, args ...*Term) *Term {
	if name == "cmul" && args[0].id > args[1].id {
		// pointwise products commute
		args = append([]*Term{args[1], args[0]}, args[2:]...)
	}
	return intern(&Term{op: OFn, ty: ty, name: name, args: args})
}

// Sel reads a symbolic array.
func Sel(name string, ty Ty, own int32, idx ...*Term) *Term {
	t := &Term{op: OSel, ty: ty, name: name, args: idx}
	if own != 0 {
		t.fv = []int32{own}
	}
	return intern(t)
}

// PhiSym is a scalar placeholder with its own free symbol id.
func PhiSym(name string, ty Ty, own int32) *Term {
	return intern(&Term{op: OSym, ty: ty, name: name, fv: []int32{own}})
}

func BV(k int, ty Ty) *Term { return intern(&Term{op: OBV, ty: ty, iv: int64(k)}) }

// ---------------------------------------------------------------- polynomials

func (t *Term) monos() []mono {
	switch t.op {
	case OConst:
		if t.IsZero() {
			return nil
		}
		if t.ty == TF64 {
			return []mono{{cr: t.rv}}
		}
		return []mono{{ci: center(t.ty, t.iv)}}
	case OPoly:
		return t.mon
	}
	if t.ty == TF64 {
		return []mono{{atoms: []*Term{t}, cr: ratOne}}
	}
	return []mono{{atoms: []*Term{t}, ci: 1}}
}

var ratOne = big.NewRat(1, 1)

func cmpAtoms(a, b []*Term) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id - b[i].id
		}
	}
	return 0
}

func mkPoly(ty Ty, ms []mono) *Term {
	// ms sorted and combined, zero-free
	if len(ms) == 0 {
		if ty == TF64 {
			return Rat(new(big.Rat))
		}
		return Int(ty, 0)
	}
	if len(ms) == 1 {
		m := ms[0]
		if len(m.atoms) == 0 {
			if ty == TF64 {
				return Rat(m.cr)
			}
			return Int(ty, m.ci)
		}
		if len(m.atoms) == 1 && ((ty == TF64 && m.cr.Cmp(ratOne) == 0) || (ty != TF64 && m.ci == 1)) {
			return m.atoms[0]
		}
	}
	return intern(&Term{op: OPoly, ty: ty, mon: ms})
}

func addMonos(ty Ty, a, b []mono) []mono {
	r := make([]mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) {
			r = append(r, a[i])
			i++
			continue
		}
		if i >= len(a) {
			r = append(r, b[j])
			j++
			continue
		}
		c := cmpAtoms(a[i].atoms, b[j].atoms)
		switch {
		case c < 0:
			r = append(r, a[i])
			i++
		case c > 0:
			r = append(r, b[j])
			j++
		default:
			if ty == TF64 {
				s := new(big.Rat).Add(a[i].cr, b[j].cr)
				if s.Sign() != 0 {
					r = append(r, mono{a[i].atoms, 0, s})
				}
			} else {
				s := center(ty, a[i].ci+b[j].ci)
				if s != 0 {
					r = append(r, mono{a[i].atoms, s, nil})
				}
			}
			i++
			j++
		}
	}
	return r
}

func scaleMonos(ty Ty, a []mono, ci int64, cr *big.Rat) []mono {
	r := make([]mono, 0, len(a))
	for _, m := range a {
		if ty == TF64 {
			s := new(big.Rat).Mul(m.cr, cr)
			if s.Sign() != 0 {
				r = append(r, mono{m.atoms, 0, s})
			}
		} else {
			s := center(ty, m.ci*ci)
			if s != 0 {
				r = append(r, mono{m.atoms, s, nil})
			}
		}
	}
	return r
}

func Add(a, b *Term) *Term {
	if a.ty != b.ty {
		panic(fmt.Sprintf("add type mismatch %v %v: %v %v", a.ty, b.ty, a, b))
	}
	if a.IsZero() {
		return b
	}
	if b.IsZero() {
		return a
	}
	return mkPoly(a.ty, addMonos(a.ty, a.monos(), b.monos()))
}
func Neg(a *Term) *Term {
	return mkPoly(a.ty, scaleMonos(a.ty, a.monos(), -1, big.NewRat(-1, 1)))
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func AddI(a *Term, k int64) *Term {
	return Add(a, Int(a.ty, k))
}
func MulI(a *Term, k int64) *Term { return Mul(a, Int(a.ty, k)) }

func Mul(a, b *Term) *Term {
	if a.ty != b.ty {
		panic(fmt.Sprintf("mul type mismatch %v %v", a.ty, b.ty))
	}
	ty := a.ty
	am, bm := a.monos(), b.monos()
	if len(am) > len(bm) {
		am, bm = bm, am
	}
	if len(am)*len(bm) > 20000 {
		return Fn("mul", ty, a, b)
	}
	var r []mono
	for _, x := range am {
		var ps []mono
		for _, y := range bm {
			at := make([]*Term, 0, len(x.atoms)+len(y.atoms))
			at = append(at, x.atoms...)
			at = append(at, y.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			m := mono{atoms: at}
			if ty == TF64 {
				m.cr = new(big.Rat).Mul(x.cr, y.cr)
				if m.cr.Sign() == 0 {
					continue
				}
			} else {
				m.ci = center(ty, x.ci*y.ci)
				if m.ci == 0 {
					continue
				}
			}
			ps = append(ps, m)
		}
		ps = simplMonos(ty, ps)
		r = addMonos(ty, r, ps)
	}
	return mkPoly(ty, r)
}

// simplMonos sorts, cancels t*inv(t), and merges.
func simplMonos(ty Ty, ps []mono) []mono {
	if ty == TF64 {
		for k := range ps {
			ps[k].atoms = cancelInv(ps[k].atoms)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return cmpAtoms(ps[i].atoms, ps[j].atoms) < 0 })
	var out []mono
	for _, m := range ps {
		if n := len(out); n > 0 && cmpAtoms(out[n-1].atoms, m.atoms) == 0 {
			if ty == TF64 {
				out[n-1].cr = new(big.Rat).Add(out[n-1].cr, m.cr)
				if out[n-1].cr.Sign() == 0 {
					out = out[:n-1]
				}
			} else {
				out[n-1].ci = center(ty, out[n-1].ci+m.ci)
				if out[n-1].ci == 0 {
					out = out[:n-1]
				}
			}
			continue
		}
		out = append(out, m)
	}
	return out
}

func cancelInv(at []*Term) []*Term {
	for i, a := range at {
		if a.op == OFn && a.name == "inv" {
			for j, b := range at {
				if b == a.args[0] {
					r := make([]*Term, 0, len(at)-2)
					for k, c := range at {
						if k != i && k != j {
							r = append(r, c)
						}
					}
					return cancelInv(r)
				}
			}
		}
	}
	return at
}

// ConstPart splits t into (t - c, c) where c is the constant term.
func ConstPart(t *Term) (*Term, int64) {
	ms := t.monos()
	for k, m := range ms {
		if len(m.atoms) == 0 {
			rest := make([]mono, 0, len(ms)-1)
			rest = append(rest, ms[:k]...)
			rest = append(rest, ms[k+1:]...)
			return mkPoly(t.ty, rest), m.ci
		}
	}
	return t, 0
}

// Linear writes t as coef*v + rest with v not in rest; ok=false if v occurs non-linearly.
func Linear(t, v *Term) (int64, *Term, bool) {
	id := v.VarID()
	if !t.HasFV(id) {
		return 0, t, true
	}
	var c int64
	var rest []mono
	for _, m := range t.monos() {
		has := false
		for _, a := range m.atoms {
			if a.HasFV(id) {
				has = true
			}
		}
		if !has {
			rest = append(rest, m)
			continue
		}
		if len(m.atoms) == 1 && m.atoms[0] == v {
			c += m.ci
			continue
		}
		return 0, nil, false
	}
	return c, mkPoly(t.ty, rest), true
}

// ---------------------------------------------------------------- bounds

const inf = math.MaxInt64 / 4

func satAdd(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	s := a + b
	if s > inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(abs64(a)), uint64(abs64(b))
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l >= inf {
		if neg {
			return -inf
		}
		return inf
	}
	if neg {
		return -int64(l)
	}
	return int64(l)
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func tyRange(ty Ty) (int64, int64) {
	switch ty {
	case TI32:
		return math.MinInt32, math.MaxInt32
	case TI16:
		return math.MinInt16, math.MaxInt16
	case TI8:
		return math.MinInt8, math.MaxInt8
	case TU32:
		return 0, math.MaxUint32
	case TU16:
		return 0, math.MaxUint16
	case TU8:
		return 0, math.MaxUint8
	case TU64:
		return 0, inf
	}
	return -inf, inf
}

// Bounds returns conservative inclusive bounds (saturated at +-inf).
func Bounds(t *Term) (int64, int64) {
	if t.bst == 1 {
		return t.blo, t.bhi
	}
	lo, hi := bounds0(t)
	t.blo, t.bhi, t.bst = lo, hi, 1
	return lo, hi
}

func bounds0(t *Term) (int64, int64) {
	tl, th := tyRange(t.ty)
	clip := func(l, h int64) (int64, int64) {
		// exact only if within the type's range (no wrap)
		if l >= tl && h <= th {
			return l, h
		}
		return tl, th
	}
	switch t.op {
	case OConst:
		if t.ty.isInt() {
			// inf stands for "no bound": a constant out there has no exact bounds
			switch {
			case t.ty == TU64 && (t.iv < 0 || t.iv >= inf):
				return 0, inf
			case t.iv >= inf:
				return inf - 1, inf
			case t.iv <= -inf:
				return -inf, -(inf - 1)
			}
			return t.iv, t.iv
		}
	case OVar:
		l, h := t.lo, t.hi-1
		if t.lo == math.MinInt64 {
			l = -inf
		}
		if t.hi == math.MaxInt64 {
			h = inf
		}
		return l, h
	case OPoly:
		if !t.ty.isInt() {
			return -inf, inf
		}
		var l, h int64
		for _, m := range t.mon {
			ml, mh := int64(1), int64(1)
			for _, a := range m.atoms {
				al, ah := Bounds(a)
				p := []int64{satMul(ml, al), satMul(ml, ah), satMul(mh, al), satMul(mh, ah)}
				ml, mh = p[0], p[0]
				for _, x := range p {
					if x < ml {
						ml = x
					}
					if x > mh {
						mh = x
					}
				}
			}
			x, y := satMul(ml, m.ci), satMul(mh, m.ci)
			if x > y {
				x, y = y, x
			}
			// bounded factors whose product leaves 64 bits wrap around
			if ml > -inf && mh < inf && (x <= -inf || y >= inf) {
				return tl, th
			}
			l = satAdd(l, x)
			if h >= inf || y >= inf {
				h = inf
			} else {
				h = satAdd(h, y)
			}
		}
		if t.ty == TU64 && h >= inf {
			return 0, inf
		}
		if b := t.ty.bits(); b < 64 && t.ty != TBool && l > -inf && h < inf && (l < tl || h > th) {
			// wrapped around as a whole
			if k := (l - tl) >> uint(b); (h-tl)>>uint(b) == k {
				return l - k<<uint(b), h - k<<uint(b)
			}
		}
		return clip(l, h)
	case OIte:
		a, b := Bounds(t.args[1])
		c, d := Bounds(t.args[2])
		return min(a, c), max(b, d)
	case OBAnd:
		l, h := tl, th
		for _, a := range t.args {
			if a.op == OConst && a.iv >= 0 {
				l = max(l, 0)
				h = min(h, a.iv)
			}
			al, ah := Bounds(a)
			if al >= 0 {
				l = max(l, 0)
				h = min(h, ah)
			}
		}
		return l, h
	case OShr:
		al, ah := Bounds(t.args[0])
		if s := t.args[1]; s.op == OConst && s.iv >= 0 && s.iv < 63 {
			if al > -inf && ah < inf {
				return al >> uint(s.iv), ah >> uint(s.iv)
			}
		}
		if al >= 0 {
			return 0, ah
		}
	case ODiv:
		al, ah := Bounds(t.args[0])
		if d := t.args[1]; d.op == OConst && d.iv > 0 && al >= 0 {
			if ah >= inf {
				return 0, inf
			}
			return al / d.iv, ah / d.iv
		}
	case ORem:
		al, ah := Bounds(t.args[0])
		if d := t.args[1]; d.op == OConst && d.iv > 0 {
			if al >= 0 {
				return 0, min(d.iv-1, ah)
			}
			return -(d.iv - 1), d.iv - 1
		}
	case OConv:
		a := t.args[0]
		if a.ty.isInt() {
			al, ah := Bounds(a)
			if a.ty == TU64 && ah >= inf {
				return tl, th // the top bit may become the sign
			}
			return clip(al, ah)
		}
	case OFn:
		if t.name == "len" {
			return 0, inf
		}
	}
	return tl, th
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return False()
	case a.isFalse():
		return True()
	case a.op == ONot:
		return a.args[0]
	case a.op == OLt0:
		return Lt0(AddI(Neg(a.args[0]), -1))
	}
	return intern(&Term{op: ONot, ty: TBool, args: []*Term{a}})
}

func And(as ...*Term) *Term {
	set := map[int]*Term{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() {
			return true
		}
		if t.op == OAnd {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		set[t.id] = t
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False()
		}
	}
	for _, t := range set {
		if n := Not(t); n.op != OConst {
			if _, ok := set[n.id]; ok {
				return False()
			}
		}
	}
	if len(set) == 0 {
		return True()
	}
	l := make([]*Term, 0, len(set))
	for _, t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	l = pruneLits(l)
	if l == nil {
		return False()
	}
	if len(l) == 1 {
		return l[0]
	}
	return intern(&Term{op: OAnd, ty: TBool, args: l})
}

// pruneLits removes comparison literals implied by others over the same linear part
// and detects contradictions: (x + c < 0) family and (x == c).
func pruneLits(l []*Term) []*Term {
	type lb struct {
		c int64
		i int
	}
	up := map[int]lb{}
	drop := make([]bool, len(l))
	any := false
	for i, t := range l {
		if t.op != OLt0 {
			continue
		}
		r, c := ConstPart(t.args[0])
		if o, ok := up[r.id]; ok {
			any = true
			if c > o.c { // r < -c is stronger
				drop[o.i] = true
				up[r.id] = lb{c, i}
			} else {
				drop[i] = true
			}
		} else {
			up[r.id] = lb{c, i}
		}
	}
	for i, t := range l {
		if drop[i] {
			continue
		}
		if t.op == OLt0 {
			r, c := ConstPart(t.args[0])
			// r <= -c-1 ; -r + c2 < 0 -> r >= c2+1
			if o, ok := up[Neg(r).id]; ok {
				if o.c+1 > -c-1 {
					return nil
				}
			}
		}
		if t.op == OEq0 && t.args[0].ty == TI64 {
			r, c := ConstPart(t.args[0])
			// r == -c
			if o, ok := up[r.id]; ok {
				any = true
				if -c+o.c >= 0 {
					return nil
				}
				drop[o.i] = true
			}
			nr := Neg(r)
			if o, ok := up[nr.id]; ok {
				any = true
				if c+o.c >= 0 {
					return nil
				}
				drop[o.i] = true
			}
		}
	}
	if !any {
		return l
	}
	var out []*Term
	for i, t := range l {
		if !drop[i] {
			out = append(out, t)
		}
	}
	return out
}

func Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	return Not(And(ns...))
}

// Lt0 is d<0 over unbounded-in-practice ints.
func Lt0(d *Term) *Term {
	if d.ty != TI64 {
		panic("Lt0 on " + d.ty.String())
	}
	lo, hi := Bounds(d)
	if hi < 0 {
		return True()
	}
	if lo >= 0 {
		return False()
	}
	if d.op == OConst {
		return Bool(d.iv < 0)
	}
	r, c := ConstPart(d)
	g := int64(0)
	for _, m := range r.monos() {
		g = gcd(g, abs64(m.ci))
	}
	if g > 1 {
		ms := r.monos()
		nm := make([]mono, len(ms))
		for i, m := range ms {
			nm[i] = mono{m.atoms, m.ci / g, nil}
		}
		// g*s + c < 0  <=>  s <= floor((-c-1)/g)
		f := floorDiv(-c-1, g)
		d = AddI(mkPoly(TI64, nm), -f-1)
		lo, hi = Bounds(d)
		if hi < 0 {
			return True()
		}
		if lo >= 0 {
			return False()
		}
	}
	if d.op == OIte && d.args[1].op == OConst && d.args[2].op == OConst {
		return Ite(d.args[0], Bool(d.args[1].iv < 0), Bool(d.args[2].iv < 0))
	}
	return intern(&Term{op: OLt0, ty: TBool, args: []*Term{d}})
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func Lt(a, b *Term) *Term {
	if a.ty != b.ty {
		panic("lt type mismatch")
	}
	if a == b {
		return False()
	}
	if a.ty == TI64 {
		return Lt0(Sub(a, b))
	}
	if a.op == OConst && b.op == OConst {
		if a.ty == TF64 && a.rv != nil && b.rv != nil {
			return Bool(a.rv.Cmp(b.rv) < 0)
		}
		if a.ty == TU64 {
			return Bool(uint64(a.iv) < uint64(b.iv))
		}
		if a.ty.isInt() {
			return Bool(a.iv < b.iv)
		}
		if a.ty == TStr {
			return Bool(a.name < b.name)
		}
	}
	if a.ty.isInt() && a.ty != TU64 {
		al, ah := Bounds(a)
		bl, bh := Bounds(b)
		if ah < bl {
			return True()
		}
		if al >= bh {
			return False()
		}
	}
	// the top bit of a word is the sign of its signed reading
	if a.ty == TU32 {
		if b.op == OConst && b.iv == 1<<31 {
			return Not(Lt(Conv(a, TI32), Int(TI32, 0)))
		}
		if a.op == OConst && a.iv == 1<<31-1 {
			return Lt(Conv(b, TI32), Int(TI32, 0))
		}
	}
	return intern(&Term{op: OLt, ty: TBool, args: []*Term{a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.ty != b.ty {
		panic(fmt.Sprintf("eq type mismatch %v %v", a.ty, b.ty))
	}
	if a.ty == TBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return Not(a)
		}
		if Not(a) == b {
			return False()
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.ty.ring() {
		d := Sub(a, b)
		if d.op == OConst {
			return Bool(d.IsZero())
		}
		if d.ty.isInt() {
			// sign normalisation
			ms := d.mon
			if d.op == OPoly {
				lead := ms[len(ms)-1]
				if lead.ci < 0 {
					d = Neg(d)
				}
			}
			lo, hi := Bounds(d)
			if d.ty == TI64 {
				if lo > 0 || hi < 0 {
					return False()
				}
				r, c := ConstPart(d)
				g := int64(0)
				for _, m := range r.monos() {
					g = gcd(g, abs64(m.ci))
				}
				if g > 1 {
					if c%g != 0 {
						return False()
					}
					ms := r.monos()
					nm := make([]mono, len(ms))
					for i, m := range ms {
						nm[i] = mono{m.atoms, m.ci / g, nil}
					}
					d = AddI(mkPoly(TI64, nm), c/g)
				}
			} else {
				// machine: compare bounds of both sides
				al, ah := Bounds(a)
				bl, bh := Bounds(b)
				if ah < bl || bh < al {
					return False()
				}
			}
			if d.op == OIte && d.args[1].op == OConst && d.args[2].op == OConst {
				return Ite(d.args[0], Bool(d.args[1].iv == 0), Bool(d.args[2].iv == 0))
			}
			// comparison of a widened value with a constant
			if r, c := ConstPart(d); c != math.MinInt64 {
				if ms := r.monos(); len(ms) == 1 && len(ms[0].atoms) == 1 && (ms[0].ci == 1 || ms[0].ci == -1) && ms[0].atoms[0].op == OConv {
					x := ms[0].atoms[0].args[0]
					if ms[0].ci == 1 {
						c = -c
					}
					if x.ty.isInt() && keeps(x, d.ty) {
						if tl, th := tyRange(x.ty); c >= tl && c <= th && c < inf {
							return Eq(x, Int(x.ty, c))
						}
					}
				}
			}
			// comparison of a digit of a word with a constant: as an integer
			if r, c := ConstPart(d); d.ty == TU32 && c != math.MinInt64 {
				if ms := r.monos(); len(ms) == 1 && len(ms[0].atoms) == 1 && (ms[0].ci == 1 || wrap(TU32, ms[0].ci+1) == 0) {
					if ms[0].ci == 1 {
						c = wrap(TU32, -c)
					}
					if at := ms[0].atoms[0]; at.op == OShr || at.op == OBAnd {
						if w := Conv(at, TI64); w.op == ORem || w.op == ODiv {
							return Eq(w, I(c))
						}
					}
				}
			}
			// a bit is one unless it is zero
			if d.op == OPoly && len(d.mon) == 2 {
				if r, c := ConstPart(d); c != 0 {
					if ms := r.monos(); len(ms) == 1 && len(ms[0].atoms) == 1 && wrap(d.ty, ms[0].ci+c) == 0 && (ms[0].ci == 1 || ms[0].ci == -1) {
						if l, h := Bounds(ms[0].atoms[0]); l >= 0 && h <= 1 {
							return Not(Eq(ms[0].atoms[0], Int(d.ty, 0)))
						}
					}
				}
			}
			// ite(c,x,0)-style: x + const
			return intern(&Term{op: OEq0, ty: TBool, args: []*Term{d}})
		}
		return intern(&Term{op: OEq0, ty: TBool, args: []*Term{d}})
	}
	if a.op == OConst && b.op == OConst {
		return Bool(a == b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, ty: TBool, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- ite

func sharesMono(a, b *Term) bool {
	am, bm := a.monos(), b.monos()
	i, j := 0, 0
	for i < len(am) && j < len(bm) {
		c := cmpAtoms(am[i].atoms, bm[j].atoms)
		if c < 0 {
			i++
		} else if c > 0 {
			j++
		} else {
			if len(am[i].atoms) > 0 {
				if am[i].cr != nil {
					if am[i].cr.Cmp(bm[j].cr) == 0 {
						return true
					}
				} else if am[i].ci == bm[j].ci {
					return true
				}
			}
			i++
			j++
		}
	}
	return false
}

// specialCase reports that a is what b is anyway when d is zero.
func specialCase(d, a, b *Term) bool {
	ms := d.monos()
	n := 0
	for i, m := range ms {
		if len(m.atoms) != 1 || m.ci != 1 && m.ci != -1 || n == 2 {
			continue
		}
		n++
		v := m.atoms[0]
		val := mkPoly(d.ty, append(append([]mono{}, ms[:i]...), ms[i+1:]...))
		if m.ci == 1 {
			val = Neg(val)
		}
		left := 200
		memo := map[int]*Term{v.id: val}
		y := replaceIn(b, memo, &left)
		if left < 0 || y == b {
			continue
		}
		if y == a {
			return true
		}
		if x := replaceIn(a, memo, &left); left >= 0 && x == y {
			return true
		}
	}
	return false
}

// replaceIn replaces terms outside binders.
func replaceIn(t *Term, memo map[int]*Term, left *int) *Term {
	if r, ok := memo[t.id]; ok {
		return r
	}
	if *left--; *left < 0 || t.op == OLam || t.op == OSum || t.op == ORec {
		return t
	}
	r := Rebuild(t, func(a *Term, d int) *Term {
		if d > 0 {
			return a
		}
		return replaceIn(a, memo, left)
	})
	memo[t.id] = r
	return r
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.ty != b.ty {
		panic(fmt.Sprintf("ite type mismatch %v %v", a.ty, b.ty))
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.ty == TBool {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	a = assume(a, c, true)
	b = assume(b, c, false)
	if a == b {
		return a
	}
	if c.op == OEq0 && c.args[0].ty.isInt() && specialCase(c.args[0], a, b) {
		return b
	}
	if a.ty.ring() && !b.IsZero() && sharesMono(a, b) {
		// common part out: keep shared monomials
		com := commonMonos(a, b)
		return Add(com, Ite(c, Sub(a, com), Sub(b, com)))
	}
	return intern(&Term{op: OIte, ty: a.ty, args: []*Term{c, a, b}})
}

func commonMonos(a, b *Term) *Term {
	var r []mono
	am, bm := a.monos(), b.monos()
	i, j := 0, 0
	for i < len(am) && j < len(bm) {
		c := cmpAtoms(am[i].atoms, bm[j].atoms)
		if c < 0 {
			i++
		} else if c > 0 {
			j++
		} else {
			eq := false
			if am[i].cr != nil {
				eq = am[i].cr.Cmp(bm[j].cr) == 0
			} else {
				eq = am[i].ci == bm[j].ci
			}
			if eq && len(am[i].atoms) > 0 {
				r = append(r, am[i])
			}
			i++
			j++
		}
	}
	return mkPoly(a.ty, r)
}

// assume simplifies t knowing that c has the given truth value (shallow).
func assume(t, c *Term, v bool) *Term {
	switch t.op {
	case OConst, OVar, OSym, OSel, OLam, OSum, ORec, OBV:
		return t
	}
	if t.size > 4000 {
		return t
	}
	return assume1(t, c, v, map[int]*Term{}, 0)
}

func assume1(t, c *Term, v bool, memo map[int]*Term, depth int) *Term {
	if t == c {
		return Bool(v)
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t
	switch t.op {
	case OIte:
		if depth < 40 {
			cc := assume1(t.args[0], c, v, memo, depth+1)
			if cc.isTrue() {
				r = assume1(t.args[1], c, v, memo, depth+1)
			} else if cc.isFalse() {
				r = assume1(t.args[2], c, v, memo, depth+1)
			} else {
				a := assume1(t.args[1], c, v, memo, depth+1)
				b := assume1(t.args[2], c, v, memo, depth+1)
				if a == b {
					r = a
				} else if cc != t.args[0] || a != t.args[1] || b != t.args[2] {
					r = iteRaw(cc, a, b)
				}
			}
		}
	case OPoly:
		ch := false
		for _, m := range t.mon {
			for _, a := range m.atoms {
				if a.op == OIte || a.op == OConv {
					ch = true
				}
			}
		}
		if ch {
			sum := zero(t.ty)
			for _, m := range t.mon {
				p := mkPoly(t.ty, []mono{{nil, m.ci, m.cr}})
				for _, a := range m.atoms {
					p = Mul(p, assume1(a, c, v, memo, depth+1))
				}
				sum = Add(sum, p)
			}
			r = sum
		}
	case ONot:
		r = Not(assume1(t.args[0], c, v, memo, depth+1))
	case OAnd:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = assume1(a, c, v, memo, depth+1)
		}
		r = And(as...)
	case OLt0, OEq0:
		r = impliedLit(t, c, v)
	}
	memo[t.id] = r
	return r
}

// impliedLit decides a comparison literal from an assumed one over the same linear part.
func impliedLit(t, c *Term, v bool) *Term {
	lits := []*Term{}
	if v {
		if c.op == OAnd {
			lits = c.args
		} else {
			lits = []*Term{c}
		}
	} else {
		lits = []*Term{Not(c)}
	}
	for _, l := range lits {
		if l == t {
			return True()
		}
		if l == Not(t) {
			return False()
		}
		if l.op == OEq0 && l.args[0].ty == TI64 && t.args[0].ty == TI64 {
			// r == -cl
			r, cl := ConstPart(l.args[0])
			r2, c2 := ConstPart(t.args[0])
			var val int64
			ok := false
			if r == r2 {
				val, ok = -cl+c2, true
			} else if Neg(r) == r2 {
				val, ok = cl+c2, true
			}
			if ok {
				if t.op == OEq0 {
					return Bool(val == 0)
				}
				return Bool(val < 0)
			}
		}
		if l.op == OLt0 && t.args[0].ty == TI64 {
			r, cl := ConstPart(l.args[0]) // r <= -cl-1
			r2, c2 := ConstPart(t.args[0])
			if r == r2 {
				if t.op == OLt0 && cl >= c2 {
					return True()
				}
				if t.op == OEq0 && -c2 > -cl-1 {
					return False()
				}
			} else if Neg(r) == r2 { // r2 >= cl+1
				if t.op == OLt0 && cl+1+c2 >= 0 {
					return False()
				}
				if t.op == OEq0 && -c2 < cl+1 {
					return False()
				}
			} else if t.op == OLt0 {
				// l and the ranges of the variables decide t
				if _, hi := Bounds(Sub(t.args[0], l.args[0])); hi <= 0 {
					return True()
				}
				if lo, _ := Bounds(Add(t.args[0], l.args[0])); lo >= -1 {
					return False()
				}
			}
		}
	}
	return t
}

func iteRaw(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.ty == TBool {
		return Ite(c, a, b)
	}
	return intern(&Term{op: OIte, ty: a.ty, args: []*Term{c, a, b}})
}

func zero(ty Ty) *Term {
	switch {
	case ty == TBool:
		return False()
	case ty == TF64:
		return Rat(new(big.Rat))
	case ty == TStr:
		return Str("")
	case ty.isInt():
		return Int(ty, 0)
	}
	return Fn("zero", ty)
}

// ---------------------------------------------------------------- integer ops

func Div(a, b *Term) *Term {
	if a.ty == TF64 {
		if b.op == OConst && b.rv != nil && b.rv.Sign() != 0 {
			return Mul(a, Rat(new(big.Rat).Inv(b.rv)))
		}
		return Mul(a, invF(b))
	}
	if b.op == OConst {
		if b.iv == 1 {
			return a
		}
		if a.op == OConst && b.iv != 0 {
			if a.ty == TU64 {
				return Int(a.ty, int64(uint64(a.iv)/uint64(b.iv)))
			}
			return Int(a.ty, a.iv/b.iv)
		}
		if !a.ty.signed() && b.iv > 0 && b.iv&(b.iv-1) == 0 {
			return Shr(a, Int(a.ty, int64(bits.TrailingZeros64(uint64(b.iv)))))
		}
		al, ah := Bounds(a)
		if b.iv > 0 && al > -inf && ah < inf && al/b.iv == ah/b.iv {
			return Int(a.ty, al/b.iv)
		}
		if b.iv > 0 && al >= 0 {
			if ah < b.iv && ah < inf {
				return Int(a.ty, 0)
			}
			if a.ty == TI64 || (ah < inf && a.ty != TU64) {
				// split divisible part: a = b*q + r with 0<=r<b
				var q, r []mono
				for _, m := range a.monos() {
					if m.ci%b.iv == 0 {
						q = append(q, mono{m.atoms, m.ci / b.iv, nil})
					} else if len(m.atoms) == 0 {
						qq := floorDiv(m.ci, b.iv)
						if qq != 0 {
							q = append(q, mono{nil, qq, nil})
						}
						r = append(r, mono{nil, m.ci - qq*b.iv, nil})
					} else {
						r = append(r, m)
					}
				}
				if len(q) > 0 && a.ty == TI64 {
					rt := mkPoly(a.ty, r)
					rl, rh := Bounds(rt)
					if rl >= 0 && rh < b.iv && rh < inf {
						return mkPoly(a.ty, q)
					}
					if rl >= 0 {
						return Add(mkPoly(a.ty, q), Div(rt, b))
					}
				}
			}
			if a.op == ORem && a.args[1].op == OConst && a.ty == TI64 && a.args[1].iv%b.iv == 0 && al >= 0 {
				return Rem(Div(a.args[0], b), Int(a.ty, a.args[1].iv/b.iv))
			}
			if a.op == ODiv && a.args[1].op == OConst && a.ty == TI64 {
				if p := satMul(a.args[1].iv, b.iv); p < inf {
					return Div(a.args[0], Int(a.ty, p))
				}
			}
		}
	}
	return intern(&Term{op: ODiv, ty: a.ty, args: []*Term{a, b}})
}

func invF(b *Term) *Term {
	// 1/(c*m) = 1/c * prod inv(atoms) for a single monomial
	ms := b.monos()
	if len(ms) == 1 && ms[0].cr != nil && ms[0].cr.Sign() != 0 {
		r := Rat(new(big.Rat).Inv(ms[0].cr))
		for _, a := range ms[0].atoms {
			if a.op == OFn && a.name == "inv" {
				r = Mul(r, a.args[0])
			} else {
				r = Mul(r, Fn("inv", TF64, a))
			}
		}
		return r
	}
	return Fn("inv", TF64, b)
}

func Rem(a, b *Term) *Term {
	if b.op == OConst && b.iv != 0 {
		if a.op == OConst {
			if a.ty == TU64 {
				return Int(a.ty, int64(uint64(a.iv)%uint64(b.iv)))
			}
			return Int(a.ty, a.iv%b.iv)
		}
		if !a.ty.signed() && b.iv > 0 && b.iv&(b.iv-1) == 0 {
			return BAnd(a, Int(a.ty, b.iv-1))
		}
		al, ah := Bounds(a)
		if b.iv > 0 && a.ty == TI64 && al > -inf && ah < inf {
			if al > -b.iv && ah < b.iv {
				return a
			}
			if (al >= 0 || ah <= 0) && al/b.iv == ah/b.iv {
				return AddI(a, -(al/b.iv)*b.iv)
			}
		}
		if al >= 0 && ah < b.iv && ah < inf {
			return a
		}
		if a.ty == TI64 && b.iv > 0 && al >= 0 {
			var r []mono
			ch := false
			for _, m := range a.monos() {
				if m.ci%b.iv == 0 {
					ch = true
					continue
				}
				if len(m.atoms) == 0 {
					c := m.ci - floorDiv(m.ci, b.iv)*b.iv
					if c != m.ci {
						ch = true
					}
					r = append(r, mono{nil, c, nil})
				} else {
					r = append(r, m)
				}
			}
			if ch {
				rt := mkPoly(a.ty, r)
				if rl, _ := Bounds(rt); rl >= 0 {
					return Rem(rt, b)
				}
			}
		}
		if a.op == ORem && a.ty == TI64 && a.args[1].op == OConst && b.iv > 0 && a.args[1].iv%b.iv == 0 && al >= 0 {
			return Rem(a.args[0], b)
		}
		if a.op == OIte {
			return Ite(a.args[0], Rem(a.args[1], b), Rem(a.args[2], b))
		}
	}
	return intern(&Term{op: ORem, ty: a.ty, args: []*Term{a, b}})
}

func Shl(a, s *Term) *Term {
	if s.op == OConst {
		if s.iv < 0 || uint(s.iv) >= a.ty.bits() {
			return Int(a.ty, 0)
		}
		if s.iv == 63 {
			return Mul(a, Int(a.ty, math.MinInt64))
		}
		return Mul(a, Int(a.ty, int64(1)<<uint(s.iv)))
	}
	return intern(&Term{op: OShl, ty: a.ty, args: []*Term{a, s}})
}

func Shr(a, s *Term) *Term {
	w := a.ty.bits()
	if s.op == OConst {
		k := s.iv
		if k == 0 {
			return a
		}
		if k < 0 || uint(k) >= w {
			if !a.ty.signed() {
				return Int(a.ty, 0)
			}
			k = int64(w) - 1
		}
		if a.op == OConst {
			if a.ty == TU64 {
				return Int(a.ty, int64(uint64(a.iv)>>uint(k)))
			}
			return Int(a.ty, a.iv>>uint(k))
		}
		al, ah := Bounds(a)
		if al >= 0 && ah < inf && ah>>uint(k) == al>>uint(k) {
			return Int(a.ty, al>>uint(k))
		}
		if a.ty.signed() {
			if al >= 0 && k < 62 {
				return Div(a, Int(a.ty, int64(1)<<uint(k)))
			}
			return intern(&Term{op: OShr, ty: a.ty, args: []*Term{a, Int(TI64, k)}})
		}
		if a.op == OShr && a.args[1].op == OConst {
			return Shr(a.args[0], Int(TI64, a.args[1].iv+k))
		}
		if a.op == OBAnd && a.args[1].op == OConst {
			return BAnd(Shr(a.args[0], s), Int(a.ty, int64(uint64(a.args[1].iv)>>uint(k))))
		}
		// common power of two in an unsigned polynomial
		if a.op == OPoly {
			tz := int64(w)
			for _, m := range a.mon {
				z := int64(bits.TrailingZeros64(uint64(m.ci)))
				if z < tz {
					tz = z
				}
			}
			if tz > 0 {
				if tz > k {
					tz = k
				}
				ms := make([]mono, len(a.mon))
				for i, m := range a.mon {
					ms[i] = mono{m.atoms, m.ci >> uint(tz), nil}
				}
				y := mkPoly(a.ty, ms)
				return BAnd(Shr(y, Int(TI64, k-tz)), Int(a.ty, int64((uint64(1)<<(w-uint(k)))-1)))
			}
		}
		return intern(&Term{op: OShr, ty: a.ty, args: []*Term{a, Int(TI64, k)}})
	}
	return intern(&Term{op: OShr, ty: a.ty, args: []*Term{a, s}})
}

func BAnd(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return Int(a.ty, a.iv&b.iv)
		}
		if b.iv == 0 {
			return b
		}
		if a.op == OBAnd && a.args[1].op == OConst {
			return BAnd(a.args[0], Int(a.ty, a.args[1].iv&b.iv))
		}
		al, ah := Bounds(a)
		low := b.iv > 0 && b.iv&(b.iv+1) == 0 // 2^k-1
		if low && al >= 0 && ah <= b.iv && ah < inf {
			return a
		}
		if low && a.ty.signed() && al >= 0 {
			return Rem(a, Int(a.ty, b.iv+1))
		}
		if a.ty == TU32 && b.iv == math.MaxUint32 {
			return a
		}
		// masking a number read with another sign
		if b.iv > 0 && a.op == OConv && a.args[0].ty.isInt() && a.args[0].ty.bits() == a.ty.bits() && a.ty.signed() {
			return Conv(BAnd(a.args[0], Int(a.args[0].ty, b.iv)), a.ty)
		}
		// mask of shifted value: trailing ones mask beyond width
		if low && b.iv < 1<<62 && !a.ty.signed() && a.op == OPoly {
			// reduce coefficients modulo 2^k
			k := b.iv + 1
			ch := false
			var ms []mono
			for _, m := range a.mon {
				c := m.ci & b.iv
				if c > k/2 {
					c -= k
				}
				if c != m.ci {
					ch = true
				}
				if c != 0 {
					ms = append(ms, mono{m.atoms, c, nil})
				}
			}
			if ch {
				return BAnd(mkPoly(a.ty, ms), b)
			}
		}
		return intern(&Term{op: OBAnd, ty: a.ty, args: []*Term{a, b}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBAnd, ty: a.ty, args: []*Term{a, b}})
}

func lowZeros(t *Term) uint {
	switch t.op {
	case OConst:
		if t.iv == 0 {
			return 64
		}
		return uint(bits.TrailingZeros64(uint64(t.iv)))
	case OPoly:
		z := uint(64)
		for _, m := range t.mon {
			k := uint(bits.TrailingZeros64(uint64(m.ci)))
			if len(m.atoms) == 1 {
				k += lowZeros(m.atoms[0])
			}
			if k < z {
				z = k
			}
		}
		return z
	case OIte:
		return min(lowZeros(t.args[1]), lowZeros(t.args[2]))
	case OBAnd:
		return max(lowZeros(t.args[0]), lowZeros(t.args[1]))
	}
	return 0
}

// disjointBits: a|b == a^b == a+b.
func disjointBits(a, b *Term) bool {
	for k := 0; k < 2; k++ {
		z := lowZeros(a)
		lo, hi := Bounds(b)
		if lo >= 0 && z < 62 && hi < int64(1)<<z && hi < inf {
			return true
		}
		if z >= 62 && lo >= 0 && hi < inf {
			return true
		}
		a, b = b, a
	}
	return false
}

func BOr(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return Int(a.ty, a.iv|b.iv)
	}
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.iv == 0 {
		return a
	}
	if disjointBits(a, b) {
		return Add(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBOr, ty: a.ty, args: []*Term{a, b}})
}

func BXor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return Int(a.ty, a.iv^b.iv)
	}
	if a == b {
		return Int(a.ty, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.iv == 0 {
			return a
		}
		if b == Int(a.ty, -1) {
			return AddI(Neg(a), -1)
		}
		// flip of a 0/1 value
		if lo, hi := Bounds(a); b.iv == 1 && lo >= 0 && hi <= 1 {
			return Sub(Int(a.ty, 1), a)
		}
		// flipping the top bit is adding it
		if top := Int(a.ty, int64(1)<<(a.ty.bits()-1)); b == top {
			return Add(a, top)
		}
	}
	if disjointBits(a, b) {
		return Add(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBXor, ty: a.ty, args: []*Term{a, b}})
}

func fitsInt64(r *big.Rat) (int64, bool) {
	q := new(big.Int).Quo(r.Num(), r.Denom()) // truncates toward zero
	if q.IsInt64() {
		return q.Int64(), true
	}
	return 0, false
}

// RBounds returns inclusive bounds of a real-valued term, if it has any.
func RBounds(t *Term) (lo, hi *big.Rat, ok bool) {
	if t.ty != TF64 {
		return nil, nil, false
	}
	switch t.op {
	case OConst:
		return t.rv, t.rv, t.rv != nil
	case OConv:
		if a := t.args[0]; a.ty.isInt() {
			l, h := Bounds(a)
			if l > -inf && h < inf {
				return new(big.Rat).SetInt64(l), new(big.Rat).SetInt64(h), true
			}
		}
	case OPoly:
		lo, hi = new(big.Rat), new(big.Rat)
		for _, m := range t.mon {
			if len(m.atoms) > 1 || m.cr == nil {
				return nil, nil, false
			}
			l, h := m.cr, m.cr
			if len(m.atoms) == 1 {
				al, ah, ok := RBounds(m.atoms[0])
				if !ok {
					return nil, nil, false
				}
				l, h = new(big.Rat).Mul(al, m.cr), new(big.Rat).Mul(ah, m.cr)
				if l.Cmp(h) > 0 {
					l, h = h, l
				}
			}
			lo, hi = new(big.Rat).Add(lo, l), new(big.Rat).Add(hi, h)
		}
		return lo, hi, true
	case OIte:
		al, ah, ok1 := RBounds(t.args[1])
		bl, bh, ok2 := RBounds(t.args[2])
		if ok1 && ok2 {
			if bl.Cmp(al) < 0 {
				al = bl
			}
			if bh.Cmp(ah) > 0 {
				ah = bh
			}
			return al, ah, true
		}
	}
	return nil, nil, false
}

func Conv(a *Term, to Ty) *Term {
	if a.ty == to {
		return a
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return Ite(a.args[0], Conv(a.args[1], to), Conv(a.args[2], to))
	}
	switch {
	case a.ty.isInt() && to.isInt():
		if a.op == OConst {
			return Int(to, a.iv)
		}
		al, ah := Bounds(a)
		tl, th := tyRange(to)
		if a.op == OConv && a.args[0].ty.isInt() {
			in := a.args[0]
			// conv chains: value preserved by inner widening, or overall truncation
			if in.ty.bits() <= a.ty.bits() {
				il, ih := Bounds(in)
				aal, aah := tyRange(a.ty)
				if (il >= aal && ih <= aah && !(in.ty == TU64 && ih >= inf)) || to.bits() <= in.ty.bits() {
					return Conv(in, to)
				}
			} else if to.bits() <= a.ty.bits() {
				return Conv(in, to)
			}
		}
		if to.bits() < a.ty.bits() {
			// truncation is a ring homomorphism
			if a.op == OPoly {
				s := Int(to, 0)
				for _, m := range a.mon {
					p := Int(to, m.ci)
					for _, x := range m.atoms {
						p = Mul(p, Conv(x, to))
					}
					s = Add(s, p)
				}
				return s
			}
			if a.op == OSum {
				l := a.args[1]
				v := NewVar("s", math.MinInt64, math.MaxInt64)
				return Sum(a.args[0], Lam([]*Term{v}, Conv(Inst(l, v), to)))
			}
			if a.op == OIte {
				return Ite(a.args[0], Conv(a.args[1], to), Conv(a.args[2], to))
			}
		} else if (a.op == OShr || a.op == OBAnd) && !a.ty.signed() && a.args[1].op == OConst && al >= tl && ah <= th {
			// a value that is kept is shifted or masked after widening
			if _, h := Bounds(a.args[0]); h < inf {
				if a.op == OShr {
					return Shr(Conv(a.args[0], to), a.args[1])
				}
				return BAnd(Conv(a.args[0], to), Int(to, a.args[1].iv))
			}
		} else if a.op == OPoly && al >= tl && ah <= th && al > -inf && ah < inf && exactPoly(a) {
			// widening without wrap distributes
			s := Int(to, 0)
			for _, m := range a.mon {
				p := Int(to, m.ci)
				for _, x := range m.atoms {
					p = Mul(p, Conv(x, to))
				}
				s = Add(s, p)
			}
			return s
		}
		if a.op == OPoly && to == TI64 && (a.ty == TU32 || a.ty == TU16 || a.ty == TU8) {
			// wrapping around is a remainder
			s := Int(to, 0)
			for _, m := range a.mon {
				p := Int(to, m.ci)
				for _, x := range m.atoms {
					p = Mul(p, Conv(x, to))
				}
				s = Add(s, p)
			}
			if l, h := Bounds(s); l >= 0 && h < inf && exactPoly(s) {
				return Rem(s, Int(to, int64(1)<<a.ty.bits()))
			}
		}
		return intern(&Term{op: OConv, ty: to, args: []*Term{a}})
	case a.ty.isInt() && to == TF64:
		if a.op == OConst {
			if a.ty == TU64 {
				return Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(a.iv))))
			}
			return Rat(new(big.Rat).SetInt64(a.iv))
		}
		if a.op == OPoly && (a.ty == TI64 || exactPoly(a)) {
			s := Rat(new(big.Rat))
			for _, m := range a.mon {
				p := Rat(new(big.Rat).SetInt64(m.ci))
				for _, x := range m.atoms {
					p = Mul(p, Conv(x, to))
				}
				s = Add(s, p)
			}
			return s
		}
		if a.op == OConv && a.args[0].ty.isInt() && a.args[0].ty.bits() <= a.ty.bits() {
			in := a.args[0]
			il, ih := Bounds(in)
			aal, aah := tyRange(a.ty)
			if il >= aal && ih <= aah && !(in.ty == TU64 && ih >= inf) {
				return Conv(in, to)
			}
		}
	case a.ty == TF64 && to.isInt():
		if a.op == OConst && a.rv != nil {
			if v, ok := fitsInt64(a.rv); ok {
				return Int(to, v)
			}
		}
		if lo, hi, ok := RBounds(a); ok && a.op != OConst {
			if l, ok1 := fitsInt64(lo); ok1 {
				if h, ok2 := fitsInt64(hi); ok2 && l == h {
					return Int(to, l)
				}
			}
		}
		// the conversion drops the fraction itself
		if a.op == OPoly {
			for i, m := range a.mon {
				if len(m.atoms) == 1 && m.cr != nil && m.cr.IsInt() && m.cr.Num().IsInt64() && m.cr.Num().Int64() == -1 {
					if f := m.atoms[0]; f.op == OFn && f.name == "math.Mod" && f.args[1].isOneF() {
						y := mkPoly(TF64, append(append([]mono{}, a.mon[:i]...), a.mon[i+1:]...))
						if y == f.args[0] {
							return Conv(y, to)
						}
					}
				}
			}
		}
		// conversion of an integer-valued float that came from an int
		if a.op == OConv && a.args[0].ty.isInt() {
			return Conv(a.args[0], to)
		}
		if to.bits() < 64 || to == TU64 {
			// float -> narrower int: keep as float->i64 then truncate
			if to != TU64 {
				return Conv(Conv(a, TI64), to)
			}
		}
	}
	return intern(&Term{op: OConv, ty: to, args: []*Term{a}})
}

func (t *Term) isOneF() bool {
	return t.op == OConst && t.ty == TF64 && t.rv != nil && t.rv.IsInt() && t.rv.Num().IsInt64() && t.rv.Num().Int64() == 1
}

// keeps reports that converting x to a type keeps its value.
func keeps(x *Term, to Ty) bool {
	l, h := Bounds(x)
	tl, th := tyRange(to)
	return l >= tl && h <= th && !(x.ty == TU64 && h >= inf) && !(x.ty == TI64 && l <= -inf)
}

// exactPoly: evaluating the polynomial over the integers stays within the type's range.
func exactPoly(a *Term) bool {
	if a.op != OPoly {
		return true
	}
	var l, h int64
	for _, m := range a.mon {
		ml, mh := int64(1), int64(1)
		for _, x := range m.atoms {
			al, ah := Bounds(x)
			p := []int64{satMul(ml, al), satMul(ml, ah), satMul(mh, al), satMul(mh, ah)}
			ml, mh = p[0], p[0]
			for _, y := range p {
				ml, mh = min(ml, y), max(mh, y)
			}
		}
		x, y := satMul(ml, m.ci), satMul(mh, m.ci)
		if x > y {
			x, y = y, x
		}
		l, h = satAdd(l, x), satAdd(h, y)
	}
	tl, th := tyRange(a.ty)
	return l >= tl && h <= th && l > -inf && h < inf
}

// ---------------------------------------------------------------- binders

// Lam abstracts vars in body.
func Lam(vars []*Term, body *Term) *Term {
	m := map[int32]int{}
	for i, v := range vars {
		m[v.VarID()] = i
	}
	b := abstract(body, m, 0, map[[2]int]*Term{})
	return intern(&Term{op: OLam, ty: TRef, iv: int64(len(vars)), args: []*Term{b}})
}

func anyFV(t *Term, m map[int32]int) bool {
	for _, f := range t.fv {
		if _, ok := m[f]; ok {
			return true
		}
	}
	return false
}

func abstract(t *Term, m map[int32]int, depth int, memo map[[2]int]*Term) *Term {
	if !anyFV(t, m) {
		return t
	}
	if t.op == OVar {
		return BV(depth+m[t.fv[0]], t.ty)
	}
	k := [2]int{t.id, depth}
	if r, ok := memo[k]; ok {
		return r
	}
	r := rebuildRaw(t, func(a *Term, d int) *Term { return abstract(a, m, depth+d, memo) })
	memo[k] = r
	return r
}

// Inst applies a lambda to arguments.
func Inst(l *Term, args ...*Term) *Term {
	if l.op != OLam || int(l.iv) != len(args) {
		panic(fmt.Sprintf("inst arity: %v %d", l, len(args)))
	}
	return instantiate(l.args[0], args, 0, map[[2]int]*Term{})
}

func instantiate(t *Term, args []*Term, depth int, memo map[[2]int]*Term) *Term {
	if int(t.bv) <= depth {
		return t
	}
	if t.op == OBV {
		if int(t.iv) >= depth && int(t.iv) < depth+len(args) {
			return args[int(t.iv)-depth]
		}
		return t
	}
	k := [2]int{t.id, depth}
	if r, ok := memo[k]; ok {
		return r
	}
	f := func(a *Term, d int) *Term { return instantiate(a, args, depth+d, memo) }
	var r *Term
	if depth == 0 {
		r = Rebuild(t, f)
	} else {
		r = Rebuild(t, f)
	}
	memo[k] = r
	return r
}

// rebuildRaw rebuilds keeping structure (used when bound variables replace free ones).
func rebuildRaw(t *Term, f func(a *Term, d int) *Term) *Term {
	d := 0
	if t.op == OLam {
		d = int(t.iv)
	}
	n := &Term{op: t.op, ty: t.ty, iv: t.iv, rv: t.rv, name: t.name}
	if t.op == OSel || t.op == OSym {
		n.fv = ownFV(t)
	}
	if t.op == OPoly {
		// re-sort through arithmetic
		s := zero(t.ty)
		for _, m := range t.mon {
			p := mkPoly(t.ty, []mono{{nil, m.ci, m.cr}})
			for _, a := range m.atoms {
				p = Mul(p, f(a, 0))
			}
			s = Add(s, p)
		}
		return s
	}
	n.args = make([]*Term, len(t.args))
	for i, a := range t.args {
		n.args[i] = f(a, d)
	}
	if t.op == OAnd {
		sort.Slice(n.args, func(i, j int) bool { return n.args[i].id < n.args[j].id })
	}
	return intern(n)
}

// ownFV returns the symbol's own free id (selects on placeholders).
func ownFV(t *Term) []int32 {
	if id, ok := ownIDs[t.name]; ok {
		return []int32{id}
	}
	return nil
}

// ownIDs maps placeholder symbol names to their free ids.
var ownIDs = map[string]int32{}

// Rebuild reconstructs t through the simplifying constructors.
func Rebuild(t *Term, f func(a *Term, d int) *Term) *Term {
	switch t.op {
	case OConst, OVar, OBV, OSym:
		return t
	case OPoly:
		s := zero(t.ty)
		for _, m := range t.mon {
			p := mkPoly(t.ty, []mono{{nil, m.ci, m.cr}})
			for _, a := range m.atoms {
				p = Mul(p, f(a, 0))
			}
			s = Add(s, p)
		}
		return s
	case OSel:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a, 0)
		}
		n := &Term{op: OSel, ty: t.ty, name: t.name, args: as, fv: ownFV(t)}
		return intern(n)
	case OFn:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a, 0)
		}
		return FnSimp(t.name, t.ty, as)
	case OLam:
		b := f(t.args[0], int(t.iv))
		return intern(&Term{op: OLam, ty: TRef, iv: t.iv, args: []*Term{b}})
	case OSum:
		return Sum(f(t.args[0], 0), f(t.args[1], 0))
	case OIte:
		c := f(t.args[0], 0)
		if c.isTrue() {
			return f(t.args[1], 0)
		}
		if c.isFalse() {
			return f(t.args[2], 0)
		}
		return Ite(c, f(t.args[1], 0), f(t.args[2], 0))
	case OEq0:
		a := f(t.args[0], 0)
		return Eq(a, zero(a.ty))
	case OEq:
		return Eq(f(t.args[0], 0), f(t.args[1], 0))
	case OLt0:
		return Lt0(f(t.args[0], 0))
	case OLt:
		return Lt(f(t.args[0], 0), f(t.args[1], 0))
	case ONot:
		return Not(f(t.args[0], 0))
	case OAnd:
		as := make([]*Term, 0, len(t.args))
		for _, a := range t.args {
			x := f(a, 0)
			if x.isFalse() {
				return x
			}
			as = append(as, x)
		}
		return And(as...)
	case ODiv:
		return Div(f(t.args[0], 0), f(t.args[1], 0))
	case ORem:
		return Rem(f(t.args[0], 0), f(t.args[1], 0))
	case OShl:
		return Shl(f(t.args[0], 0), f(t.args[1], 0))
	case OShr:
		return Shr(f(t.args[0], 0), f(t.args[1], 0))
	case OBAnd:
		return BAnd(f(t.args[0], 0), f(t.args[1], 0))
	case OBOr:
		return BOr(f(t.args[0], 0), f(t.args[1], 0))
	case OBXor:
		return BXor(f(t.args[0], 0), f(t.args[1], 0))
	case OConv:
		return Conv(f(t.args[0], 0), t.ty)
	case ORec:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a, 0)
		}
		return intern(&Term{op: ORec, ty: t.ty, iv: t.iv, name: t.name, args: as})
	}
	panic(fmt.Sprintf("rebuild op %d", t.op))
}

// FnSimp applies known function simplifications (constant folding of math functions).
func FnSimp(name string, ty Ty, as []*Term) *Term {
	if r := foldMath(name, as); r != nil {
		return r
	}
	return Fn(name, ty, as...)
}

func constF(t *Term) (float64, bool) {
	if t.op == OConst && t.ty == TF64 && t.rv != nil {
		f, _ := t.rv.Float64()
		return f, true
	}
	return 0, false
}

func foldMath(name string, as []*Term) *Term {
	switch name {
	case "inv":
		if as[0].op == OConst && as[0].rv != nil && as[0].rv.Sign() != 0 {
			return Rat(new(big.Rat).Inv(as[0].rv))
		}
		return nil
	}
	if !strings.HasPrefix(name, "math.") {
		return nil
	}
	if lo, hi, ok := RBounds(as[0]); ok {
		half := big.NewRat(1, 2)
		same := func(f func(*big.Rat) *big.Int) *Term {
			l, h := f(lo), f(hi)
			if l.Cmp(h) == 0 {
				return Rat(new(big.Rat).SetInt(l))
			}
			return nil
		}
		floor := func(r *big.Rat) *big.Int {
			q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
			_ = m
			return q
		}
		switch name {
		case "math.Mod":
			if d := as[1]; d.op == OConst && d.rv != nil && d.rv.Sign() > 0 {
				if as[0].op == OConst {
					q := new(big.Rat).Quo(lo, d.rv)
					n := new(big.Rat).SetInt(new(big.Int).Quo(q.Num(), q.Denom()))
					return Rat(n.Sub(lo, n.Mul(n, d.rv)))
				}
				if hi.Cmp(d.rv) < 0 && new(big.Rat).Neg(lo).Cmp(d.rv) < 0 {
					return as[0]
				}
			}
		case "math.Floor":
			if r := same(floor); r != nil {
				return r
			}
		case "math.Trunc":
			if r := same(func(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }); r != nil {
				return r
			}
		case "math.Round":
			f := func(r *big.Rat) *big.Int {
				if r.Sign() < 0 {
					q := floor(new(big.Rat).Add(new(big.Rat).Neg(r), half))
					return q.Neg(q)
				}
				return floor(new(big.Rat).Add(r, half))
			}
			if r := same(f); r != nil {
				return r
			}
		case "math.Abs":
			if lo.Sign() >= 0 {
				return as[0]
			}
		}
	}
	var fs []float64
	for _, a := range as {
		f, ok := constF(a)
		if !ok {
			return nil
		}
		fs = append(fs, f)
	}
	switch name {
	case "math.Mod":
		return Float(math.Mod(fs[0], fs[1]))
	case "math.Pow":
		// exact for integral powers
		if fs[1] == math.Trunc(fs[1]) && math.Abs(fs[1]) < 64 && as[0].rv.Sign() != 0 {
			r := big.NewRat(1, 1)
			n := int(math.Abs(fs[1]))
			for i := 0; i < n; i++ {
				r.Mul(r, as[0].rv)
			}
			if fs[1] < 0 {
				r.Inv(r)
			}
			return Rat(r)
		}
		return Float(math.Pow(fs[0], fs[1]))
	case "math.Exp2":
		return Float(math.Exp2(fs[0]))
	case "math.Ldexp":
		return nil
	case "math.Floor":
		return Float(math.Floor(fs[0]))
	case "math.Ceil":
		return Float(math.Ceil(fs[0]))
	case "math.Round":
		return Float(math.Round(fs[0]))
	case "math.Trunc":
		return Float(math.Trunc(fs[0]))
	case "math.Abs":
		return Float(math.Abs(fs[0]))
	case "math.Sqrt":
		return Float(math.Sqrt(fs[0]))
	case "math.Log2":
		return Float(math.Log2(fs[0]))
	}
	return nil
}

// Subst replaces free variables/placeholder scalars by terms.
func Subst(t *Term, m map[int32]*Term) *Term {
	return SubstSel(t, m, nil)
}

// SubstSel additionally maps selects on placeholder arrays through fn.
func SubstSel(t *Term, m map[int32]*Term, sel map[int32]func(idx []*Term) *Term) *Term {
	return substRec(t, m, sel, map[int]*Term{})
}

func hitsFV(t *Term, m map[int32]*Term, sel map[int32]func(idx []*Term) *Term) bool {
	for _, f := range t.fv {
		if _, ok := m[f]; ok {
			return true
		}
		if _, ok := sel[f]; ok {
			return true
		}
	}
	return false
}

func substRec(t *Term, m map[int32]*Term, sel map[int32]func(idx []*Term) *Term, memo map[int]*Term) *Term {
	if !hitsFV(t, m, sel) {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OVar:
		r = m[t.fv[0]]
	case OSym:
		if id, ok := ownIDs[t.name]; ok {
			if x, ok := m[id]; ok {
				memo[t.id] = x
				return x
			}
		}
		r = t
	case OSel:
		if id, ok := ownIDs[t.name]; ok {
			if fn, ok := sel[id]; ok && t.bv == 0 {
				as := make([]*Term, len(t.args))
				for i, a := range t.args {
					as[i] = substRec(a, m, sel, memo)
				}
				r = fn(as)
				memo[t.id] = r
				return r
			}
		}
		r = Rebuild(t, func(a *Term, d int) *Term { return substRec(a, m, sel, memo) })
	case OSum:
		n := substRec(t.args[0], m, sel, memo)
		if t.args[1].bv == 0 && needsOpen(t.args[1], sel) {
			hi := int64(math.MaxInt64)
			if _, h := Bounds(n); h < inf {
				hi = h
			}
			w := NewVar("o", 0, hi)
			r = Sum(n, Lam([]*Term{w}, substRec(Inst(t.args[1], w), m, sel, map[int]*Term{})))
		} else {
			r = Sum(n, substRec(t.args[1], m, sel, memo))
		}
	case OLam:
		if needsOpen(t, sel) {
			// open the binder so that selects on bound indices can be mapped
			vs := make([]*Term, t.iv)
			for i := range vs {
				vs[i] = NewVar("o", math.MinInt64, math.MaxInt64)
			}
			b := Inst(t, vs...)
			b = substRec(b, m, sel, map[int]*Term{})
			r = Lam(vs, b)
		} else {
			r = Rebuild(t, func(a *Term, d int) *Term { return substRec(a, m, sel, memo) })
		}
	default:
		r = Rebuild(t, func(a *Term, d int) *Term { return substRec(a, m, sel, memo) })
	}
	memo[t.id] = r
	return r
}

func needsOpen(t *Term, sel map[int32]func(idx []*Term) *Term) bool {
	for _, f := range t.fv {
		if _, ok := sel[f]; ok {
			return true
		}
	}
	return false
}

// Sum builds sum_{i<n} lam(i) with linearity normalisation.
func Sum(n, lam *Term) *Term { return sum0(n, lam, true) }

func sum0(n, lam *Term, rev bool) *Term {
	body := lam.args[0]
	ty := body.ty
	if n.op == OConst && n.iv <= 0 {
		return zero(ty)
	}
	if body.bv == 0 { // independent of i
		return Mul(body, convN(n, ty))
	}
	if n.op == OConst && n.iv == 1 {
		return Inst(lam, I(0))
	}
	ms := body.monos()
	if body.op == OPoly {
		s := zero(ty)
		for _, m := range ms {
			// factor out parts independent of i
			out := mkPoly(ty, []mono{{nil, m.ci, m.cr}})
			in := mkPoly(ty, []mono{{nil, 1, ratOne}})
			for _, a := range m.atoms {
				if a.bv == 0 {
					out = Mul(out, a)
				} else {
					in = Mul(in, a)
				}
			}
			var st *Term
			if in.op == OConst {
				st = convN(n, ty)
			} else {
				st = sumAtom(n, in, rev)
			}
			s = Add(s, Mul(out, st))
		}
		return s
	}
	return sumAtom(n, body, rev)
}

// bvDirs counts the places where the outermost bound variable occurs with positive and negative
// coefficient.
func bvDirs(t *Term, depth int, memo map[[2]int]bool) (pos, neg int) {
	if int(t.bv) <= depth {
		return
	}
	if t.op == OBV {
		if int(t.iv) == depth {
			pos++
		}
		return
	}
	k := [2]int{t.id, depth}
	if memo[k] {
		return
	}
	memo[k] = true
	if t.op == OPoly {
		for _, m := range t.mon {
			if len(m.atoms) == 1 && m.atoms[0].op == OBV {
				if int(m.atoms[0].iv) == depth {
					if m.cr != nil && m.cr.Sign() < 0 || m.cr == nil && m.ci < 0 {
						neg++
					} else {
						pos++
					}
				}
				continue
			}
			for _, a := range m.atoms {
				p, q := bvDirs(a, depth, memo)
				pos, neg = pos+p, neg+q
			}
		}
		return
	}
	d := 0
	if t.op == OLam {
		d = int(t.iv)
	}
	for _, a := range t.args {
		p, q := bvDirs(a, depth+d, memo)
		pos, neg = pos+p, neg+q
	}
	return
}

func sumAtom(n, body *Term, rev bool) *Term {
	// a sum that runs backwards
	if rev && n.bv == 0 {
		if p, q := bvDirs(body, 0, map[[2]int]bool{}); q > p {
			l := intern(&Term{op: OLam, ty: TRef, iv: 1, args: []*Term{body}})
			v := NewVar("s", math.MinInt64, math.MaxInt64)
			return sum0(n, Lam([]*Term{v}, Inst(l, Sub(Sub(n, I(1)), v))), false)
		}
	}
	// ite with a condition independent of the index
	if body.op == OIte && body.args[0].bv == 0 {
		la := intern(&Term{op: OLam, ty: TRef, iv: 1, args: []*Term{body.args[1]}})
		lb := intern(&Term{op: OLam, ty: TRef, iv: 1, args: []*Term{body.args[2]}})
		return Ite(body.args[0], Sum(n, la), Sum(n, lb))
	}
	// a conjunct independent of the index without which the summand vanishes
	if body.op == OIte && body.args[0].op == OAnd {
		for _, c := range body.args[0].args {
			if c.bv == 0 && c.op != ONot && setLit(body, c, false).IsZero() {
				l := intern(&Term{op: OLam, ty: TRef, iv: 1, args: []*Term{setLit(body, c, true)}})
				return Ite(c, Sum(n, l), zero(body.ty))
			}
		}
	}
	l := intern(&Term{op: OLam, ty: TRef, iv: 1, args: []*Term{body}})
	return intern(&Term{op: OSum, ty: body.ty, args: []*Term{n, l}})
}

// setLit replaces the literal c by its truth value in the conditions of t.
func setLit(t, c *Term, v bool) *Term {
	if t == c {
		return Bool(v)
	}
	switch t.op {
	case OIte, OAnd, ONot, OPoly:
		return Rebuild(t, func(a *Term, d int) *Term { return setLit(a, c, v) })
	}
	return t
}

func convN(n *Term, ty Ty) *Term { return Conv(n, ty) }

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	j := func(ts []*Term) string {
		s := make([]string, len(ts))
		for i, a := range ts {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		if t.ty == TStr {
			return strconv.Quote(t.name)
		}
		if t.ty == TF64 {
			f, _ := t.rv.Float64()
			return strconv.FormatFloat(f, 'g', -1, 64) + "f"
		}
		if t.ty == TBool {
			return strconv.FormatBool(t.iv == 1)
		}
		return strconv.FormatInt(t.iv, 10)
	case OPoly:
		var b strings.Builder
		for i, m := range t.mon {
			c := ""
			if m.cr != nil {
				f, _ := m.cr.Float64()
				c = strconv.FormatFloat(f, 'g', -1, 64)
			} else {
				c = strconv.FormatInt(m.ci, 10)
			}
			if i > 0 && !strings.HasPrefix(c, "-") {
				b.WriteString(" + ")
			} else if i > 0 {
				b.WriteString(" ")
			}
			if len(m.atoms) == 0 {
				b.WriteString(c)
				continue
			}
			if c == "-1" {
				b.WriteString("-")
			} else if c != "1" {
				b.WriteString(c + "*")
			}
			for k, a := range m.atoms {
				if k > 0 {
					b.WriteString("*")
				}
				b.WriteString(a.str(d + 1))
			}
		}
		return "(" + b.String() + ")"
	case OVar:
		return t.name + "#" + strconv.Itoa(int(t.fv[0]))
	case OBV:
		return "$" + strconv.FormatInt(t.iv, 10)
	case OSym:
		return t.name
	case OSel:
		return t.name + "[" + j(t.args) + "]"
	case OFn:
		return t.name + "(" + j(t.args) + ")"
	case OLam:
		return "λ" + strconv.FormatInt(t.iv, 10) + "." + t.args[0].str(d+1)
	case OSum:
		return "Σ<" + t.args[0].str(d+1) + ">{" + t.args[1].args[0].str(d+1) + "}"
	case OIte:
		return "ite(" + j(t.args) + ")"
	case OEq0:
		return t.args[0].str(d+1) + "==0"
	case OEq:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case OLt0:
		return t.args[0].str(d+1) + "<0"
	case OLt:
		return t.args[0].str(d+1) + "<" + t.args[1].str(d+1)
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OAnd:
		s := make([]string, len(t.args))
		for i, a := range t.args {
			s[i] = a.str(d + 1)
		}
		return "(" + strings.Join(s, " && ") + ")"
	case OConv:
		return t.ty.String() + "(" + t.args[0].str(d+1) + ")"
	case ORec:
		return "rec" + t.name + "{" + j(t.args) + "}"
	}
	names := map[Op]string{ODiv: "/", ORem: "%", OShl: "<<", OShr: ">>", OBAnd: "&", OBOr: "|", OBXor: "^"}
	return "(" + t.args[0].str(d+1) + names[t.op] + t.args[1].str(d+1) + ")"
}
