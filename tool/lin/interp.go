package lin

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"math/cmplx"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fault is a violation met during interpretation: a panic or an access out of range.
type Fault struct {
	Pos, Fn, Msg string
	Panic        bool
}

func (f Fault) String() string { return fmt.Sprintf("%s: %s (in %s)", f.Pos, f.Msg, f.Fn) }

type giveUp struct{ msg string }

// Interp interprets functions.
type Interp struct {
	prog   *ssa.Program
	inMod  func(*ssa.Function) bool
	glob   map[*ssa.Global]*Ptr
	inited map[*ssa.Package]bool
	nsym   int32
	rounds map[int32]*F // integer symbols defined by rounding a form
	signed map[int32]int32
	Steps  int
	Max    int
	Funcs  map[string]bool
	Wins   int // unsafe windows checked
	Sites  map[string]bool
	Log    map[Cell1]string // cells written, when not nil
	fn     *ssa.Function
	pos    token.Pos
	depth  int
}

// New makes an interpreter.
func New(prog *ssa.Program, inMod func(*ssa.Function) bool) *Interp {
	return &Interp{prog: prog, inMod: inMod, glob: map[*ssa.Global]*Ptr{}, inited: map[*ssa.Package]bool{}, rounds: map[int32]*F{}, signed: map[int32]int32{}, Max: 200_000_000, Funcs: map[string]bool{}, Sites: map[string]bool{}}
}

func (x *Interp) where() (string, string) {
	fn := ""
	if x.fn != nil {
		fn = x.fn.String()
		fn = fn[strings.LastIndex(fn, "/")+1:]
	}
	q := x.prog.Fset.Position(x.pos)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			f = f[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", f, q.Line), fn
}

func (x *Interp) fail(format string, a ...interface{}) {
	p, fn := x.where()
	panic(giveUp{fmt.Sprintf("%s (%s): ", p, fn) + fmt.Sprintf(format, a...)})
}

func (x *Interp) fault(isPanic bool, format string, a ...interface{}) {
	p, fn := x.where()
	panic(Fault{p, fn, fmt.Sprintf(format, a...), isPanic})
}

// Sym makes a fresh symbol.
func (x *Interp) Sym() int32 { x.nsym++; return x.nsym }

// Real makes the real number named by a fresh symbol.
func (x *Interp) Real() (*F, int32) {
	s := x.Sym()
	return &F{lin: []term{{s, 1}}}, s
}

// Torus makes a fresh 32-bit unknown; the symbol names its signed reading as a real.
func (x *Interp) Torus() (*U, int32) {
	s := x.Sym()
	return &U{lin: map[int32]int64{s: 1}}, s
}

// Floats makes a slice of n unknown reals, and lists their symbols.
func (x *Interp) Floats(n int) (*Slice, []int32) {
	a := &Agg{e: make([]Value, n), elem: types.Typ[types.Float64]}
	ss := make([]int32, n)
	for i := range a.e {
		a.e[i], ss[i] = x.Real()
	}
	return &Slice{a, 0, n, n}, ss
}

// Toruses makes a slice of n unknown 32-bit numbers of the given element type.
func (x *Interp) Toruses(n int, t types.Type) (*Slice, []int32) {
	a := &Agg{e: make([]Value, n), elem: t}
	ss := make([]int32, n)
	for i := range a.e {
		a.e[i], ss[i] = x.Torus()
	}
	return &Slice{a, 0, n, n}, ss
}

// Struct makes a struct value.
func Struct(fields ...Value) *Agg { return &Agg{e: fields} }

// Field reads a field of a struct value or of the struct a pointer leads to.
func Field(v Value, i int) Value {
	switch u := v.(type) {
	case *Agg:
		return u.e[i]
	case *Ptr:
		return u.a.e[u.i].(*Agg).e[i]
	}
	return nil
}

// At reads an element of a slice or array.
func At(v Value, i int) Value {
	switch u := v.(type) {
	case *Slice:
		return u.a.e[u.off+i]
	case *Agg:
		return u.e[i]
	}
	return nil
}

// Same reports slices of the same memory.
func Same(a, b Value) bool {
	s, ok1 := a.(*Slice)
	t, ok2 := b.(*Slice)
	return ok1 && ok2 && s.a == t.a
}

// Call interprets a function. A Fault means the program misbehaves; an error that it could not be followed.
func (x *Interp) Call(f *ssa.Function, args ...Value) (v Value, flt *Fault, err error) {
	defer func() {
		if e := recover(); e != nil {
			switch u := e.(type) {
			case giveUp:
				err = fmt.Errorf("%s", u.msg)
			case Fault:
				flt = &u
			default:
				p, fn := x.where()
				err = fmt.Errorf("%s (%s): analyser: %v", p, fn, e)
			}
			x.depth = 0
		}
	}()
	if f == nil {
		return nil, nil, fmt.Errorf("function not found")
	}
	return x.call(f, args, nil), nil, nil
}

func (x *Interp) initPkg(p *ssa.Package) {
	if x.inited[p] {
		return
	}
	x.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			x.glob[g] = cellPtr(zero(g.Type().(*types.Pointer).Elem()))
		}
	}
	if f := p.Func("init"); f != nil && x.inMod(f) {
		sf, sp := x.fn, x.pos
		x.call(f, nil, nil)
		x.fn, x.pos = sf, sp
	}
}

type frame struct {
	env    map[ssa.Value]Value
	defers []func()
}

func (x *Interp) call(f *ssa.Function, args, binds []Value) Value {
	if f.Blocks == nil || !x.inModFn(f) {
		return x.external(f.String(), f, args)
	}
	if f.Pkg != nil {
		x.initPkg(f.Pkg)
	}
	x.depth++
	if x.depth > 200 {
		x.fail("recursion")
	}
	name := f.String()
	x.Funcs[name[strings.LastIndex(name, "/")+1:]] = true
	fr := &frame{env: map[ssa.Value]Value{}}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		fr.env[v] = binds[i]
	}
	sf, sp := x.fn, x.pos
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	for {
		x.fn = f
		var next *ssa.BasicBlock
		// phis in parallel
		k := 0
		var vals []Value
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					vals = append(vals, x.get(fr, phi.Edges[i]))
					break
				}
			}
			k++
		}
		for i := 0; i < k; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
		}
		for _, in := range b.Instrs[k:] {
			x.Steps++
			if x.Steps > x.Max {
				x.fail("too many steps")
			}
			if in.Pos() != token.NoPos {
				x.pos = in.Pos()
			}
			switch i := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := x.get(fr, i.Cond).(bool)
				if !ok {
					x.fail("branch on data")
				}
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				for j := len(fr.defers) - 1; j >= 0; j-- {
					fr.defers[j]()
				}
				fr.defers = nil
				x.depth--
				x.fn, x.pos = sf, sp
				switch len(i.Results) {
				case 0:
					return nil
				case 1:
					return x.get(fr, i.Results[0])
				}
				var t Tuple
				for _, r := range i.Results {
					t = append(t, x.get(fr, r))
				}
				return t
			case *ssa.Panic:
				msg := "panic"
				if v, ok := x.get(fr, i.X).(*Iface); ok {
					msg = fmt.Sprintf("panic: %v", v.v)
				}
				x.fault(true, "%s", msg)
			case *ssa.RunDefers:
				for j := len(fr.defers) - 1; j >= 0; j-- {
					fr.defers[j]()
				}
				fr.defers = nil
			default:
				x.instr(fr, in)
			}
		}
		prev, b = b, next
		if b == nil {
			x.fail("control flow")
		}
	}
}

func (x *Interp) inModFn(f *ssa.Function) bool {
	if x.inMod(f) {
		return true
	}
	if o := f.Origin(); o != nil && o != f {
		return x.inMod(o)
	}
	if f.Parent() != nil {
		return x.inModFn(f.Parent())
	}
	return false
}

func (x *Interp) get(fr *frame, v ssa.Value) Value {
	switch u := v.(type) {
	case *ssa.Const:
		return x.constant(u)
	case *ssa.Global:
		if u.Pkg != nil {
			x.initPkg(u.Pkg)
		}
		p := x.glob[u]
		if p == nil {
			p = cellPtr(zero(u.Type().(*types.Pointer).Elem()))
			x.glob[u] = p
		}
		return p
	case *ssa.Function:
		return &Fn{fn: u}
	case *ssa.Builtin:
		return u
	}
	r, ok := fr.env[v]
	if !ok {
		x.fail("value %s undefined", v.Name())
	}
	return r
}

func (x *Interp) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		x.fail("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return i
		}
		u, _ := constant.Uint64Val(v)
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Num(f)
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return &Cx{Num(re), Num(im)}
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	}
	x.fail("constant of type %s", c.Type())
	return nil
}

func width(t types.Type) (bits uint, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func wrap(v int64, t types.Type) int64 {
	w, s := width(t)
	if w == 64 {
		return v
	}
	if s {
		return v << (64 - w) >> (64 - w)
	}
	return int64(uint64(v) << (64 - w) >> (64 - w))
}

func (x *Interp) set(fr *frame, v ssa.Value, r Value) { fr.env[v] = r }

func (x *Interp) ptr(v Value) *Ptr {
	p, ok := v.(*Ptr)
	if !ok || p == nil {
		if v == nil {
			x.fault(true, "nil dereference")
		}
		x.fail("not a pointer: %T", v)
	}
	return p
}

func (x *Interp) load(p *Ptr) Value {
	if p.n > 0 {
		n := &Agg{e: make([]Value, p.n), elem: p.a.elem}
		for i := range n.e {
			n.e[i] = copyVal(p.a.e[p.i+i])
		}
		return n
	}
	return copyVal(p.a.e[p.i])
}

func (x *Interp) store(p *Ptr, v Value) {
	if p.n > 0 {
		for i, e := range v.(*Agg).e {
			x.logWrite(p.a, p.i+i)
			p.a.e[p.i+i] = copyVal(e)
		}
		return
	}
	// keep the identity of an aggregate other pointers lead into
	if old, ok := p.a.e[p.i].(*Agg); ok {
		if nv, ok := v.(*Agg); ok && len(nv.e) == len(old.e) {
			for i, e := range nv.e {
				x.store(&Ptr{a: old, i: i}, e)
			}
			return
		}
	}
	x.logWrite(p.a, p.i)
	p.a.e[p.i] = copyVal(v)
}

func (x *Interp) instr(fr *frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		x.set(fr, i, cellPtr(zero(i.Type().(*types.Pointer).Elem())))
	case *ssa.Store:
		x.store(x.ptr(x.get(fr, i.Addr)), x.get(fr, i.Val))
	case *ssa.UnOp:
		v := x.get(fr, i.X)
		switch i.Op {
		case token.MUL:
			x.set(fr, i, x.load(x.ptr(v)))
		case token.SUB:
			switch u := v.(type) {
			case int64:
				x.set(fr, i, wrap(-u, i.Type()))
			case *F:
				x.set(fr, i, scale(u, -1))
			case *U:
				x.set(fr, i, mulU(u, -1))
			case *Cx:
				x.set(fr, i, &Cx{scale(u.re, -1), scale(u.im, -1)})
			default:
				x.fail("negation of %T", v)
			}
		case token.NOT:
			b, ok := v.(bool)
			if !ok {
				x.fail("negation of data")
			}
			x.set(fr, i, !b)
		case token.XOR:
			switch u := v.(type) {
			case int64:
				x.set(fr, i, wrap(^u, i.Type()))
			case *U:
				x.set(fr, i, addU(mulU(u, -1), &U{c: 1}, -1))
			default:
				x.fail("complement of %T", v)
			}
		default:
			x.fail("operator %s", i.Op)
		}
	case *ssa.BinOp:
		x.set(fr, i, x.binop(i.Op, x.get(fr, i.X), x.get(fr, i.Y), i.X.Type(), i.Type()))
	case *ssa.FieldAddr:
		p := x.ptr(x.get(fr, i.X))
		a, ok := p.a.e[p.i].(*Agg)
		if !ok {
			x.fail("field of %T", p.a.e[p.i])
		}
		x.set(fr, i, &Ptr{a: a, i: i.Field, lo: i.Field, hi: i.Field + 1})
	case *ssa.Field:
		x.set(fr, i, copyVal(x.get(fr, i.X).(*Agg).e[i.Field]))
	case *ssa.IndexAddr:
		k, ok := x.get(fr, i.Index).(int64)
		if !ok {
			x.fail("index is data")
		}
		switch u := x.get(fr, i.X).(type) {
		case *Slice:
			if u == nil {
				x.fault(true, "index %d of nil slice", k)
			}
			if k < 0 || k >= int64(u.len) {
				x.fault(true, "index %d out of range of %d", k, u.len)
			}
			x.set(fr, i, &Ptr{a: u.a, i: u.off + int(k), lo: u.off, hi: u.off + u.len})
		case *Ptr:
			if u.n > 0 {
				if k < 0 || k >= int64(u.n) {
					x.fault(true, "index %d out of range of %d", k, u.n)
				}
				x.set(fr, i, &Ptr{a: u.a, i: u.i + int(k), lo: u.lo, hi: u.hi})
				return
			}
			a := u.a.e[u.i].(*Agg)
			if k < 0 || k >= int64(len(a.e)) {
				x.fault(true, "index %d out of range of %d", k, len(a.e))
			}
			x.set(fr, i, &Ptr{a: a, i: int(k), lo: 0, hi: len(a.e)})
		case nil:
			x.fault(true, "index %d of nil slice", k)
		default:
			x.fail("index of %T", u)
		}
	case *ssa.Index:
		k, ok := x.get(fr, i.Index).(int64)
		if !ok {
			x.fail("index is data")
		}
		switch u := x.get(fr, i.X).(type) {
		case *Agg:
			if k < 0 || k >= int64(len(u.e)) {
				x.fault(true, "index %d out of range of %d", k, len(u.e))
			}
			x.set(fr, i, copyVal(u.e[k]))
		case string:
			if k < 0 || k >= int64(len(u)) {
				x.fault(true, "index %d out of range", k)
			}
			x.set(fr, i, int64(u[k]))
		default:
			x.fail("index of %T", u)
		}
	case *ssa.Slice:
		x.slice(fr, i)
	case *ssa.MakeSlice:
		n, ok1 := x.get(fr, i.Len).(int64)
		c, ok2 := x.get(fr, i.Cap).(int64)
		if !ok1 || !ok2 {
			x.fail("length is data")
		}
		if n < 0 || c < n {
			x.fault(true, "makeslice: length %d out of range", n)
		}
		if c > 1<<24 {
			x.fail("slice of %d elements", c)
		}
		t := i.Type().Underlying().(*types.Slice).Elem()
		a := &Agg{e: make([]Value, c), elem: t}
		z := zero(t)
		for k := range a.e {
			a.e[k] = copyVal(z)
		}
		x.set(fr, i, &Slice{a, 0, int(n), int(c)})
	case *ssa.Convert:
		x.set(fr, i, x.convert(x.get(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		x.set(fr, i, x.get(fr, i.X))
	case *ssa.MultiConvert:
		x.set(fr, i, x.convert(x.get(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer:
		s, _ := x.get(fr, i.X).(*Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s == nil || s.len < n {
			x.fault(true, "slice too short for an array of %d", n)
		}
		x.set(fr, i, &Ptr{a: s.a, i: s.off, lo: s.off, hi: s.off + s.len, n: n})
	case *ssa.Call:
		x.set(fr, i, x.doCall(fr, i.Common()))
	case *ssa.Extract:
		x.set(fr, i, x.get(fr, i.Tuple).(Tuple)[i.Index])
	case *ssa.MakeClosure:
		f := &Fn{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.get(fr, b))
		}
		x.set(fr, i, f)
	case *ssa.MakeInterface:
		x.set(fr, i, &Iface{i.X.Type(), x.get(fr, i.X)})
	case *ssa.ChangeInterface:
		x.set(fr, i, x.get(fr, i.X))
	case *ssa.TypeAssert:
		v, _ := x.get(fr, i.X).(*Iface)
		ok := v != nil && types.Identical(v.t, i.AssertedType)
		if i.CommaOk {
			if ok {
				x.set(fr, i, Tuple{v.v, true})
			} else {
				x.set(fr, i, Tuple{zero(i.AssertedType), false})
			}
			return
		}
		if !ok {
			x.fail("type assertion")
		}
		x.set(fr, i, v.v)
	case *ssa.MakeMap:
		x.set(fr, i, &Map{m: map[Value]Value{}})
	case *ssa.MapUpdate:
		m, _ := x.get(fr, i.Map).(*Map)
		if m == nil {
			x.fail("map update")
		}
		m.put(x, x.get(fr, i.Key), x.get(fr, i.Value))
	case *ssa.Lookup:
		m, isMap := x.get(fr, i.X).(*Map)
		k := x.get(fr, i.Index)
		if !isMap {
			if s, ok := x.get(fr, i.X).(string); ok {
				x.set(fr, i, int64(s[k.(int64)]))
				return
			}
			m = &Map{m: map[Value]Value{}}
		}
		v, ok := m.get(x, k)
		if !ok {
			v = zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			x.set(fr, i, Tuple{v, ok})
		} else {
			x.set(fr, i, v)
		}
	case *ssa.Range:
		switch u := x.get(fr, i.X).(type) {
		case *Map:
			x.set(fr, i, &iter{m: u, keys: u.keys()})
		default:
			x.fail("range over %T", u)
		}
	case *ssa.Next:
		it := x.get(fr, i.Iter).(*iter)
		if it.k >= len(it.keys) {
			x.set(fr, i, Tuple{false, nil, nil})
			return
		}
		k := it.keys[it.k]
		it.k++
		x.set(fr, i, Tuple{true, k, it.m.m[k]})
	case *ssa.Defer:
		com := i.Common()
		var fn Value
		if !com.IsInvoke() {
			fn = x.get(fr, com.Value)
		}
		var args []Value
		for _, a := range com.Args {
			args = append(args, x.get(fr, a))
		}
		fr.defers = append(fr.defers, func() { x.apply(fn, args, com) })
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		x.fail("concurrency")
	default:
		x.fail("instruction %T", in)
	}
}

// Map is a map with constant keys.
type Map struct {
	m     map[Value]Value
	order []Value
}

type iter struct {
	m    *Map
	keys []Value
	k    int
}

func (m *Map) keys() []Value {
	ks := append([]Value(nil), m.order...)
	return ks
}

func mapKey(x *Interp, k Value) Value {
	switch u := k.(type) {
	case int64, string, bool, *Ptr, nil:
		return u
	case *Iface:
		return mapKey(x, u.v)
	case *F:
		if u.IsNum() {
			return u.c
		}
	}
	x.fail("map key is data")
	return nil
}

func (m *Map) put(x *Interp, k, v Value) {
	k = mapKey(x, k)
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = copyVal(v)
}

func (m *Map) get(x *Interp, k Value) (Value, bool) {
	v, ok := m.m[mapKey(x, k)]
	return copyVal(v), ok
}

func (x *Interp) slice(fr *frame, i *ssa.Slice) {
	lo, hi, max := int64(0), int64(-1), int64(-1)
	n := func(v ssa.Value) int64 {
		k, ok := x.get(fr, v).(int64)
		if !ok {
			x.fail("slice bound is data")
		}
		return k
	}
	if i.Low != nil {
		lo = n(i.Low)
	}
	if i.High != nil {
		hi = n(i.High)
	}
	if i.Max != nil {
		max = n(i.Max)
	}
	var a *Agg
	var off, ln, cp int
	switch u := x.get(fr, i.X).(type) {
	case *Slice:
		a, off, ln, cp = u.a, u.off, u.len, u.cap
	case *Ptr:
		if u.n > 0 {
			a, off, ln, cp = u.a, u.i, u.n, u.n
		} else {
			a = u.a.e[u.i].(*Agg)
			ln, cp = len(a.e), len(a.e)
		}
	case string:
		if hi < 0 {
			hi = int64(len(u))
		}
		if lo < 0 || lo > hi || hi > int64(len(u)) {
			x.fault(true, "slice bounds [%d:%d] out of range", lo, hi)
		}
		x.set(fr, i, u[lo:hi])
		return
	case nil:
		if hi < 0 {
			hi = 0
		}
		if lo != 0 || hi != 0 {
			x.fault(true, "slice bounds [%d:%d] out of range of nil", lo, hi)
		}
		x.set(fr, i, nil)
		return
	default:
		x.fail("slice of %T", u)
	}
	if hi < 0 {
		hi = int64(ln)
	}
	if max < 0 {
		max = int64(cp)
	}
	if lo < 0 || lo > hi || hi > max || max > int64(cp) {
		x.fault(true, "slice bounds [%d:%d] out of range of capacity %d", lo, hi, cp)
	}
	x.set(fr, i, &Slice{a, off + int(lo), int(hi - lo), int(max - lo)})
}

func addU(a, b *U, k int64) *U {
	r := &U{c: a.c + k*b.c, lin: map[int32]int64{}}
	for s, c := range a.lin {
		r.lin[s] = c
	}
	for s, c := range b.lin {
		r.lin[s] += k * c
		if r.lin[s] == 0 {
			delete(r.lin, s)
		}
	}
	return r
}

func mulU(a *U, k int64) *U { return addU(&U{}, a, k) }

func asU(v Value) (*U, bool) {
	switch u := v.(type) {
	case *U:
		return u, true
	case int64:
		return &U{c: u}, true
	}
	return nil, false
}

func (x *Interp) binop(op token.Token, a, b Value, t, rt types.Type) Value {
	switch p := a.(type) {
	case int64:
		if q, ok := b.(int64); ok {
			return x.intOp(op, p, q, t, rt)
		}
	case *F:
		q, ok := b.(*F)
		if !ok {
			break
		}
		return x.floatOp(op, p, q)
	case *Cx:
		q, ok := b.(*Cx)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return &Cx{addScaled(p.re, q.re, 1), addScaled(p.im, q.im, 1)}
		case token.SUB:
			return &Cx{addScaled(p.re, q.re, -1), addScaled(p.im, q.im, -1)}
		case token.MUL:
			if p.num() && q.num() {
				z := p.val() * q.val()
				return &Cx{Num(real(z)), Num(imag(z))}
			}
			return &Cx{addScaled(x.mulF(p.re, q.re), x.mulF(p.im, q.im), -1), addScaled(x.mulF(p.re, q.im), x.mulF(p.im, q.re), 1)}
		case token.QUO:
			if q.num() {
				if p.num() {
					z := p.val() / q.val()
					return &Cx{Num(real(z)), Num(imag(z))}
				}
				z := 1 / q.val()
				w := &Cx{Num(real(z)), Num(imag(z))}
				return x.binop(token.MUL, p, w, t, rt)
			}
		case token.EQL, token.NEQ:
			if p.num() && q.num() {
				return (p.val() == q.val()) == (op == token.EQL)
			}
		}
		x.fail("complex %s of data", op)
	case bool:
		q, ok := b.(bool)
		if ok {
			switch op {
			case token.EQL:
				return p == q
			case token.NEQ:
				return p != q
			}
		}
	case string:
		q, ok := b.(string)
		if ok {
			switch op {
			case token.ADD:
				return p + q
			case token.EQL:
				return p == q
			case token.NEQ:
				return p != q
			case token.LSS:
				return p < q
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		if eq, ok := sameRef(a, b); ok {
			return eq == (op == token.EQL)
		}
	}
	ua, ok1 := asU(a)
	ub, ok2 := asU(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return addU(ua, ub, 1)
		case token.SUB:
			return addU(ua, ub, -1)
		case token.MUL:
			if len(ua.lin) == 0 {
				return mulU(ub, ua.c)
			}
			if len(ub.lin) == 0 {
				return mulU(ua, ub.c)
			}
		case token.SHL:
			if len(ub.lin) == 0 && ub.c >= 0 && ub.c < 63 {
				return mulU(ua, 1<<uint(ub.c))
			}
		}
	}
	x.fail("operator %s on %T and %T", op, a, b)
	return nil
}

func sameRef(a, b Value) (bool, bool) {
	isNil := func(v Value) bool {
		switch u := v.(type) {
		case nil:
			return true
		case *Ptr:
			return u == nil
		case *Slice:
			return u == nil
		}
		return false
	}
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b), true
	}
	p, ok1 := a.(*Ptr)
	q, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		return p.a == q.a && p.i == q.i, true
	}
	return false, false
}

func (c *Cx) num() bool       { return c.re.IsNum() && c.im.IsNum() }
func (c *Cx) val() complex128 { return complex(c.re.c, c.im.c) }

func (x *Interp) floatOp(op token.Token, p, q *F) Value {
	switch op {
	case token.ADD:
		return addScaled(p, q, 1)
	case token.SUB:
		return addScaled(p, q, -1)
	case token.MUL:
		return x.mulF(p, q)
	case token.QUO:
		if q.IsNum() {
			if p.IsNum() {
				return Num(p.c / q.c)
			}
			return divBy(p, q.c)
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if p.IsNum() && q.IsNum() {
			switch op {
			case token.EQL:
				return p.c == q.c
			case token.NEQ:
				return p.c != q.c
			case token.LSS:
				return p.c < q.c
			case token.LEQ:
				return p.c <= q.c
			case token.GTR:
				return p.c > q.c
			case token.GEQ:
				return p.c >= q.c
			}
		}
	}
	x.fail("operator %s on data", op)
	return nil
}

func divBy(a *F, k float64) *F {
	r := &F{c: a.c / k, lin: make([]term, len(a.lin))}
	for i, t := range a.lin {
		r.lin[i] = term{t.s, t.c / k}
	}
	if len(a.quad) > 0 {
		r.quad = make(map[[2]int32]float64, len(a.quad))
		for q, c := range a.quad {
			r.quad[q] = c / k
		}
	}
	return r
}

func (x *Interp) intOp(op token.Token, p, q int64, t, rt types.Type) Value {
	w, s := width(t)
	switch op {
	case token.ADD:
		return wrap(p+q, rt)
	case token.SUB:
		return wrap(p-q, rt)
	case token.MUL:
		return wrap(p*q, rt)
	case token.QUO, token.REM:
		if q == 0 {
			x.fault(true, "division by zero")
		}
		if !s && w == 64 {
			if op == token.QUO {
				return int64(uint64(p) / uint64(q))
			}
			return int64(uint64(p) % uint64(q))
		}
		if op == token.QUO {
			return wrap(p/q, rt)
		}
		return wrap(p%q, rt)
	case token.AND:
		return p & q
	case token.OR:
		return p | q
	case token.XOR:
		return wrap(p^q, rt)
	case token.AND_NOT:
		return p &^ q
	case token.SHL:
		if q < 0 || q >= 64 {
			return int64(0)
		}
		return wrap(p<<uint(q), rt)
	case token.SHR:
		if s {
			if q < 0 || q > 63 {
				q = 63
			}
			return p >> uint(q)
		}
		if q < 0 || q > 63 {
			return int64(0)
		}
		return int64(uint64(p) >> uint(q))
	case token.EQL:
		return p == q
	case token.NEQ:
		return p != q
	}
	less := p < q
	if !s && w == 64 {
		less = uint64(p) < uint64(q)
	}
	switch op {
	case token.LSS:
		return less
	case token.LEQ:
		return less || p == q
	case token.GTR:
		return !less && p != q
	case token.GEQ:
		return !less
	}
	x.fail("operator %s", op)
	return nil
}

func (x *Interp) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	// unsafe
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fok && fb.Kind() == types.UnsafePointer {
		pt, ok := tu.(*types.Pointer)
		if !ok {
			x.fail("conversion of unsafe.Pointer to %s", to)
		}
		p := x.ptr(v)
		at, ok := pt.Elem().Underlying().(*types.Array)
		if !ok {
			x.fail("unsafe conversion to %s", to)
		}
		if p.a.elem != nil && !types.Identical(p.a.elem.Underlying(), at.Elem().Underlying()) {
			x.fault(false, "memory of %s read as %s", p.a.elem, at.Elem())
		}
		x.Wins++
		pos, _ := x.where()
		x.Sites[pos] = true
		n := int(at.Len())
		if p.i < p.lo || p.i+n > p.hi {
			x.fault(false, "unsafe view of elements [%d:%d) leaves the slice [%d:%d)", p.i, p.i+n, p.lo, p.hi)
		}
		return &Ptr{a: p.a, i: p.i, lo: p.lo, hi: p.hi, n: n}
	}
	if !fok || !tok {
		if _, ok := fu.(*types.Pointer); ok {
			return v
		}
		x.fail("conversion of %s to %s", from, to)
	}
	fi, ti := fb.Info(), tb.Info()
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		switch u := v.(type) {
		case int64:
			return wrap(u, to)
		case *U:
			fw, _ := width(from)
			tw, _ := width(to)
			if tw > fw {
				x.fail("widening of data")
			}
			return u
		}
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		switch u := v.(type) {
		case int64:
			w, s := width(from)
			if !s && w == 64 {
				return Num(float64(uint64(u)))
			}
			return Num(float64(u))
		case *U:
			w, s := width(from)
			if len(u.lin) == 1 && u.c == 0 {
				for sy, c := range u.lin {
					if c != 1 {
						break
					}
					if w == 32 && s {
						return &F{lin: []term{{sy, 1}}} // the signed reading names the symbol
					}
					if w == 32 {
						if x.signed[sy] == 0 {
							x.signed[sy] = x.Sym()
						}
						return &F{lin: []term{{x.signed[sy], 1}}}
					}
				}
			}
			x.fail("conversion of data to a real")
		}
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		f := v.(*F)
		if f.IsNum() {
			return wrap(int64(f.c), to)
		}
		// only integers convert without loss
		if len(f.quad) == 0 && f.c == math.Trunc(f.c) {
			u := &U{c: int64(f.c), lin: map[int32]int64{}}
			ok := true
			for _, t := range f.lin {
				if x.rounds[t.s] == nil || t.c != math.Trunc(t.c) {
					ok = false
					break
				}
				u.lin[t.s] = int64(t.c)
			}
			if ok {
				w, s := width(to)
				if w < 64 || !s {
					// out of range conversions of reals to narrow integers are not defined
					x.fail("conversion of a real to %s", to)
				}
				return u
			}
		}
		x.fault(false, "a real that was not rounded is truncated to an integer")
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			f := v.(*F)
			if f.IsNum() {
				return Num(float64(float32(f.c)))
			}
			x.fail("loss of precision")
		}
		return v
	case fi&types.IsComplex != 0 && ti&types.IsComplex != 0:
		return v
	}
	if s, ok := v.(string); ok {
		return s
	}
	x.fail("conversion of %s to %s", from, to)
	return nil
}

// round is the integer nearest to a real.
func (x *Interp) round(f *F) *F {
	if f.IsNum() {
		return Num(math.Round(f.c))
	}
	s := x.Sym()
	x.rounds[s] = f
	return &F{lin: []term{{s, 1}}}
}

// Rounded resolves an integer modulo 2^32 to c + the sum of coefficients times symbols + the
// nearest integer to a real form; ok is false if it is not of that shape.
func (x *Interp) Rounded(v Value) (rest *U, form *F, ok bool) {
	u, isU := asU(v)
	if !isU {
		return nil, nil, false
	}
	rest = &U{c: u.c, lin: map[int32]int64{}}
	for s, c := range u.lin {
		c = int64(int32(uint32(uint64(c))))
		if c == 0 {
			continue
		}
		if x.rounds[s] == nil {
			rest.lin[s] = c
			continue
		}
		if form != nil || c != 1 && c != -1 {
			return nil, nil, false
		}
		f, ok := x.unround(x.rounds[s])
		if !ok {
			return nil, nil, false
		}
		form = scale(f, float64(c))
	}
	return rest, form, true
}

// unround drops integers that are multiples of 2^32 and roundings of integers.
func (x *Interp) unround(f *F) (*F, bool) {
	r := &F{c: f.c, quad: f.quad}
	var nested *F
	for _, t := range f.lin {
		d := x.rounds[t.s]
		if d == nil {
			r.lin = append(r.lin, t)
			continue
		}
		if t.c == math.Trunc(t.c) && math.Mod(t.c, 1<<32) == 0 {
			continue
		}
		if t.c == 1 && nested == nil {
			nested = d
			continue
		}
		return nil, false
	}
	if nested != nil {
		if !r.IsNum() || r.c != math.Trunc(r.c) {
			return nil, false
		}
		n, ok := x.unround(nested)
		if !ok {
			return nil, false
		}
		return addScaled(n, r, 1), true
	}
	return r, true
}

// Lin lists the symbols of an integer form.
func (u *U) Lin() map[int32]int64 { return u.lin }

// C is the constant of an integer form.
func (u *U) C() int64 { return u.c }

func (x *Interp) doCall(fr *frame, com *ssa.CallCommon) Value {
	var args []Value
	if com.IsInvoke() {
		v, _ := x.get(fr, com.Value).(*Iface)
		if v == nil {
			x.fault(true, "method call on nil interface")
		}
		f := x.prog.LookupMethod(v.t, com.Method.Pkg(), com.Method.Name())
		if f == nil {
			x.fail("method %s", com.Method.Name())
		}
		args = append(args, v.v)
		for _, a := range com.Args {
			args = append(args, x.get(fr, a))
		}
		return x.call(f, args, nil)
	}
	for _, a := range com.Args {
		args = append(args, x.get(fr, a))
	}
	return x.apply(x.get(fr, com.Value), args, com)
}

func (x *Interp) apply(fv Value, args []Value, com *ssa.CallCommon) Value {
	switch f := fv.(type) {
	case *ssa.Builtin:
		return x.builtin(f.Name(), args, com)
	case *Fn:
		if f.ext != nil {
			return f.ext(args)
		}
		return x.call(f.fn, args, f.binds)
	}
	x.fail("call of %T", fv)
	return nil
}

func (x *Interp) builtin(name string, args []Value, com *ssa.CallCommon) Value {
	switch name {
	case "len", "cap":
		switch u := args[0].(type) {
		case *Slice:
			if name == "cap" {
				return int64(u.cap)
			}
			return int64(u.len)
		case string:
			return int64(len(u))
		case *Map:
			return int64(len(u.m))
		case *Agg:
			return int64(len(u.e))
		case nil:
			return int64(0)
		}
	case "append":
		var a, b *Slice
		a, _ = args[0].(*Slice)
		if s, ok := args[1].(string); ok {
			_ = s
			x.fail("append of string")
		}
		b, _ = args[1].(*Slice)
		if b == nil || b.len == 0 {
			return args[0]
		}
		if a != nil && a.len+b.len <= a.cap {
			r := &Slice{a.a, a.off, a.len + b.len, a.cap}
			for i := 0; i < b.len; i++ {
				x.store(&Ptr{a: a.a, i: a.off + a.len + i}, b.a.e[b.off+i])
			}
			return r
		}
		n := &Agg{elem: com.Args[0].Type().Underlying().(*types.Slice).Elem()}
		if a != nil {
			for i := 0; i < a.len; i++ {
				n.e = append(n.e, copyVal(a.a.e[a.off+i]))
			}
		}
		for i := 0; i < b.len; i++ {
			n.e = append(n.e, copyVal(b.a.e[b.off+i]))
		}
		ln := len(n.e)
		for len(n.e) < 2*ln {
			n.e = append(n.e, zero(n.elem))
		}
		return &Slice{n, 0, ln, len(n.e)}
	case "copy":
		a, _ := args[0].(*Slice)
		b, _ := args[1].(*Slice)
		if a == nil || b == nil {
			return int64(0)
		}
		n := a.len
		if b.len < n {
			n = b.len
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(b.a.e[b.off+i])
		}
		for i := range tmp {
			x.store(&Ptr{a: a.a, i: a.off + i}, tmp[i])
		}
		return int64(n)
	case "clear":
		switch u := args[0].(type) {
		case *Slice:
			for i := 0; i < u.len; i++ {
				x.store(&Ptr{a: u.a, i: u.off + i}, zero(u.a.elem))
			}
			return nil
		case *Map:
			u.m, u.order = map[Value]Value{}, nil
			return nil
		}
	case "real":
		return args[0].(*Cx).re
	case "imag":
		return args[0].(*Cx).im
	case "complex":
		return &Cx{args[0].(*F), args[1].(*F)}
	case "min", "max":
		t := com.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			if name == "min" {
				less = x.binop(token.LSS, a, r, t, types.Typ[types.Bool])
			} else {
				less = x.binop(token.GTR, a, r, t, types.Typ[types.Bool])
			}
			if less.(bool) {
				r = a
			}
		}
		return r
	case "delete":
		m := args[0].(*Map)
		k := mapKey(x, args[1])
		delete(m.m, k)
		for i, o := range m.order {
			if o == k {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
		return nil
	case "Slice": // unsafe.Slice
		p := x.ptr(args[0])
		n := args[1].(int64)
		x.Wins++
		pos, _ := x.where()
		x.Sites[pos] = true
		if p.i+int(n) > p.hi {
			x.fault(false, "unsafe slice of %d elements leaves the slice", n)
		}
		return &Slice{p.a, p.i, int(n), int(n)}
	case "SliceData":
		if s, ok := args[0].(*Slice); ok {
			return &Ptr{a: s.a, i: s.off, lo: s.off, hi: s.off + s.len}
		}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	x.fail("builtin %s", name)
	return nil
}

func (x *Interp) external(name string, f *ssa.Function, args []Value) Value {
	num := func(i int) float64 {
		v, ok := args[i].(*F)
		if !ok || !v.IsNum() {
			x.fail("%s of data", name)
		}
		return v.c
	}
	isNum := func(i int) bool {
		v, ok := args[i].(*F)
		return ok && v.IsNum()
	}
	if fn, ok := strings.CutPrefix(name, "math/bits."); ok && len(args) == 1 {
		if v, ok := args[0].(int64); ok {
			w := 64
			for _, s := range []int{8, 16, 32, 64} {
				if n, ok := strings.CutSuffix(fn, fmt.Sprint(s)); ok {
					fn, w = n, s
				}
			}
			u := uint64(v)
			if w < 64 {
				u &= 1<<w - 1
			}
			switch fn {
			case "Len":
				return int64(bits.Len64(u))
			case "OnesCount":
				return int64(bits.OnesCount64(u))
			case "LeadingZeros":
				return int64(w - bits.Len64(u))
			case "TrailingZeros":
				if u == 0 {
					return int64(w)
				}
				return int64(bits.TrailingZeros64(u))
			}
		}
	}
	switch name {
	case "math.Round", "math.RoundToEven":
		return x.round(args[0].(*F))
	case "math.Floor":
		if !isNum(0) {
			// floor(v + 1/2) is the nearest integer
			return x.round(addScaled(args[0].(*F), Num(0.5), -1))
		}
		return Num(math.Floor(num(0)))
	case "math.FMA":
		return addScaled(x.mulF(args[0].(*F), args[1].(*F)), args[2].(*F), 1)
	case "math.Ldexp":
		return scale(args[0].(*F), math.Ldexp(1, int(args[1].(int64))))
	case "math.Abs":
		return Num(math.Abs(num(0)))
	case "math.Exp2":
		return Num(math.Exp2(num(0)))
	case "math.Exp":
		return Num(math.Exp(num(0)))
	case "math.Pow":
		return Num(math.Pow(num(0), num(1)))
	case "math.Sqrt":
		return Num(math.Sqrt(num(0)))
	case "math.Sin":
		return Num(math.Sin(num(0)))
	case "math.Cos":
		return Num(math.Cos(num(0)))
	case "math.Sincos":
		s, c := math.Sincos(num(0))
		return Tuple{Num(s), Num(c)}
	case "math.Trunc":
		return Num(math.Trunc(num(0)))
	case "math.Ceil":
		return Num(math.Ceil(num(0)))
	case "math.Mod":
		return Num(math.Mod(num(0), num(1)))
	case "math.Log2":
		return Num(math.Log2(num(0)))
	case "math/cmplx.Exp":
		c := args[0].(*Cx)
		if !c.num() {
			x.fail("%s of data", name)
		}
		z := cmplx.Exp(c.val())
		return &Cx{Num(real(z)), Num(imag(z))}
	case "math/cmplx.Rect":
		z := cmplx.Rect(num(0), num(1))
		return &Cx{Num(real(z)), Num(imag(z))}
	case "math/cmplx.Conj":
		c := args[0].(*Cx)
		return &Cx{c.re, scale(c.im, -1)}
	case "math/bits.Len", "math/bits.Len64":
		return int64(bits.Len64(uint64(args[0].(int64))))
	case "math/bits.Len32":
		return int64(bits.Len32(uint32(args[0].(int64))))
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros64":
		return int64(bits.TrailingZeros64(uint64(args[0].(int64))))
	case "math/bits.OnesCount", "math/bits.OnesCount64":
		return int64(bits.OnesCount64(uint64(args[0].(int64))))
	case "math/bits.Reverse64", "math/bits.Reverse":
		return int64(bits.Reverse64(uint64(args[0].(int64))))
	case "math/bits.Reverse32":
		return int64(bits.Reverse32(uint32(args[0].(int64))))
	case "errors.New", "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint":
		return zero(f.Signature.Results().At(0).Type())
	}
	if strings.HasSuffix(name, ".init") {
		return nil
	}
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		return nil
	}
	if name == "(*sync.Once).Do" {
		p := x.ptr(args[0])
		if _, done := p.a.e[p.i].(int64); done {
			return nil
		}
		p.a.e[p.i] = int64(1)
		return x.apply(args[1], nil, nil)
	}
	x.fail("call of %s", name)
	return nil
}

// SortedSites lists the unsafe conversions that were reached.
func (x *Interp) SortedSites() []string {
	var r []string
	for s := range x.Sites {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

// SetAt writes an element of a slice.
func SetAt(s *Slice, i int, v Value) { s.a.e[s.off+i] = v }

// Cell makes a pointer to a value of its own.
func Cell(v Value) *Ptr { return cellPtr(v) }

// Deref is the value a pointer leads to.
func Deref(p *Ptr) Value { return p.a.e[p.i] }

// Cell1 is one memory cell.
type Cell1 struct {
	a *Agg
	i int
}

func (x *Interp) logWrite(a *Agg, i int) {
	if x.Log == nil {
		return
	}
	k := Cell1{a, i}
	if _, ok := x.Log[k]; !ok {
		pos, fn := x.where()
		x.Log[k] = pos + " in " + fn
	}
}

// Reach lists the cells reachable from a value, with the path that leads there.
func Reach(v Value) map[Cell1]string {
	out := map[Cell1]string{}
	var walk func(v Value, path string)
	cell := func(a *Agg, i int, path string) {
		if _, ok := out[Cell1{a, i}]; ok {
			return
		}
		out[Cell1{a, i}] = path
		walk(a.e[i], path)
	}
	walk = func(v Value, path string) {
		switch u := v.(type) {
		case *Agg:
			for i := range u.e {
				cell(u, i, fmt.Sprintf("%s.%d", path, i))
			}
		case *Ptr:
			if u == nil {
				return
			}
			n := u.n
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				cell(u.a, u.i+i, path)
			}
		case *Slice:
			if u == nil {
				return
			}
			for i := 0; i < u.len; i++ {
				cell(u.a, u.off+i, fmt.Sprintf("%s[%d]", path, i))
			}
		case *Iface:
			if u != nil {
				walk(u.v, path)
			}
		case *Map:
			if u != nil {
				for _, k := range u.order {
					walk(u.m[k], fmt.Sprintf("%s[%v]", path, k))
				}
			}
		case *Fn:
			if u != nil {
				for i, b := range u.binds {
					walk(b, fmt.Sprintf("%s<%d>", path, i))
				}
			}
		case Tuple:
			for i, e := range u {
				walk(e, fmt.Sprintf("%s#%d", path, i))
			}
		}
	}
	walk(v, "")
	return out
}

// Globals lists the cells reachable from package variables.
func (x *Interp) Globals() map[Cell1]string {
	out := map[Cell1]string{}
	for g, p := range x.glob {
		for c, path := range Reach(p) {
			out[c] = g.String() + path
		}
	}
	return out
}

// Deref1 is what a pointer points at, nil if it is none.
func Deref1(v Value) Value {
	if p, ok := v.(*Ptr); ok && p != nil {
		return p.a.e[p.i]
	}
	return nil
}
