// Package own computes, for every function, which memory of its parameters and of package
// variables it may write, which references it may leave in memory that outlives the call, and
// what memory its results may share: an interprocedural points-to and effect analysis over SSA.
package own

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Root is memory that outlives a call: a parameter's, or a package variable's. Path is a prefix of
// the fields leading to it ("" stands for everything reachable).
type Root struct {
	Param int // parameter index (receiver first), -1 for a package variable
	Free  int // free variable index + 1 of a closure
	Glob  *ssa.Global
	Path  string // field path below a parameter, limited depth
}

func (r Root) String() string {
	s := ""
	switch {
	case r.Glob != nil:
		s = r.Glob.String()
	case r.Free > 0:
		s = fmt.Sprintf("free%d", r.Free-1)
	default:
		s = fmt.Sprintf("#%d", r.Param)
	}
	return s + r.Path
}

// loc is an abstract memory location within one function: a root or an allocation.
type loc struct {
	root Root
	site ssa.Value // allocation, nil for roots
	what string    // distinguishes locations of one site
	path string    // cell below the allocation
}

type set map[loc]bool

func (s set) add(t set) bool {
	ch := false
	for l := range t {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

// Effect is a write, with the instruction that does it.
type Effect struct {
	Root Root
	Pos  token.Pos
	Fn   *ssa.Function
}

// Keep says that memory below Into may hold a reference to memory below What afterwards.
type Keep struct {
	Into, What Root
	Pos        token.Pos
	Fn         *ssa.Function
}

// Summary is what a function does to memory that outlives it.
type Summary struct {
	Writes  map[Root]Effect
	Keeps   map[[2]Root]Keep
	Results []map[Root]bool // memory reachable from each result
	Direct  []map[Root]bool // memory each result points to itself
	Unknown []string
}

// Analysis holds the summaries.
type Analysis struct {
	Sum   map[*ssa.Function]*Summary
	inMod func(*ssa.Function) bool
	impl  map[string][]*ssa.Function
	depth int
}

const maxPath = 4

func depthOf(p string) int { return strings.Count(p, ".") + strings.Count(p, "[") }

// New analyses the given functions.
func New(fns []*ssa.Function, inMod func(*ssa.Function) bool) *Analysis {
	a := &Analysis{Sum: map[*ssa.Function]*Summary{}, inMod: inMod, impl: map[string][]*ssa.Function{}}
	for _, f := range fns {
		a.Sum[f] = &Summary{Writes: map[Root]Effect{}, Keeps: map[[2]Root]Keep{}}
		if f.Signature.Recv() != nil {
			a.impl[f.Name()] = append(a.impl[f.Name()], f)
		}
	}
	for round := 0; round < 30; round++ {
		ch := false
		for _, f := range fns {
			if a.analyse(f) {
				ch = true
			}
		}
		if !ch {
			return a
		}
	}
	return a
}

type fctx struct {
	a    *Analysis
	f    *ssa.Function
	pts  map[ssa.Value]set
	mem  map[loc]set // references stored in a cell
	s    *Summary
	ch   bool
	grew bool
}

// HasRefs reports whether values of a type can hold references.
func HasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if HasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return HasRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if HasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *Analysis) analyse(f *ssa.Function) bool {
	c := &fctx{a: a, f: f, pts: map[ssa.Value]set{}, mem: map[loc]set{}, s: a.Sum[f]}
	for i, p := range f.Params {
		if HasRefs(p.Type()) {
			c.pts[p] = set{loc{root: Root{Param: i}}: true}
		}
	}
	for i, v := range f.FreeVars {
		c.pts[v] = set{loc{root: Root{Param: -1, Free: i + 1}}: true}
	}
	for i := 0; i < 60; i++ {
		c.grew = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.instr(in)
			}
		}
		if !c.grew {
			break
		}
	}
	// results
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range r.Results {
				for len(c.s.Results) <= i {
					c.s.Results = append(c.s.Results, map[Root]bool{})
					c.s.Direct = append(c.s.Direct, map[Root]bool{})
				}
				for l := range c.get(v) {
					if l.site == nil && !c.s.Direct[i][l.root] {
						c.s.Direct[i][l.root] = true
						c.ch = true
					}
				}
				for l := range c.closure(c.get(v)) {
					if l.site == nil && !c.s.Results[i][l.root] {
						c.s.Results[i][l.root] = true
						c.ch = true
					}
				}
			}
		}
	}
	// references left in memory that outlives the call
	for l, refs := range c.mem {
		if l.site != nil {
			continue
		}
		for m := range c.closure(refs) {
			if m.site == nil && m.root != l.root {
				k := [2]Root{l.root, m.root}
				if _, ok := c.s.Keeps[k]; !ok {
					c.s.Keeps[k] = Keep{l.root, m.root, c.f.Pos(), c.f}
					c.ch = true
				}
			}
		}
	}
	return c.ch
}

func (c *fctx) get(v ssa.Value) set {
	switch x := v.(type) {
	case *ssa.Global:
		return set{loc{root: Root{Param: -1, Glob: x}}: true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return nil
	}
	return c.pts[v]
}

func (c *fctx) set(v ssa.Value, s set) {
	if len(s) == 0 {
		return
	}
	t := c.pts[v]
	if t == nil {
		t = set{}
		c.pts[v] = t
	}
	if t.add(s) {
		c.grew = true
	}
}

// sub is the cell below a location.
func sub(l loc, step string) loc {
	if l.site != nil {
		if depthOf(l.path) < maxPath {
			l.path += step
		}
		return l
	}
	if depthOf(l.root.Path) < maxPath && step != "[*]" && !strings.HasPrefix(step, "[") {
		l.root.Path += step
	}
	return l
}

func (c *fctx) field(s set, i int) set {
	out := set{}
	for l := range s {
		out[sub(l, fmt.Sprintf(".%d", i))] = true
	}
	return out
}

func (c *fctx) index(s set, idx ssa.Value) set {
	step := "[*]"
	if k, ok := idx.(*ssa.Const); ok && k.Value != nil {
		step = "[" + k.Value.ExactString() + "]"
	}
	out := set{}
	for l := range s {
		out[sub(l, step)] = true
	}
	return out
}

// overlaps reports whether cells p and q of one allocation may be the same, or one contain the other.
func overlaps(p, q string) bool {
	ps, qs := split(p), split(q)
	for i := 0; i < len(ps) && i < len(qs); i++ {
		if ps[i] != qs[i] && !(strings.HasPrefix(ps[i], "[") && strings.HasPrefix(qs[i], "[") && (ps[i] == "[*]" || qs[i] == "[*]")) {
			return false
		}
	}
	return true
}

func split(p string) []string {
	var r []string
	for i := 0; i < len(p); {
		j := i + 1
		for j < len(p) && p[j] != '.' && p[j] != '[' {
			j++
		}
		r = append(r, p[i:j])
		i = j
	}
	return r
}

// loadFrom gives the references a cell may hold.
func (c *fctx) loadFrom(s set) set {
	out := set{}
	for l := range s {
		if l.site == nil {
			// memory of a root leads to memory of the root, plus what this function stored there
			out[l] = true
			for m, refs := range c.mem {
				if m.site == nil && m.root.Param == l.root.Param && m.root.Free == l.root.Free && m.root.Glob == l.root.Glob && overlaps(m.root.Path, l.root.Path) {
					out.add(refs)
				}
			}
			continue
		}
		if l.what != "" {
			// objects inside what a call made
			out[l] = true
		}
		for m, refs := range c.mem {
			if m.site == l.site && m.what == l.what && overlaps(m.path, l.path) {
				out.add(refs)
			}
		}
	}
	return out
}

func (c *fctx) storeTo(s, v set) {
	if len(v) == 0 {
		return
	}
	for l := range s {
		t := c.mem[l]
		if t == nil {
			t = set{}
			c.mem[l] = t
		}
		if t.add(v) {
			c.grew = true
		}
	}
}

// closure is everything reachable from a set.
func (c *fctx) closure(s set) set {
	out := set{}
	var work []loc
	push := func(l loc) {
		if !out[l] {
			out[l] = true
			work = append(work, l)
		}
	}
	for l := range s {
		push(l)
	}
	for len(work) > 0 {
		l := work[len(work)-1]
		work = work[:len(work)-1]
		for m, refs := range c.mem {
			same := false
			if l.site == nil {
				same = m.site == nil && m.root.Param == l.root.Param && m.root.Free == l.root.Free && m.root.Glob == l.root.Glob && overlaps(m.root.Path, l.root.Path)
			} else {
				same = m.site == l.site && m.what == l.what && overlaps(m.path, l.path)
			}
			if same {
				for r := range refs {
					push(r)
				}
			}
		}
	}
	return out
}

func (c *fctx) write(s set, pos token.Pos, fn *ssa.Function) {
	for l := range s {
		if l.site != nil {
			continue
		}
		if _, ok := c.s.Writes[l.root]; !ok {
			c.s.Writes[l.root] = Effect{l.root, pos, fn}
			c.ch = true
		}
	}
}

func (c *fctx) instr(in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		c.set(v, set{loc{site: v}: true})
	case *ssa.MakeClosure:
		l := loc{site: i}
		c.set(i, set{l: true})
		for k, b := range i.Bindings {
			c.storeTo(set{sub(l, fmt.Sprintf(".%d", k)): true}, c.get(b))
		}
	case *ssa.FieldAddr:
		c.set(i, c.field(c.get(i.X), i.Field))
	case *ssa.IndexAddr:
		c.set(i, c.index(c.get(i.X), i.Index))
	case *ssa.Field:
		if !HasRefs(i.Type()) {
			return
		}
		// struct values: a struct loaded from memory is tracked by its cells
		c.set(i, c.fieldVal(i.X, fmt.Sprintf(".%d", i.Field)))
	case *ssa.Index:
		if HasRefs(i.Type()) {
			c.set(i, c.fieldVal(i.X, "[*]"))
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if HasRefs(i.Type()) {
				if agg(i.Type()) {
					// keep the address: fields are read through it
					c.set(i, c.get(i.X))
				} else {
					c.set(i, c.loadFrom(c.get(i.X)))
				}
			}
		case token.ARROW:
			c.set(i, c.loadFrom(c.get(i.X)))
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			c.set(i, c.val(e, i.Type()))
		}
	case *ssa.ChangeType:
		c.set(i, c.get(i.X))
	case *ssa.ChangeInterface:
		c.set(i, c.get(i.X))
	case *ssa.MakeInterface:
		if agg(i.X.Type()) && HasRefs(i.X.Type()) {
			l := loc{site: i}
			c.set(i, set{l: true})
			c.storeTo(set{l: true}, c.flatten(i.X))
		} else {
			c.set(i, c.get(i.X))
		}
	case *ssa.TypeAssert:
		s := c.get(i.X)
		c.set(i, s)
	case *ssa.Convert:
		if HasRefs(i.Type()) {
			c.set(i, c.get(i.X))
		}
	case *ssa.Slice:
		c.set(i, c.get(i.X))
	case *ssa.SliceToArrayPointer:
		c.set(i, c.get(i.X))
	case *ssa.Lookup:
		if HasRefs(i.Type()) {
			c.set(i, c.loadFrom(c.get(i.X)))
		}
	case *ssa.Range:
		c.set(i, c.get(i.X))
	case *ssa.Next:
		c.set(i, c.loadFrom(c.get(i.Iter)))
	case *ssa.Extract:
		if !HasRefs(i.Type()) {
			return
		}
		if call, ok := i.Tuple.(*ssa.Call); ok {
			c.set(i, c.tuple(call, i.Index))
			return
		}
		c.set(i, c.get(i.Tuple))
	case *ssa.Store:
		c.write(c.get(i.Addr), i.Pos(), c.f)
		c.assign(c.get(i.Addr), i.Val)
	case *ssa.MapUpdate:
		c.write(c.get(i.Map), i.Pos(), c.f)
		c.storeTo(c.get(i.Map), c.flatten(i.Value))
	case *ssa.Send:
		c.storeTo(c.get(i.Chan), c.flatten(i.X))
	case *ssa.Call:
		c.call(i, i)
	case *ssa.Go:
		c.call(i, nil)
	case *ssa.Defer:
		c.call(i, nil)
	case *ssa.BinOp:
	}
}

func agg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// val is the set for an operand (struct operands by the cells they were loaded from).
func (c *fctx) val(v ssa.Value, t types.Type) set { return c.get(v) }

// byCells reports that an aggregate value is represented by the cells it was loaded from.
func byCells(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !byCells(e) {
				return false
			}
		}
		return true
	case *ssa.Field:
		return byCells(x.X)
	case *ssa.Index:
		return byCells(x.X)
	case *ssa.ChangeType:
		return byCells(x.X)
	}
	return false
}

// fieldVal reads a component of an aggregate value.
func (c *fctx) fieldVal(v ssa.Value, step string) set {
	s := c.get(v)
	if byCells(v) {
		cells := set{}
		for l := range s {
			cells[sub(l, step)] = true
		}
		return cells2(c, v, cells, step)
	}
	return s
}

func cells2(c *fctx, v ssa.Value, cells set, step string) set {
	var t types.Type
	switch u := v.Type().Underlying().(type) {
	case *types.Struct:
		k := 0
		fmt.Sscanf(step, ".%d", &k)
		t = u.Field(k).Type()
	case *types.Array:
		t = u.Elem()
	}
	if t != nil && agg(t) {
		return cells
	}
	return c.loadFrom(cells)
}

// flatten gives all references an operand holds.
func (c *fctx) flatten(v ssa.Value) set {
	if !HasRefs(v.Type()) {
		return nil
	}
	s := c.get(v)
	if agg(v.Type()) && byCells(v) {
		return c.loadFrom(s)
	}
	return s
}

// assign stores a value to cells, field by field for aggregates.
func (c *fctx) assign(dst set, v ssa.Value) {
	if !HasRefs(v.Type()) {
		return
	}
	st, ok := v.Type().Underlying().(*types.Struct)
	if !ok || !byCells(v) {
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if HasRefs(st.Field(i).Type()) {
					c.storeTo(c.field(dst, i), c.callField(v, i))
				}
			}
			return
		}
		c.storeTo(dst, c.flatten(v))
		return
	}
	c.copyCells(dst, c.get(v), st)
}

func (c *fctx) copyCells(dst, src set, st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if !HasRefs(t) {
			continue
		}
		if in, ok := t.Underlying().(*types.Struct); ok {
			c.copyCells(c.field(dst, i), c.field(src, i), in)
			continue
		}
		c.storeTo(c.field(dst, i), c.loadFrom(c.field(src, i)))
	}
}

func (c *fctx) callField(v ssa.Value, i int) set { return c.get(v) }

// freshOf stands for memory a call made.
func freshOf(call ssa.Value, i int) loc { return loc{site: call, what: fmt.Sprintf("r%d", i)} }

func (c *fctx) tuple(call *ssa.Call, i int) set {
	if s, ok := c.pts[&tupKey{call, i}]; ok {
		return s
	}
	return c.tup(call)[i]
}

type tupKey struct {
	ssa.Value
	i int
}

// tup computes result sets of a call.
func (c *fctx) tup(call *ssa.Call) map[int]set {
	return c.callResults(call)
}

func (c *fctx) args(i ssa.CallInstruction) []ssa.Value {
	com := i.Common()
	if com.IsInvoke() {
		return append([]ssa.Value{com.Value}, com.Args...)
	}
	return com.Args
}

// targets lists the possible callees inside the module with the sets of their free variables.
func (c *fctx) targets(com *ssa.CallCommon) (fns []*ssa.Function, binds []set) {
	if com.IsInvoke() {
		for _, f := range c.a.impl[com.Method.Name()] {
			fns = append(fns, f)
		}
		return
	}
	if f := com.StaticCallee(); f != nil {
		fns = append(fns, f)
		if m, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range m.Bindings {
				binds = append(binds, c.get(b))
			}
		}
		return
	}
	for l := range c.get(com.Value) {
		if m, ok := l.site.(*ssa.MakeClosure); ok {
			fns = append(fns, m.Fn.(*ssa.Function))
			for k, b := range m.Bindings {
				for len(binds) <= k {
					binds = append(binds, set{})
				}
				binds[k].add(c.get(b))
			}
		}
	}
	if f, ok := com.Value.(*ssa.Function); ok {
		fns = append(fns, f)
	}
	return
}

// rootSet maps a root of the callee to locations of the caller.
func (c *fctx) rootSet(r Root, args []ssa.Value, binds []set) set {
	var base set
	switch {
	case r.Glob != nil:
		return set{loc{root: r}: true}
	case r.Free > 0:
		if r.Free-1 < len(binds) {
			base = binds[r.Free-1]
		}
	default:
		if r.Param < len(args) {
			base = c.get(args[r.Param])
			if agg(args[r.Param].Type()) {
				if byCells(args[r.Param]) {
					// by value: the first step of the path selects a field of the value
					steps := split(r.Path)
					if len(steps) > 0 {
						base = c.stepCells(base, args[r.Param].Type(), steps)
						return base
					}
					return c.closure(c.loadFrom(base))
				}
				return c.closure(base)
			}
		}
	}
	// follow the path as far as possible
	out := base
	if r.Path == "" {
		return c.closure(base)
	}
	cur := base
	for _, st := range split(r.Path) {
		nx := set{}
		for l := range cur {
			m := sub(l, st)
			nx[m] = true
		}
		// a step may lead through a reference held in the cell
		ref := c.loadFrom(nx)
		for l := range ref {
			nx[l] = true
		}
		cur = nx
	}
	_ = out
	return c.closure(cur)
}

func (c *fctx) stepCells(base set, t types.Type, steps []string) set {
	cur := base
	for _, st := range steps {
		nx := set{}
		for l := range cur {
			nx[sub(l, st)] = true
		}
		for l := range c.loadFrom(nx) {
			nx[l] = true
		}
		cur = nx
	}
	return c.closure(cur)
}

func (c *fctx) callResults(call *ssa.Call) map[int]set {
	out := map[int]set{}
	com := call.Common()
	args := c.args(call)
	fns, binds := c.targets(com)
	add := func(i int, s set) {
		if out[i] == nil {
			out[i] = set{}
		}
		out[i].add(s)
	}
	known := false
	for _, f := range fns {
		s := c.a.Sum[f]
		if s == nil {
			continue
		}
		known = true
		for i := range s.Results {
			t := f.Signature.Results().At(i).Type()
			if !HasRefs(t) {
				continue
			}
			fr := freshOf(call, i)
			if agg(t) {
				// an aggregate result holds the references itself
				add(i, set{fr: true})
			}
			direct := set{}
			for r := range s.Direct[i] {
				direct.add(c.rootSet(r, args, binds))
			}
			add(i, direct)
			add(i, set{fr: true})
			for r := range s.Results[i] {
				c.storeTo(set{fr: true}, c.rootSet(r, args, binds))
			}
		}
	}
	if !known {
		res := com.Signature().Results()
		name := ""
		if f := com.StaticCallee(); f != nil {
			name = f.String()
		}
		for i := 0; i < res.Len(); i++ {
			if !HasRefs(res.At(i).Type()) {
				continue
			}
			fr := freshOf(call, i)
			add(i, set{fr: true})
			switch {
			case name == "(*sync.Pool).Get":
				// what a pool hands out belongs to the pool
				add(i, c.get(args[0]))
			case strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "sync/atomic."):
				for _, a := range args {
					add(i, c.closure(c.flatten(a)))
				}
			case strings.HasPrefix(name, "bytes."), strings.HasPrefix(name, "slices."), strings.HasPrefix(name, "bufio."), strings.HasPrefix(name, "math/rand."), strings.HasPrefix(name, "maps."):
				if !strings.HasSuffix(name, ".Clone") {
					for _, a := range args {
						add(i, c.flatten(a))
					}
				}
			}
		}
	}
	return out
}

// writers are functions outside the module that write through an argument.
var writers = map[string][]int{
	"io.ReadFull": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0}, "(*math/rand.Rand).Read": {1},
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"slices.Reverse": {0}, "slices.Sort": {0},
	"(*sync.Pool).Put": nil,
}

func (c *fctx) call(in ssa.CallInstruction, res *ssa.Call) {
	com := in.Common()
	args := c.args(in)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			c.write(c.get(args[0]), in.Pos(), c.f)
			if s, ok := args[0].Type().Underlying().(*types.Slice); ok && HasRefs(s.Elem()) {
				c.storeTo(c.index(c.get(args[0]), nil), c.loadFrom(c.index(c.get(args[1]), nil)))
			}
		case "clear":
			c.write(c.get(args[0]), in.Pos(), c.f)
		case "append":
			fr := loc{site: res, what: "append"}
			s := set{fr: true}
			s.add(c.get(args[0]))
			if res != nil {
				c.set(res, s)
			}
			if !emptied(args[0]) {
				c.write(c.get(args[0]), in.Pos(), c.f)
			}
			if st, ok := args[0].Type().Underlying().(*types.Slice); ok && HasRefs(st.Elem()) && len(args) > 1 {
				v := c.loadFrom(c.index(c.get(args[1]), nil))
				c.storeTo(c.index(s, nil), v)
				c.storeTo(set{sub(fr, "[*]"): true}, c.loadFrom(c.index(c.get(args[0]), nil)))
			}
		case "Slice", "SliceData", "Add", "StringData", "String", "min", "max":
			if res != nil {
				for _, a := range args {
					c.set(res, c.get(a))
				}
			}
		}
		return
	}
	fns, binds := c.targets(com)
	known := false
	for _, f := range fns {
		s := c.a.Sum[f]
		if s == nil {
			name := f.String()
			if ws, ok := writers[name]; ok {
				for _, k := range ws {
					if k < len(args) {
						c.write(c.get(args[k]), in.Pos(), c.f)
					}
				}
			} else if strings.Contains(name, ".Put") && strings.HasPrefix(name, "(encoding/binary") && len(args) > 1 {
				c.write(c.get(args[1]), in.Pos(), c.f)
			}
			if name == "(*sync.Pool).Put" && len(args) == 2 {
				c.storeTo(c.get(args[0]), c.flatten(args[1]))
			}
			continue
		}
		known = true
		for r, e := range s.Writes {
			c.write(c.rootSet(r, args, binds), e.Pos, e.Fn)
		}
		for k := range s.Keeps {
			into := c.rootSet(k[0], args, binds)
			what := c.rootSet(k[1], args, binds)
			// storing within one argument's own memory is no new reference
			for l := range into {
				c.storeTo(set{l: true}, what)
			}
		}
	}
	_ = known
	// a function value handed to the callee may be called by it
	for _, a := range args {
		for l := range c.get(a) {
			m, ok := l.site.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			s := c.a.Sum[m.Fn.(*ssa.Function)]
			if s == nil {
				continue
			}
			var bs []set
			for _, b := range m.Bindings {
				bs = append(bs, c.get(b))
			}
			for r, e := range s.Writes {
				if r.Free > 0 || r.Glob != nil {
					c.write(c.rootSet(r, nil, bs), e.Pos, e.Fn)
				}
			}
			for k := range s.Keeps {
				if (k[0].Free > 0 || k[0].Glob != nil) && (k[1].Free > 0 || k[1].Glob != nil) {
					c.storeTo(c.rootSet(k[0], nil, bs), c.rootSet(k[1], nil, bs))
				}
			}
		}
	}
	if res != nil {
		for i, s := range c.callResults(res) {
			if res.Type() != nil {
				if _, isT := res.Type().(*types.Tuple); !isT && i == 0 {
					c.set(res, s)
				}
			}
		}
	}
}

// emptied: appending to a full slice never happens in place when the slice was made empty with no
// room; only constants are recognised.
func emptied(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// WritesTo lists the parameters a function may write, with a witness.
func (a *Analysis) WritesTo(f *ssa.Function) map[int]Effect {
	out := map[int]Effect{}
	for r, e := range a.Sum[f].Writes {
		if r.Glob == nil && r.Free == 0 {
			if _, ok := out[r.Param]; !ok {
				out[r.Param] = e
			}
		}
	}
	return out
}

// Show renders a summary.
func (a *Analysis) Show(f *ssa.Function) string {
	s := a.Sum[f]
	var w, k, r []string
	for x := range s.Writes {
		w = append(w, x.String())
	}
	for x := range s.Keeps {
		k = append(k, x[0].String()+"<-"+x[1].String())
	}
	for i := range s.Results {
		for x := range s.Results[i] {
			r = append(r, fmt.Sprintf("%d:%s", i, x))
		}
	}
	sort.Strings(w)
	sort.Strings(k)
	sort.Strings(r)
	return fmt.Sprintf("W%v K%v R%v", w, k, r)
}

// Name renders a root by the name of the parameter.
func Name(f *ssa.Function, r Root) string {
	if r.Glob != nil {
		return r.Glob.Pkg.Pkg.Name() + "." + r.Glob.Name()
	}
	if r.Free == 0 && r.Param < len(f.Params) {
		return f.Params[r.Param].Name()
	}
	return r.String()
}

// Collapsed lists parameters written, references kept (into, what) and, per result, memory shared,
// by parameter index ("#i") or package variable.
func (a *Analysis) Collapsed(f *ssa.Function) (writes, keeps, results []string) {
	id := func(r Root) string {
		r.Path = ""
		if r.Glob != nil {
			return r.Glob.Pkg.Pkg.Name() + "." + r.Glob.Name()
		}
		return r.String()
	}
	s := a.Sum[f]
	uniq := func(m map[string]bool) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	m := map[string]bool{}
	for r := range s.Writes {
		m[id(r)] = true
	}
	writes = uniq(m)
	m = map[string]bool{}
	for k := range s.Keeps {
		if id(k[0]) != id(k[1]) {
			m[id(k[0])+"<-"+id(k[1])] = true
		}
	}
	keeps = uniq(m)
	m = map[string]bool{}
	for i := range s.Results {
		for r := range s.Results[i] {
			m[fmt.Sprintf("%d:%s", i, id(r))] = true
		}
	}
	results = uniq(m)
	return
}
