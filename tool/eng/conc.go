package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind distinguishes the events of concurrent execution.
type EvKind int

const (
	EvRead EvKind = iota
	EvWrite
	EvGo
	EvDone
	EvWait
	EvRelease
	EvAdd
)

// Event is something that matters to concurrent execution: an access, the start of a goroutine, a
// completion signal, a wait, an object handed back to a pool. Events are kept in program order of
// one generic iteration of every loop; vars are the enclosing loops' iteration variables.
type Event struct {
	Kind  EvKind
	Seq   int
	Key   Key
	Idx   []*Term
	Vars  []actVar // enclosing loops
	Own   []actVar // further quantified variables of a bulk access
	Spawn *Event   // goroutine the event happens in, nil for the caller's
	Pos   string
	Fn    string
	pc    *pcNode
	Held  string
	Adds  *Term
	Dones *Term
	Objs  []Key
	first int
	last  int
	sig   string
	refs  []*Ptr
}

func (x *Interp) event(st *State, e *Event) *Event {
	e.Vars = append([]actVar(nil), x.active...)
	e.Spawn = x.spawn
	e.pc = st.pc
	e.Held = strings.Join(x.held, ",")
	if here.fr != nil {
		e.Fn = here.fr.fn.String()
		if here.fr.cur != nil {
			e.Pos = x.pos(here.fr.cur.Pos())
		}
	}
	e.Seq = len(x.Ev)
	x.Ev = append(x.Ev, e)
	return e
}

func (x *Interp) logAccess(st *State, k Key, idx []*Term, write bool) {
	x.logAccessQ(st, k, idx, write, nil, nil)
}

func (x *Interp) logAccessQ(st *State, k Key, idx []*Term, write bool, vars, n []*Term) {
	if !x.Conc || k.obj.Tag == "ghost" {
		return
	}
	kind := EvRead
	if write {
		kind = EvWrite
	}
	// the same access again says nothing new
	if n := len(x.Ev); n > 0 {
		l := x.Ev[n-1]
		if l.Kind == kind && l.Key == k && sameTerms(l.Idx, idx) && l.Spawn == x.spawn && l.pc == st.pc && len(l.Vars) == len(x.active) {
			return
		}
	}
	e := &Event{Kind: kind, Key: k, Idx: idx}
	for i := range vars {
		e.Own = append(e.Own, actVar{vars[i], n[i]})
	}
	for _, t := range idx {
		for _, v := range Atoms(t, func(t *Term) bool { return t.op == OVar && t.bv == 0 }) {
			known := x.isActive(v)
			for _, o := range e.Own {
				known = known || o.v == v
			}
			if !known {
				e.Own = append(e.Own, actVar{v, nil})
			}
		}
	}
	x.event(st, e)
}

func (x *Interp) doGo(fr *frame, st *State, i ssa.Instruction, fv Value, args []Value) *State {
	outer := x.spawn
	held := x.held
	e := x.event(st, &Event{Kind: EvGo})
	e.Pos, e.Fn = x.pos(i.Pos()), fr.fn.String()
	if outer != nil {
		x.problem("goroutine started inside a goroutine at %s", e.Pos)
	}
	e.first = len(x.Ev)
	x.spawn = e
	x.held = nil
	_, ns := x.invoke(fr, st, fv, args, i, fmt.Sprintf("%s/g%d", fr.ctx, x.instrID(i)))
	x.spawn = outer
	x.held = held
	e.last = len(x.Ev)
	return ns
}

// ghost is the cell f of the counters kept for a synchronisation object.
func (x *Interp) ghost(p Value, f int) (*Ptr, bool) {
	q, ok := p.(*Ptr)
	if !ok {
		return nil, false
	}
	k, idx := leafKey(q)
	if x.ghosts == nil {
		x.ghosts = map[Key]*Obj{}
	}
	o := x.ghosts[k]
	if o == nil {
		var fs []*types.Var
		for _, n := range []string{"adds", "dones", "waited", "locked"} {
			fs = append(fs, types.NewField(token.NoPos, nil, n, types.Typ[types.Int64], false))
		}
		o = x.newObj("ghost."+x.keyName(k), types.NewStruct(fs, nil))
		o.Tag = "ghost"
		o.nfam = len(idx)
		o.famN = x.extents(k)
		x.ghosts[k] = o
	}
	return (&Ptr{obj: o, fam: idx}).field(f), true
}

func (x *Interp) ghostGet(st *State, p Value, f int) *Term {
	g, ok := x.ghost(p, f)
	if !ok {
		return opaque("counter", TI64)
	}
	t, ok := x.load(st, g, types.Typ[types.Int64]).(*Term)
	if !ok {
		return opaque("counter", TI64)
	}
	return t
}

func (x *Interp) ghostSet(st *State, p Value, f int, v *Term) {
	g, ok := x.ghost(p, f)
	if !ok {
		x.problem("synchronisation object not resolved")
		return
	}
	x.store(st, g, types.Typ[types.Int64], v, True())
}

const (
	gAdds = iota
	gDones
	gWaited
	gLocked
)

func (x *Interp) syncCall(fr *frame, st *State, fn *ssa.Function, name string, args []Value, call ssa.Instruction, ctx string) (Value, bool) {
	switch name {
	case "(*sync.WaitGroup).Add":
		if x.spawn != nil {
			x.problem("WaitGroup.Add inside a goroutine at %s", x.pos(call.Pos()))
		}
		n, ok := args[1].(*Term)
		if !ok {
			n = opaque("Add", TI64)
		}
		e := x.event(st, &Event{Kind: EvAdd})
		if q, ok := args[0].(*Ptr); ok {
			e.Key, e.Idx = leafKey(q)
		}
		x.ghostSet(st, args[0], gAdds, Add(x.ghostGet(st, args[0], gAdds), n))
		return &TupleV{}, true
	case "(*sync.WaitGroup).Done":
		e := x.event(st, &Event{Kind: EvDone, Adds: x.ghostGet(st, args[0], gAdds), Dones: x.ghostGet(st, args[0], gDones)})
		if q, ok := args[0].(*Ptr); ok {
			e.Key, e.Idx = leafKey(q)
		}
		x.ghostSet(st, args[0], gDones, AddI(e.Dones, 1))
		return &TupleV{}, true
	case "(*sync.WaitGroup).Wait":
		e := x.event(st, &Event{Kind: EvWait, Adds: x.ghostGet(st, args[0], gAdds), Dones: x.ghostGet(st, args[0], gDones)})
		if q, ok := args[0].(*Ptr); ok {
			e.Key, e.Idx = leafKey(q)
		}
		e.Pos = x.pos(call.Pos())
		x.ghostSet(st, args[0], gWaited, e.Dones)
		return &TupleV{}, true
	case "(*sync.WaitGroup).Go":
		ad := x.event(st, &Event{Kind: EvAdd})
		if q, ok := args[0].(*Ptr); ok {
			ad.Key, ad.Idx = leafKey(q)
		}
		x.ghostSet(st, args[0], gAdds, AddI(x.ghostGet(st, args[0], gAdds), 1))
		// body followed by Done, in one goroutine
		outer := x.spawn
		e := x.event(st, &Event{Kind: EvGo})
		e.Pos, e.Fn = x.pos(call.Pos()), fr.fn.String()
		e.first = len(x.Ev)
		x.spawn = e
		_, ns := x.invoke(fr, st, args[1], nil, call, ctx+"/g")
		if ns != nil {
			if ns != st {
				*st = *ns
			}
			d := x.event(st, &Event{Kind: EvDone, Adds: x.ghostGet(st, args[0], gAdds), Dones: x.ghostGet(st, args[0], gDones)})
			if q, ok := args[0].(*Ptr); ok {
				d.Key, d.Idx = leafKey(q)
			}
			x.ghostSet(st, args[0], gDones, AddI(d.Dones, 1))
		}
		x.spawn = outer
		e.last = len(x.Ev)
		return &TupleV{}, true
	case "(*sync.Pool).Get":
		f := x.load(st, x.fieldAddr(args[0], poolNewField(fn)), types.NewSignatureType(nil, nil, nil, nil, nil, false))
		if x.PoolGet != nil {
			if v, ok := x.PoolGet(st, args[0]); ok {
				return v, true
			}
		}
		if fvv, ok := f.(*FuncV); ok && fvv.fn != nil {
			r, ns := x.Call(st, fvv.fn, nil, fvv.binds, ctx+"/new", fr)
			if ns != nil {
				*st = *ns
				return r, true
			}
		}
		return unk("sync.Pool.Get"), true
	case "(*sync.Pool).Put":
		if x.Conc {
			e := x.event(st, &Event{Kind: EvRelease})
			e.Pos = x.pos(call.Pos())
			for _, p := range x.reach(st, args[1]) {
				e.Objs = append(e.Objs, Key{p.obj, ""})
				e.Idx = append(e.Idx, p.fam...)
			}
			e.refs = x.reach(st, args[1])
		}
		return &TupleV{}, true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		x.held = append(append([]string(nil), x.held...), x.lockName(args[0]))
		return &TupleV{}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		n := x.lockName(args[0])
		var h []string
		for _, m := range x.held {
			if m != n {
				h = append(h, m)
			}
		}
		x.held = h
		return &TupleV{}, true
	case "(*sync.Once).Do":
		d := x.ghostGet(st, args[0], gLocked)
		s1, s2 := st.fork(), st.fork()
		c := x.simp(st, Eq(d, I(0)))
		if c.isFalse() {
			return &TupleV{}, true
		}
		s1.assume(c)
		s2.assume(Not(c))
		h := x.held
		x.held = append(append([]string(nil), h...), x.lockName(args[0]))
		_, ns := x.invoke(fr, s1, args[1], nil, call, ctx+"/once")
		x.held = h
		if ns == nil {
			return &TupleV{}, true
		}
		x.ghostSet(ns, args[0], gLocked, I(1))
		if !c.isTrue() {
			ns, _ = x.mergeStates(ns, s2)
		}
		*st = *ns
		return &TupleV{}, true
	}
	return nil, false
}

func (x *Interp) lockName(v Value) string {
	q, ok := v.(*Ptr)
	if !ok {
		x.problem("lock not resolved")
		return "?"
	}
	k, idx := leafKey(q)
	s := fmt.Sprintf("%d%s", k.obj.id, k.path)
	for _, t := range idx {
		s += "[" + t.String() + "]"
	}
	return s
}

// reach lists the objects a value refers to, through memory.
func (x *Interp) reach(st *State, v Value) []*Ptr {
	var out []*Ptr
	seen := map[string]bool{}
	var walkT func(p *Ptr, t types.Type)
	var walk func(v Value)
	add := func(p *Ptr) bool {
		s := fmt.Sprint(p.obj.id)
		for _, t := range p.fam {
			s += "," + t.String()
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		out = append(out, &Ptr{obj: p.obj, fam: p.fam})
		return true
	}
	walk = func(v Value) {
		switch u := v.(type) {
		case *IteV:
			walk(u.a)
			walk(u.b)
		case *IfaceV:
			walk(u.v)
		case *StructV:
			for _, f := range u.f {
				walk(f)
			}
		case *ArrV:
			for _, f := range u.e {
				walk(f)
			}
		case *TupleV:
			for _, f := range u.e {
				walk(f)
			}
		case *FuncV:
			for _, f := range u.binds {
				walk(f)
			}
		case *MapV:
			for _, e := range u.e {
				walk(e.v)
			}
		case *SliceV:
			if add(u.base) {
				walkT(&Ptr{obj: u.base.obj, fam: u.base.fam}, nil)
			}
		case *Ptr:
			if add(u) {
				walkT(&Ptr{obj: u.obj, fam: u.fam}, nil)
			}
		}
	}
	hasRef := func(t types.Type) bool { return refType(t, 0) }
	walkT = func(p *Ptr, t types.Type) {
		if t == nil {
			t = p.obj.typ
			if p.obj.arr && len(p.path) == 0 {
				if !hasRef(t) {
					return
				}
				j := NewVar("r", 0, boundHi(p.obj.n))
				walkT(p.elem(j), t)
				return
			}
		}
		if !hasRef(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walkT(p.field(i), u.Field(i).Type())
			}
		case *types.Array:
			if u.Len() > 0 {
				if u.Len() <= 16 {
					for i := int64(0); i < u.Len(); i++ {
						walkT(p.elem(I(i)), u.Elem())
					}
				} else {
					walkT(p.elem(NewVar("r", 0, u.Len())), u.Elem())
				}
			}
		default:
			was := x.Conc
			x.Conc = false
			w := x.load(st, p, t)
			x.Conc = was
			walk(w)
		}
	}
	walk(v)
	return out
}

func refType(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem(), d+1)
	}
	return true
}

// Reach lists the objects reachable from a value as pointers.
func (x *Interp) Reach(st *State, v Value) []*Ptr { return x.reach(st, v) }

// ---------------------------------------------------------------- deciding

// Issue is a violation of the rules of concurrent execution.
type Issue struct {
	Rule, Fn, Pos, Detail string
}

// CheckConc decides the recorded events: completion counting, joins, conflicting accesses, use of
// pooled objects after release.
func (x *Interp) CheckConc(st *State) (issues []Issue, gos, pairs int) {
	add := func(rule string, e *Event, f string, a ...interface{}) {
		is := Issue{rule, e.Fn, e.Pos, fmt.Sprintf(f, a...)}
		for _, i := range issues {
			if i.Rule == is.Rule && i.Fn == is.Fn && i.Pos == is.Pos {
				return
			}
		}
		issues = append(issues, is)
	}
	for i, e := range x.Ev {
		e.Seq = i
	}
	for _, e := range x.Ev {
		switch e.Kind {
		case EvGo:
			gos++
			// exactly one completion signal, as the last thing the goroutine does
			var done *Event
			for _, d := range x.Ev {
				if d.Spawn == e && d.Kind == EvDone {
					if done != nil {
						add("completion-signalled-once", d, "the goroutine started at %s signals completion more than once", e.Pos)
					}
					done = d
				}
			}
			if done == nil {
				add("goroutine-joined", e, "the goroutine started at %s never signals completion", e.Pos)
				continue
			}
			if len(done.Vars) != len(e.Vars) {
				add("completion-signalled-once", done, "the goroutine started at %s signals completion inside a loop", e.Pos)
			}
			if c := lits(done.pc, e.pc); !c.isTrue() {
				add("completion-signalled-once", done, "the goroutine started at %s signals completion only if %s", e.Pos, c)
			}
			// counted before it starts
			counted := false
			for _, a := range x.Ev[:e.Seq] {
				if a.Kind == EvAdd && a.Key == done.Key && prefixVars(a.Vars, e.Vars) && lits(a.pc, commonPC(a.pc, e.pc)).isTrue() {
					counted = true
				}
			}
			if !counted {
				add("counted-before-start", e, "the goroutine started at %s is not counted (Add) before it starts", e.Pos)
			}
			for _, a := range x.Ev {
				if a.Spawn == e && (a.Kind == EvRead || a.Kind == EvWrite) && a.Seq > done.Seq && !x.local(a, e) {
					add("no-access-after-completion", a, "%s is accessed after the goroutine started at %s signalled completion", x.keyName(a.Key), e.Pos)
				}
			}
		case EvWait:
			if !Equal(e.Adds, e.Dones) {
				add("wait-matches-starts", e, "Wait expects %s completions, %s are signalled", e.Adds, e.Dones)
			}
			if e.Spawn != nil {
				add("wait-matches-starts", e, "Wait inside a goroutine")
			}
		}
	}
	for k, o := range x.ghosts {
		g := &Ptr{obj: o}
		for _, n := range o.famN {
			g.fam = append(g.fam, NewVar("g", 0, boundHi(n)))
		}
		d, _ := x.load(st, g.field(gDones), types.Typ[types.Int64]).(*Term)
		w, _ := x.load(st, g.field(gWaited), types.Typ[types.Int64]).(*Term)
		if d == nil || w == nil || !Equal(d, w) {
			e := &Event{Fn: "?", Pos: k.obj.Where}
			for _, s := range x.Ev {
				if s.Kind == EvDone && s.Key == k && s.Spawn != nil {
					e.Fn, e.Pos = s.Spawn.Fn, s.Spawn.Pos
				}
			}
			add("goroutine-joined", e, "not every goroutine counted by %s has been waited for on return (%v signalled, %v waited for)", x.keyName(k), d, w)
		}
	}
	if gos > 0 {
		p := x.races(add)
		pairs += p
	}
	pairs += x.releases(add)
	return
}

func prefixVars(a, b []actVar) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].v != b[i].v {
			return false
		}
	}
	return true
}

// local: the accessed object belongs to the goroutine (or is a ghost).
func (x *Interp) local(a, g *Event) bool {
	return a.Key.obj.Tag == "ghost"
}

func lits(p, base *pcNode) *Term {
	var r []*Term
	for ; p != nil && p != base; p = p.parent {
		r = append(r, p.lit)
	}
	return And(r...)
}

func rangeOf(vs []actVar) []*Term {
	var r []*Term
	for _, v := range vs {
		r = append(r, Not(Lt(v.v, I(0))))
		if v.n != nil {
			r = append(r, Lt(v.v, v.n))
		}
	}
	return r
}

func (e *Event) start() int {
	if e.Spawn != nil {
		return e.Spawn.Seq
	}
	return e.Seq
}

func (e *Event) startVars() []actVar {
	if e.Spawn != nil {
		return e.Spawn.Vars
	}
	return e.Vars
}

// concurrent lists the cases in which event b may happen while the goroutine of a is running, with
// a's goroutine started first. A case is a renaming of b's variables that relates the iterations.
func (x *Interp) concurrent(a, b *Event) []map[int32]*Term {
	g := a.Spawn
	gv, pv := g.Vars, b.startVars()
	pSeq := b.start()
	nc := 0
	for nc < len(gv) && nc < len(pv) && gv[nc].v == pv[nc].v {
		nc++
	}
	var out []map[int32]*Term
	eq := func(k int) map[int32]*Term {
		r := rename(b)
		for i := 0; i < k; i++ {
			r[gv[i].v.VarID()] = gv[i].v
		}
		return r
	}
	// same iteration of all common loops
	if pSeq > g.Seq && b.Spawn != g {
		safe := false
		for _, w := range x.waits() {
			if w.Seq > g.Seq && w.Seq < pSeq && len(w.Vars) <= nc && lits(w.pc, commonPC(w.pc, g.pc)).isTrue() {
				safe = true
			}
		}
		if !safe {
			out = append(out, eq(nc))
		}
	}
	for k := 0; k < nc; k++ {
		safe := false
		for _, w := range x.waits() {
			if len(w.Vars) == k+1 && w.Vars[k].v == gv[k].v && (w.Seq > g.Seq || w.Seq < pSeq) && lits(w.pc, commonPC(w.pc, g.pc)).isTrue() {
				safe = true
			}
		}
		if !safe {
			r := eq(k)
			_, hi := Bounds(gv[k].v)
			if hi >= inf {
				hi = 1 << 62
			}
			r[gv[k].v.VarID()] = Add(AddI(gv[k].v, 1), NewVar("d", 0, hi))
			out = append(out, r)
		}
	}
	return out
}

func commonPC(a, b *pcNode) *pcNode {
	c, _, _ := pcSplit(a, b)
	return c
}

func (x *Interp) waits() []*Event {
	if x.waitEv == nil {
		x.waitEv = []*Event{}
		for _, e := range x.Ev {
			if e.Kind == EvWait {
				x.waitEv = append(x.waitEv, e)
			}
		}
	}
	return x.waitEv
}

func rename(e *Event) map[int32]*Term {
	m := map[int32]*Term{}
	for _, vs := range [][]actVar{e.Vars, e.Own} {
		for _, v := range vs {
			m[v.v.VarID()] = freshLike(v.v)
		}
	}
	if e.Spawn != nil {
		for _, v := range e.Spawn.Vars {
			if m[v.v.VarID()] == nil {
				m[v.v.VarID()] = freshLike(v.v)
			}
		}
	}
	return m
}

func freshLike(v *Term) *Term {
	lo, hi := Bounds(v)
	if hi < inf {
		hi++
	}
	return NewVar("p", lo, hi)
}

// overlap reports that two accesses may touch the same cell under the conditions.
func overlap(a, b *Event, ren map[int32]*Term, cs []*Term) bool {
	if len(a.Idx) != len(b.Idx) {
		return true
	}
	c := append([]*Term(nil), cs...)
	sub := func(t *Term) *Term { return Subst(t, ren) }
	for i := range a.Idx {
		d := Eq(a.Idx[i], sub(b.Idx[i]))
		if d.isFalse() {
			return false
		}
		c = append(c, d)
	}
	if Unsat(c...) {
		return false
	}
	c = append(c, rangeOf(a.Vars)...)
	c = append(c, rangeOf(a.Own)...)
	for _, t := range append(rangeOf(b.Vars), rangeOf(b.Own)...) {
		c = append(c, sub(t))
	}
	if Unsat(c...) {
		return false
	}
	for p := a.pc; p != nil; p = p.parent {
		c = append(c, p.lit)
	}
	for p := b.pc; p != nil; p = p.parent {
		c = append(c, sub(p.lit))
	}
	return !Unsat(c...)
}

func (e *Event) signature() string {
	if e.sig == "" {
		s := fmt.Sprintf("%d|%d%s|%s|", e.Kind, e.Key.obj.id, e.Key.path, e.Held)
		for _, t := range e.Idx {
			s += fmt.Sprint(t.id) + ","
		}
		for _, v := range e.startVars() {
			s += fmt.Sprint("v", v.v.id)
		}
		e.sig = s
	}
	return e.sig
}

func shareLock(a, b string) bool {
	for _, s := range strings.Split(a, ",") {
		for _, t := range strings.Split(b, ",") {
			if s == t && s != "" {
				return true
			}
		}
	}
	return false
}

func (x *Interp) races(add func(rule string, e *Event, f string, a ...interface{})) int {
	x.waitEv = nil
	by := map[Key][]*Event{}
	wr := map[Key]bool{}
	inG := map[Key]bool{}
	seen := map[string]bool{}
	for _, e := range x.Ev {
		if e.Kind != EvRead && e.Kind != EvWrite {
			continue
		}
		// accesses that behave alike are checked once
		id := e.signature() + fmt.Sprint(e.Spawn != nil)
		if e.Spawn != nil {
			id += fmt.Sprint(e.Spawn.Seq)
			if seen[id] {
				continue
			}
			seen[id] = true
			inG[e.Key] = true
		} else {
			// position relative to goroutine starts and waits
			id += fmt.Sprint(x.epoch(e.Seq))
			if seen[id] {
				continue
			}
			seen[id] = true
		}
		by[e.Key] = append(by[e.Key], e)
		if e.Kind == EvWrite {
			wr[e.Key] = true
		}
	}
	n, bad := 0, 0
	var keys []Key
	for k := range by {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj.id != keys[j].obj.id {
			return keys[i].obj.id < keys[j].obj.id
		}
		return keys[i].path < keys[j].path
	})
next:
	for _, k := range keys {
		es := by[k]
		if !wr[k] || !inG[k] {
			continue
		}
		for _, a := range es {
			if a.Spawn == nil {
				continue
			}
			for _, b := range es {
				if a.Kind != EvWrite && b.Kind != EvWrite {
					continue
				}
				if shareLock(a.Held, b.Held) {
					continue
				}
				n++
				for _, ren := range x.concurrent(a, b) {
					if overlap(a, b, ren, nil) {
						what := "the caller"
						if b.Spawn == a.Spawn {
							what = "another instance of it"
						} else if b.Spawn != nil {
							what = "the goroutine started at " + b.Spawn.Pos
						}
						acc := "read"
						if b.Kind == EvWrite {
							acc = "written"
						}
						aa := "read"
						if a.Kind == EvWrite {
							aa = "written"
						}
						add("no-conflicting-access", a, "%s is %s by the goroutine started at %s (at %s) and %s by %s (at %s) without synchronisation", x.keyName(k), aa, a.Spawn.Pos, a.Pos, acc, what, b.Pos)
						// one conflict per location, a few locations: enough to report
						if bad++; bad >= 6 {
							return n
						}
						continue next
					}
				}
			}
		}
	}
	return n
}

// epoch counts goroutine starts and waits before a position.
func (x *Interp) epoch(seq int) int {
	if x.epochs == nil || len(x.epochs) != len(x.Ev)+1 {
		x.epochs = make([]int, len(x.Ev)+1)
		for i, e := range x.Ev {
			x.epochs[i+1] = x.epochs[i]
			if e.Kind == EvGo || e.Kind == EvWait {
				x.epochs[i+1]++
			}
		}
	}
	return x.epochs[seq]
}

// releases checks that nothing uses a pooled object after it was put back.
func (x *Interp) releases(add func(rule string, e *Event, f string, a ...interface{})) int {
	n, bad := 0, 0
	for _, r := range x.Ev {
		if r.Kind != EvRelease {
			continue
		}
		objs := map[*Obj][]*Ptr{}
		for _, p := range r.refs {
			objs[p.obj] = append(objs[p.obj], p)
		}
		seen := map[string]bool{}
		for _, a := range x.Ev[r.Seq+1:] {
			if a.Kind != EvRead && a.Kind != EvWrite {
				continue
			}
			ps := objs[a.Key.obj]
			if len(ps) == 0 {
				continue
			}
			id := a.signature()
			if seen[id] {
				continue
			}
			seen[id] = true
			n++
			for _, p := range ps {
				if len(p.fam) > len(a.Idx) {
					continue
				}
				// same iteration of the common loops
				nc := 0
				for nc < len(r.Vars) && nc < len(a.Vars) && r.Vars[nc].v == a.Vars[nc].v {
					nc++
				}
				ren := rename(a)
				var cs []*Term
				for i := 0; i < nc; i++ {
					cs = append(cs, Eq(r.Vars[i].v, ren[r.Vars[i].v.VarID()]))
				}
				re := &Event{Idx: p.fam, Vars: r.Vars, pc: r.pc}
				ae := &Event{Idx: a.Idx[:len(p.fam)], Vars: a.Vars, Own: a.Own, pc: a.pc}
				if overlap(re, ae, ren, cs) {
					add("no-use-after-release", a, "%s is used after it was handed back to the pool at %s", x.keyName(a.Key), r.Pos)
					if bad++; bad >= 6 {
						return n
					}
					break
				}
			}
		}
	}
	return n
}

// Released reports that something reachable from v was handed back to a pool.
func (x *Interp) Released(st *State, v Value) string {
	for _, p := range x.reach(st, v) {
		for _, r := range x.Ev {
			if r.Kind != EvRelease {
				continue
			}
			for _, q := range r.refs {
				if q.obj == p.obj {
					return fmt.Sprintf("%s, handed back to the pool at %s", p.obj.name, r.Pos)
				}
			}
		}
	}
	return ""
}
