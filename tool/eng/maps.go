package eng

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// MapV is the content of a map: the updates made to it, oldest first. A map value is a pointer to
// the cell holding its content.
type MapV struct{ e []mapEnt }

type mapEnt struct {
	k *Term
	v Value
}

func (x *Interp) mapUpdate(fr *frame, st *State, i *ssa.MapUpdate) {
	m := x.val(fr, i.Map)
	k, ok := x.val(fr, i.Key).(*Term)
	p, ok2 := m.(*Ptr)
	if !ok || !ok2 || len(x.active) > 0 {
		x.problem("map update not followed in %s", fr.fn)
		return
	}
	n := &MapV{}
	switch old := x.load(st, p, i.Map.Type()).(type) {
	case *MapV:
		n.e = append(n.e, old.e...)
	case NilV:
	default:
		x.problem("map update not followed in %s", fr.fn)
		return
	}
	n.e = append(n.e, mapEnt{k, x.val(fr, i.Value)})
	x.store(st, p, i.Map.Type(), n, True())
}

func (x *Interp) mapLookup(fr *frame, st *State, i *ssa.Lookup) Value {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	k, ok2 := x.val(fr, i.Index).(*Term)
	if !ok || !ok2 {
		return unkOf(i.Type(), "map lookup")
	}
	var find func(m Value) (Value, Value)
	find = func(m Value) (Value, Value) {
		switch c := m.(type) {
		case *IteV:
			a, aok := find(c.a)
			b, bok := find(c.b)
			return mkIte(c.c, a, b), mkIte(c.c, aok, bok)
		case NilV:
			return zeroVal(mt.Elem()), False()
		case *Ptr:
			return find(x.load(st, c, i.X.Type()))
		case *MapV:
			v, has := zeroVal(mt.Elem()), Value(False())
			for _, e := range c.e {
				q := Eq(k, e.k)
				v, has = mkIte(q, e.v, v), mkIte(q, True(), has)
			}
			return v, has
		}
		return unkOf(mt.Elem(), "map lookup"), opaque("map lookup", TBool)
	}
	v, has := find(x.val(fr, i.X))
	if i.CommaOk {
		return &TupleV{[]Value{v, has}}
	}
	return v
}
