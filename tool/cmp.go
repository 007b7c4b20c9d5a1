package main

import (
	_ "embed"
	"fmt"
	"go/types"

	"vtool/eng"
)

//go:embed spec/spec.go.txt
var specSrc []byte

// load reads the repository together with the reference definitions.
func load() (*eng.World, error) {
	d := repoDir()
	return eng.Load(d, map[string][]byte{d + "/zz_verifspec/spec.go": specSrc})
}

// cmpErr describes the first difference of two values, "" if there is none.
func (c *Ctx) cmp(got, want eng.Value, t types.Type, path string, pc []*eng.Term) string {
	x := c.X
	if eng.IsIte(got) || eng.IsIte(want) {
		return x.CmpCases(got, want, pc, func(g, w eng.Value, pc []*eng.Term) string { return c.cmp(g, w, t, path, pc) })
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		g, ok1 := got.(*eng.Term)
		w, ok2 := want.(*eng.Term)
		if !ok1 || !ok2 {
			return fmt.Sprintf("%s: value not resolved (%s, expected %s)", path, eng.ShowVal(got), eng.ShowVal(want))
		}
		if o, bad := eng.IsOpaque(g); bad {
			return fmt.Sprintf("%s: value not resolved: %s", path, o)
		}
		if o, bad := eng.IsOpaque(w); bad {
			return fmt.Sprintf("%s: expected value not resolved: %s", path, o)
		}
		if eng.Equal(g, w, pc...) {
			return ""
		}
		a, b := eng.Diff(eng.Normalize(g), eng.Normalize(w))
		d := ""
		if a != nil && b != nil {
			d = fmt.Sprintf("; differs at %s, expected %s", short(a.String(), 200), short(b.String(), 200))
		}
		return fmt.Sprintf("%s is %s, expected %s%s", path, short(g.String(), 300), short(w.String(), 300), d)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := c.cmp(eng.StructField(got, i), eng.StructField(want, i), u.Field(i).Type(), path+"."+u.Field(i).Name(), pc); s != "" {
				return s
			}
		}
		return ""
	case *types.Pointer:
		if eng.IsNil(got) && eng.IsNil(want) {
			return ""
		}
		if eng.PtrType(got) == nil || eng.PtrType(want) == nil {
			return fmt.Sprintf("%s: pointer not resolved (%s, expected %s)", path, eng.ShowVal(got), eng.ShowVal(want))
		}
		return c.cmp(x.Load(c.gs(), got, u.Elem()), x.Load(c.ws(), want, u.Elem()), u.Elem(), path, pc)
	case *types.Slice:
		gn, wn := eng.SliceLen(got), eng.SliceLen(want)
		if gn == nil || wn == nil {
			return fmt.Sprintf("%s: slice not resolved (%s, expected %s)", path, eng.ShowVal(got), eng.ShowVal(want))
		}
		if !eng.Equal(gn, wn, pc...) {
			return fmt.Sprintf("%s has length %s, expected %s", path, gn, wn)
		}
		if gn.IsConst() && gn.IVal() == 0 {
			return ""
		}
		hi := int64(1 << 40)
		if gn.IsConst() {
			hi = gn.IVal()
		}
		j := eng.NewVar("j", 0, hi)
		npc := pc
		if !gn.IsConst() {
			npc = append(append([]*eng.Term(nil), pc...), eng.Lt(j, gn))
		}
		return c.cmp(x.Load(c.gs(), eng.Elem(got, j), u.Elem()), x.Load(c.ws(), eng.Elem(want, j), u.Elem()), u.Elem(), path+"["+j.String()+"]", npc)
	}
	return fmt.Sprintf("%s: cannot compare values of type %s", path, t)
}

func (c *Ctx) gs() *eng.State {
	if c.gotSt != nil {
		return c.gotSt
	}
	return c.St
}

func (c *Ctx) ws() *eng.State {
	if c.wantSt != nil {
		return c.wantSt
	}
	return c.St
}

// agree runs an operation of the repository and its reference definition from the same memory and
// compares the values they leave. The operation must not panic, index out of range for certain,
// or go beyond what the analysis follows.
func (c *Ctx) agree(r *Rep, rule, construct string, t types.Type, got, want func() eng.Value, pc ...*eng.Term) bool {
	return c.agreeAny(r, rule, construct, t, got, []func() eng.Value{want}, pc...)
}

// agreeAny accepts any one of several reference definitions.
func (c *Ctx) agreeAny(r *Rep, rule, construct string, t types.Type, got func() eng.Value, wants []func() eng.Value, pc ...*eng.Term) bool {
	base := c.St
	c.St = base.Fork()
	nb, np := len(c.X.Bounds), len(c.X.Panics)
	g := got()
	c.gotSt = c.St
	c.problems(r, construct)
	for _, p := range c.X.Panics[np:] {
		r.ok("no-panic", construct, false, "%s: panic: %s when %s", p.Pos, p.Msg, p.Cond)
	}
	for _, b := range c.X.Bounds[nb:] {
		if b.Definite {
			r.ok("index-in-range", construct, false, "%s: index out of range", b.Pos)
		}
	}
	c.X.Panics, c.X.Bounds = c.X.Panics[:np], c.X.Bounds[:nb]
	d := ""
	for _, want := range wants {
		c.St = base.Fork()
		w := want()
		c.wantSt = c.St
		c.problems(r, "reference of "+construct)
		c.X.Panics, c.X.Bounds = c.X.Panics[:np], c.X.Bounds[:nb]
		e := c.cmp(g, w, t, "result", pc)
		if d == "" || e == "" {
			d = e
		}
		if e == "" {
			break
		}
	}
	c.gotSt, c.wantSt, c.St = nil, nil, base
	return r.ok(rule, construct, d == "", "%s", d)
}

// same is the obligation that two values agree in every cell.
func (c *Ctx) same(r *Rep, rule, construct string, got, want eng.Value, t types.Type, pc ...*eng.Term) bool {
	d := c.cmp(got, want, t, "result", pc)
	return r.ok(rule, construct, d == "", "%s", d)
}

// ref calls a reference definition.
func (c *Ctx) ref(fn string, args ...eng.Value) eng.Value {
	n := len(c.X.Panics)
	v := c.call("zz_verifspec", fn, args...)
	c.X.Panics = c.X.Panics[:n]
	return v
}

// method calls a method of the repository.
func (c *Ctx) method(pkg, typ, name string, args ...eng.Value) eng.Value {
	f := c.W.Method(pkg, typ, name)
	if f == nil {
		c.bad = append(c.bad, fmt.Sprintf("%s.%s.%s not found", pkg, typ, name))
		return nil
	}
	r, ns := c.X.Run(c.St, f, args...)
	if ns == nil {
		c.bad = append(c.bad, fmt.Sprintf("%s.%s.%s does not return", pkg, typ, name))
		return r
	}
	c.St = ns
	return r
}

func (c *Ctx) typ(pkg, name string) types.Type {
	t := c.W.Type(pkg, name)
	if t == nil {
		c.bad = append(c.bad, pkg+"."+name+" not found")
		return types.Typ[types.Int]
	}
	return t
}

func (c *Ctx) ptr(pkg, name string) types.Type { return types.NewPointer(c.typ(pkg, name)) }

// sym makes a caller-provided object of a repository type.
func (c *Ctx) sym(name, pkg, typ string) eng.Value { return c.X.SymVal(name, c.ptr(pkg, typ)) }

// problems turns what the analysis could not follow into findings.
func (c *Ctx) problems(r *Rep, construct string) {
	for _, p := range c.X.Problems {
		r.undecided("analysis", construct, "%s", short(p, 400))
	}
	c.X.Problems = nil
}
