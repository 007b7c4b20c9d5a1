package eng

import "testing"

func TestEq(t *testing.T) {
	a := NewVar("a", 0, 1025)
	f := func(x *Term) *Term { return Fn("f", TU32, x) }
	got := Ite(Eq(a, I(1024)), f(I(5000)), Ite(Lt(a, I(1024)), Ite(Lt(I(0), a), Sub(Int(TU32, -1), f(Sub(I(1024), a))), f(Neg(a))), Int(TU32, 0)))
	want := Ite(Eq(a, I(1024)), f(I(5000)), Ite(Eq(a, I(0)), f(I(0)), Sub(Int(TU32, -1), f(Sub(I(1024), a)))))
	t.Log(got, want)
	t.Log(Unsat(Not(Lt(I(0), a)), Not(Eq(a, I(0)))), Unsat(Lt(I(0), a), Eq(a, I(0))))
	t.Log(Unsat(Not(Lt(a, I(1024))), Not(Eq(a, I(1024)))))
	if !Equal(got, want) {
		t.Fatal("no")
	}
	w := NewVar("a", 0, 1025)
	if !Equal(ArrOf(I(1025), a, got), ArrOf(I(1025), w, Subst(want, map[int32]*Term{a.VarID(): w}))) {
		t.Fatal("arr")
	}
}
