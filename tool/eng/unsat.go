package eng

// Unsat decides that a conjunction of conditions cannot hold, by splitting on the literals of its
// clauses (a bounded number of times). A false answer means "not shown".
func Unsat(cs ...*Term) bool {
	budget := 200
	return unsat(And(cs...), &budget)
}

func unsat(c *Term, budget *int) bool {
	if c.isFalse() {
		return true
	}
	if c.isTrue() || *budget <= 0 {
		return false
	}
	*budget--
	lits := []*Term{c}
	if c.op == OAnd {
		lits = c.args
	}
	// unit propagation
	for i, l := range lits {
		if l.op == ONot && l.args[0].op == OAnd || l.op == OIte {
			continue
		}
		ch := false
		rest := make([]*Term, 0, len(lits))
		for j, m := range lits {
			if j == i {
				rest = append(rest, m)
				continue
			}
			if m.op == ONot || m.op == OIte || m.op == OAnd {
				n := assume(m, l, true)
				if n != m {
					ch = true
				}
				rest = append(rest, n)
			} else {
				rest = append(rest, m)
			}
		}
		if ch {
			return unsat(And(rest...), budget)
		}
	}
	// split on a literal of the shortest clause
	var best *Term
	bn := 1 << 30
	for _, l := range lits {
		if l.op == ONot && l.args[0].op == OAnd && len(l.args[0].args) < bn {
			best, bn = l.args[0].args[0], len(l.args[0].args)
		}
		if l.op == OIte && bn > 3 {
			best, bn = l.args[0], 3
		}
	}
	if best == nil {
		// split a disequation into its two sides, if that contradicts the rest
		for i, l := range lits {
			if l.op != ONot || l.args[0].op != OEq0 || l.args[0].args[0].ty != TI64 {
				continue
			}
			d := l.args[0].args[0]
			rest := append(append([]*Term(nil), lits[:i]...), lits[i+1:]...)
			lo := And(append([]*Term{Lt0(d)}, rest...)...)
			hi := And(append([]*Term{Lt0(Neg(d))}, rest...)...)
			if (lo.isFalse() || hi.isFalse()) && unsat(lo, budget) && unsat(hi, budget) {
				return true
			}
		}
		return false
	}
	return unsat(And(assume(c, best, true), best), budget) && unsat(And(assume(c, best, false), Not(best)), budget)
}
