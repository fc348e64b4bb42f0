package casso

import (
	. "github.com/metafates/bento/internal/casso"
	"github.com/metafates/bento/internal/zzsym"
)

var digits = []string{"0", "1", "2", "3", "4", "5"}

// linear forms over two or three variables
var forms = [][3]float64{
	{1, 0, 0}, {1, -1, 0}, {0, 1, 0}, {1, 1, 0}, {0, 1, -1}, {2, -1, 0}, {1, 1, 1},
}

// rel is form(vars) op constant.
type rel struct {
	form [3]float64
	op   int // -1 at most, 0 equal, 1 at least
	rhs  int
}

func anyRel(i int, nforms, hi int) rel {
	return rel{forms[zzsym.Choice("form"+digits[i], nforms)], zzsym.Choice("op"+digits[i], 3) - 1, zzsym.Int("rhs"+digits[i], -hi, hi)}
}

func (r rel) constraint(vs [3]Variable, s Strength) Constraint {
	var ts []Term
	for i, c := range r.form {
		if c != 0 {
			ts = append(ts, NewTerm(vs[i], c))
		}
	}
	w := WeightedRelation{Operator: RelationOperatorEqual, Strength: s}
	switch r.op {
	case -1:
		w.Operator = RelationOperatorLessThanEqual
	case 1:
		w.Operator = RelationOperatorGreaterThanEqual
	}
	return w.ExpressionLHS(NewExpression(0, ts...)).ConstantRHS(float64(r.rhs))
}

// at says whether integers satisfy the relation.
func (r rel) at(x [3]int) bool {
	v := 0
	for i := range x {
		v += int(r.form[i]) * x[i]
	}
	switch r.op {
	case -1:
		return v <= r.rhs
	case 1:
		return v >= r.rhs
	}
	return v == r.rhs
}

// holds says whether the solver's values satisfy the relation.
func (r rel) holds(s *Solver, vs [3]Variable) bool {
	v := -float64(r.rhs)
	for i := range vs {
		if r.form[i] != 0 {
			v += r.form[i] * s.GetValue(vs[i])
		}
	}
	const eps = 1.0 / 1024
	switch r.op {
	case -1:
		return v <= eps
	case 1:
		return v >= -eps
	}
	return v <= eps && v >= -eps
}

func newVars() [3]Variable {
	return [3]Variable{NewVariable(), NewVariable(), NewVariable()}
}

// C17: what is accepted as required holds; what has a solution is accepted.
func C17_Required() {
	n := zzsym.Bound("constraints", 3, 4)
	nf := zzsym.Bound("forms", 4, 7)
	hi := zzsym.Bound("constant", 20, 1000)
	s := NewSolver()
	vs := newVars()
	var x [3]int
	for i := range x {
		x[i] = zzsym.Int("witness"+digits[i], -hi, hi)
	}
	var accepted []rel
	solvable := true
	for i := 0; i < n; i++ {
		r := anyRel(i, nf, hi)
		solvable = solvable && r.at(x)
		if err := s.AddConstraint(r.constraint(vs, Required)); err != nil {
			zzsym.Assert(!solvable, "a required constraint with a solution is rejected")
			zzsym.Cover("rejected")
			return
		}
		accepted = append(accepted, r)
		for _, a := range accepted {
			zzsym.Assert(a.holds(&s, vs), "an accepted required constraint does not hold")
		}
	}
	zzsym.Cover("accepted")
}

// A weaker constraint does not override a stronger one.
func C17_Strength() {
	hi := zzsym.Bound("constant", 50, 1000)
	lo, up := zzsym.Int("lo", -hi, hi), zzsym.Int("up", -hi, hi)
	a, b := zzsym.Int("strong", -hi, hi), zzsym.Int("weak", -hi, hi)
	zzsym.Assume(lo <= up)
	vs := newVars()
	s := NewSolver()
	x := [3]float64{1, 0, 0}
	cs := []Constraint{
		rel{x, 1, lo}.constraint(vs, Required),
		rel{x, -1, up}.constraint(vs, Required),
	}
	soft := []struct {
		r rel
		s Strength
	}{
		{rel{x, zzsym.Choice("op strong", 3) - 1, a}, []Strength{Strong, Medium}[zzsym.Choice("stronger", 2)]},
		{rel{x, zzsym.Choice("op weak", 3) - 1, b}, Weak},
	}
	c0, c1 := soft[0].r.constraint(vs, soft[0].s), soft[1].r.constraint(vs, soft[1].s)
	switch zzsym.Choice("order", 4) {
	case 0:
		cs = append(cs, c0, c1)
	case 1:
		cs = append(cs, c1, c0)
	case 2:
		cs = []Constraint{c0, c1, cs[0], cs[1]}
	case 3:
		cs = []Constraint{c1, cs[1], c0, cs[0]}
	}
	for _, c := range cs {
		zzsym.Assert(s.AddConstraint(c) == nil, "a system with a solution is rejected")
	}
	// the best point for the strong constraint within the required range
	clamp := func(v, lo, up int) int { return max(lo, min(up, v)) }
	l, u := lo, up
	for _, c := range soft {
		switch c.r.op {
		case 0:
			l = clamp(c.r.rhs, l, u)
			u = l
		case 1:
			l = clamp(c.r.rhs, l, u)
		case -1:
			u = clamp(c.r.rhs, l, u)
		}
	}
	v := s.GetValue(vs[0])
	const eps = 1.0 / 1024
	zzsym.Assert(v >= float64(lo)-eps && v <= float64(up)+eps, "a required bound is violated")
	zzsym.Assert(v >= float64(l)-eps && v <= float64(u)+eps, "a weaker constraint overrides a stronger one")
	zzsym.Cover("solved")
}

// Soft constraints over two variables that can all be met are all met.
func C17_Soft() {
	n := zzsym.Bound("constraints", 3, 4)
	nf := zzsym.Bound("forms", 3, 7)
	hi := zzsym.Bound("constant", 20, 1000)
	s := NewSolver()
	vs := newVars()
	var x [3]int
	for i := range x {
		x[i] = zzsym.Int("witness"+digits[i], -hi, hi)
	}
	strengths := []Strength{Required, Medium, Strong, Weak}
	var rs []rel
	for i := 0; i < n; i++ {
		r := anyRel(i, nf, hi)
		zzsym.Assume(r.at(x))
		rs = append(rs, r)
		k := 0
		if i > 0 {
			k = zzsym.Choice("strength"+digits[i], 2)
		}
		zzsym.Assert(s.AddConstraint(r.constraint(vs, strengths[(i+k)%4])) == nil, "a constraint that can be met is rejected")
	}
	for _, r := range rs {
		zzsym.Assert(r.holds(&s, vs), "a constraint that can be met together with all others does not hold")
	}
	zzsym.Cover("met")
}

// FetchChanges reports exactly the variables whose value changed.
func C17_Changes() {
	hi := zzsym.Bound("constant", 50, 1000)
	s := NewSolver()
	vs := newVars()
	var shown [3]float64
	fresh := [3]bool{true, true, true}
	nf := zzsym.Bound("forms", 4, 7)
	strengths := []Strength{Required, Strong, Weak}
	for i := 0; i < 2; i++ {
		r := anyRel(i, nf, hi)
		if s.AddConstraint(r.constraint(vs, strengths[zzsym.Choice("strength"+digits[i], 3)])) != nil {
			return
		}
		var hit [3]bool
		for _, c := range s.FetchChanges() {
			k := -1
			for j, v := range vs {
				if v == c.Variable {
					k = j
				}
			}
			zzsym.Assert(k >= 0 && !hit[k], "a change of no variable, or one reported twice")
			hit[k] = true
			zzsym.Assert(c.Constant == s.GetValue(vs[k]), "a change reports another value than the variable has")
			zzsym.Assert(fresh[k] || shown[k] != c.Constant, "an unchanged variable is reported")
			shown[k], fresh[k] = c.Constant, false
		}
		for j, v := range vs {
			zzsym.Assert(s.GetValue(v) == shown[j], "a changed variable is not reported")
		}
	}
	zzsym.Cover("fetched")
}

// A solver that was reset behaves like a new one.
func C17_Reset() {
	hi := zzsym.Bound("constant", 50, 1000)
	vs := newVars()
	before, after := anyRel(0, 4, hi), anyRel(1, 4, hi)
	s, fresh := NewSolver(), NewSolver()
	if s.AddConstraint(before.constraint(vs, Required)) != nil {
		return
	}
	s.FetchChanges()
	s.Reset()
	for _, v := range vs {
		zzsym.Assert(s.GetValue(v) == 0, "a reset solver still has values")
	}
	c := after.constraint(vs, Required)
	zzsym.Assert((s.AddConstraint(c) == nil) == (fresh.AddConstraint(c) == nil), "a reset solver accepts other constraints than a new one")
	for _, v := range vs {
		zzsym.Assert(s.GetValue(v) == fresh.GetValue(v), "a reset solver finds other values than a new one")
	}
	zzsym.Assert(len(s.FetchChanges()) == len(fresh.FetchChanges()), "a reset solver reports other changes than a new one")
	zzsym.Cover("reset")
}
