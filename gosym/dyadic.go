package main

import (
	"math"
	"math/big"
	"sort"
)

// Floats computed from integers. ODy denotes the double a * 2^-n exactly
// (|a| <= 2^53). Sums, differences and products of such values stay in that
// form while they are exactly representable, and comparing, rounding or
// converting them is integer arithmetic. The sign of zero is not represented:
// it only shows in 1/x, Signbit and printing of a computed zero.

const dyMax = int64(1) << 53

func (c *Ctx) dy(a *Term, k int64) *Term {
	if a.isConst() {
		return c.Float(math.Float64bits(math.Ldexp(float64(a.ci()), int(-k))))
	}
	if k < 0 {
		// keep the exponent non-negative where that is exact
		if k > -40 {
			if r := c.dyScale(a, -k); r != nil {
				a, k = r, 0
			}
		}
	}
	return c.mk(&Term{op: ODy, sort: SFloat, n: uint64(k), a: a}, "")
}

// dyScale returns a*2^s if it stays exact.
func (c *Ctx) dyScale(a *Term, s int64) *Term {
	if s == 0 {
		return a
	}
	if s > 53 {
		return nil
	}
	m := dyMax >> uint(s)
	if a.lo < -m || a.hi > m {
		return nil
	}
	return c.Mul(a, c.Int(1<<uint(s)))
}

// dyParts reads t as (a, k) with value a*2^-k.
func (c *Ctx) dyParts(t *Term) (*Term, int64, bool) {
	switch t.op {
	case ODy:
		return t.a, int64(t.n), true
	case OConst:
		f := math.Float64frombits(t.n)
		if f == 0 {
			return c.Int(0), 0, true
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, 0, false
		}
		fr, e := math.Frexp(f)
		m := int64(fr * (1 << 53))
		k := int64(53 - e)
		for m&1 == 0 {
			m >>= 1
			k--
		}
		if k < -60 || k > 200 {
			return nil, 0, false
		}
		if k < 0 {
			if s := c.dyScale(c.Int(m), -k); s != nil {
				return s, 0, true
			}
		}
		return c.Int(m), k, true
	}
	return nil, 0, false
}

func fits53(t *Term) bool { return t.lo >= -dyMax && t.hi <= dyMax }

// mulBound reports whether |a|*m stays within 2^53.
func mulFits(a *Term, m int64) bool {
	x := new(big.Int).Mul(big.NewInt(a.lo), big.NewInt(m))
	y := new(big.Int).Mul(big.NewInt(a.hi), big.NewInt(m))
	lim := big.NewInt(dyMax)
	return x.CmpAbs(lim) <= 0 && y.CmpAbs(lim) <= 0
}

func (c *Ctx) dyArith(op Op, a, b *Term) *Term {
	x, k, ok := c.dyParts(a)
	if !ok {
		return nil
	}
	y, l, ok := c.dyParts(b)
	if !ok {
		return nil
	}
	switch op {
	case OFAdd, OFSub:
		kk := k
		if l > kk {
			kk = l
		}
		if x.isConst() && x.ci() == 0 {
			kk = l
			k = l
		}
		if y.isConst() && y.ci() == 0 {
			kk = k
			l = k
		}
		x, y = c.dyScale(x, kk-k), c.dyScale(y, kk-l)
		if x == nil || y == nil {
			return nil
		}
		var r *Term
		if op == OFAdd {
			r = c.Add(x, y)
		} else {
			r = c.Sub(x, y)
		}
		if !fits53(r) {
			return nil
		}
		return c.dy(r, kk)
	case OFMul:
		if x.isConst() {
			x, y = y, x
		}
		if !y.isConst() || !mulFits(x, y.ci()) {
			return nil
		}
		return c.dy(c.Mul(x, y), k+l)
	case OFDiv:
		if !y.isConst() {
			return nil
		}
		switch y.ci() {
		case 1:
			return c.dy(x, k-l)
		case -1:
			return c.dy(c.Neg(x), k-l)
		}
		d := y.ci()
		if d > 0 && d&(d-1) == 0 {
			n := int64(0)
			for d > 1 {
				d >>= 1
				n++
			}
			return c.dy(x, k-l+n)
		}
	}
	return nil
}

// rat reads t as num*2^-k/den with den a positive odd-or-small constant.
func (c *Ctx) rat(t *Term) (num *Term, k, den int64, ok bool) {
	if t.op == OFDiv {
		x, kx, ok1 := c.dyParts(t.a)
		y, ky, ok2 := c.dyParts(t.b)
		if !ok1 || !ok2 || !y.isConst() || y.ci() == 0 || !fits53(x) {
			return nil, 0, 0, false
		}
		d := y.ci()
		if d < 0 {
			x, d = c.Neg(x), -d
		}
		return x, kx - ky, d, true
	}
	num, k, ok = c.dyParts(t)
	return num, k, 1, ok
}

func absMax(t *Term) float64 {
	return math.Max(math.Abs(float64(t.lo)), math.Abs(float64(t.hi)))
}

// scaleAny returns t*m if the product cannot wrap.
func (c *Ctx) scaleAny(t *Term, m *big.Int) *Term {
	if !m.IsInt64() {
		if t.isConst() && t.ci() == 0 {
			return t
		}
		return nil
	}
	lim := big.NewInt(1 << 61)
	x := new(big.Int).Mul(big.NewInt(t.lo), m)
	y := new(big.Int).Mul(big.NewInt(t.hi), m)
	if x.CmpAbs(lim) > 0 || y.CmpAbs(lim) > 0 {
		return nil
	}
	return c.Mul(t, c.Int(m.Int64()))
}

func (c *Ctx) dyCmp(op Op, a, b *Term) *Term {
	// comparisons with infinities and NaN
	for i, t := range []*Term{a, b} {
		o := []*Term{b, a}[i]
		if !t.isConst() {
			continue
		}
		f := math.Float64frombits(t.n)
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			continue
		}
		if _, _, _, ok := c.rat(o); !ok {
			return nil
		}
		if math.IsNaN(f) || op == OFEq {
			return c.False
		}
		return c.Bool((f < 0) == (i == 0))
	}
	x, k, d, ok := c.rat(a)
	if !ok {
		return nil
	}
	y, l, e, ok := c.rat(b)
	if !ok {
		return nil
	}
	if d != 1 || e != 1 {
		// rounded quotients: distinct values must be further apart than an ulp
		kk := k
		if l > kk {
			kk = l
		}
		gap := math.Ldexp(1/(float64(d)*float64(e)), int(-kk))
		m := math.Max(math.Ldexp(absMax(x)/float64(d), int(-k)), math.Ldexp(absMax(y)/float64(e), int(-l)))
		if !(gap > m*math.Ldexp(1, -51)) {
			return nil
		}
	}
	if d == 1 && e == 1 && (x.isConst() || y.isConst()) {
		// x*2^-k ? q: compare x with the integer bound
		flip := x.isConst()
		if flip {
			x, y, k, l = y, x, l, k
		}
		q := new(big.Rat).SetInt64(y.ci())
		sh := func(r *big.Rat, s int64) {
			p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(absI(s))))
			if s < 0 {
				p.Inv(p)
			}
			r.Mul(r, p)
		}
		sh(q, k-l)
		fl := new(big.Int).Div(q.Num(), q.Denom()) // Euclidean; denom > 0: floor
		isInt := q.IsInt()
		if !fl.IsInt64() || fl.CmpAbs(big.NewInt(1<<62)) > 0 {
			neg := fl.Sign() < 0
			switch op {
			case OFEq:
				return c.False
			default: // x < q iff q is hugely positive
				return c.Bool(neg == flip)
			}
		}
		f := c.Int(fl.Int64())
		switch {
		case op == OFEq:
			if !isInt {
				return c.False
			}
			return c.Eq(x, f)
		case !flip && op == OFLt && isInt: // x < f
			return c.Lt(x, f)
		case !flip && op == OFLt, !flip && op == OFLe: // x <= floor(q)
			return c.Not(c.Lt(f, x))
		case flip && op == OFLt, flip && op == OFLe && !isInt: // x > q
			return c.Lt(f, x)
		default: // q <= x
			return c.Not(c.Lt(x, f))
		}
	}
	m1, m2 := big.NewInt(e), big.NewInt(d)
	if k > l {
		m2.Lsh(m2, uint(k-l))
	} else {
		m1.Lsh(m1, uint(l-k))
	}
	x, y = c.scaleAny(x, m1), c.scaleAny(y, m2)
	if x == nil || y == nil {
		return nil
	}
	switch op {
	case OFEq:
		return c.Eq(x, y)
	case OFLt:
		return c.Lt(x, y)
	}
	return c.Not(c.Lt(y, x))
}

// dyIte merges two exact floats under a condition.
func (c *Ctx) dyIte(cond, a, b *Term) *Term {
	x, k, ok := c.dyParts(a)
	if !ok {
		return nil
	}
	y, l, ok := c.dyParts(b)
	if !ok {
		return nil
	}
	kk := max(k, l)
	x, y = c.dyScale(x, kk-k), c.dyScale(y, kk-l)
	if x == nil || y == nil {
		return nil
	}
	return c.dy(c.Ite(cond, x, y), kk)
}

func absI(s int64) int64 {
	if s < 0 {
		return -s
	}
	return s
}

// dyRound gives the integer t rounds to, in the given mode.
func (c *Ctx) dyRound(mode uint64, t *Term) *Term {
	x, k, d, ok := c.rat(t)
	if !ok || !fits53(x) {
		return nil
	}
	if k < 0 {
		s := c.scaleAny(x, new(big.Int).Lsh(big.NewInt(1), uint(-k)))
		if s == nil {
			return nil
		}
		x, k = s, 0
	}
	if k > 50 || d > (int64(1)<<52)>>uint(k) {
		return nil
	}
	D := d << uint(k)
	if D == 1 {
		return x
	}
	return c.ratRound(mode, x, D)
}

// ratRound rounds the rational x/D.
func (c *Ctx) ratRound(mode uint64, x *Term, D int64) *Term {
	if absMax(x) >= float64(int64(1)<<51) {
		return nil
	}
	dd := c.Int(D)
	fd := func(a *Term, q *Term) *Term { // floor division
		if a.lo >= 0 {
			return c.SDiv(a, q)
		}
		qm1 := c.Sub(q, c.Int(1))
		if a.hi < 0 {
			return c.Neg(c.SDiv(c.Add(c.Neg(a), qm1), q))
		}
		return c.Ite(c.Lt(a, c.Int(0)), c.Neg(c.SDiv(c.Add(c.Neg(a), qm1), q)), c.SDiv(a, q))
	}
	switch mode {
	case 1:
		return fd(x, dd)
	case 2:
		return c.Neg(fd(c.Neg(x), dd))
	case 3:
		return c.SDiv(x, dd)
	}
	d2 := c.Mul(dd, c.Int(2))
	up := func(a *Term) *Term { return c.SDiv(c.Add(c.Mul(a, c.Int(2)), dd), d2) }
	if x.lo >= 0 {
		return up(x)
	}
	return c.Ite(c.Lt(x, c.Int(0)), c.Neg(up(c.Neg(x))), up(x))
}

// hasFloatVar reports whether a float variable occurs in t.
func hasFloatVar(t *Term) bool {
	if t == nil || t.op == OConst {
		return false
	}
	if t.fv != 0 {
		return t.fv == 2
	}
	r := t.op == OVar && t.sort == SFloat
	r = r || hasFloatVar(t.a) || hasFloatVar(t.b) || hasFloatVar(t.c)
	for _, l := range t.lin {
		r = r || hasFloatVar(l.t)
	}
	t.fv = 1
	if r {
		t.fv = 2
	}
	return r
}

// An aff is a float read as the rational num/den (num a linear integer term)
// with an absolute error bound: |t - num/den| <= err.
type aff struct {
	num *Term
	den int64
	err float64
	max float64 // bound on |t|
}

const affDenMax = 1 << 40

// ratApprox finds a small rational within rounding error of f.
func ratApprox(f float64) (p, q int64, err float64, ok bool) {
	x := math.Abs(f)
	if x > 1e12 {
		return 0, 0, 0, false
	}
	if x == 0 {
		return 0, 1, 0, true
	}
	// continued fraction
	h0, h1, k0, k1 := int64(0), int64(1), int64(1), int64(0)
	r := x
	exact := new(big.Rat).SetFloat64(x)
	for i := 0; i < 40; i++ {
		a := math.Floor(r)
		if a > 1e12 {
			break
		}
		ai := int64(a)
		h2, k2 := ai*h1+h0, ai*k1+k0
		if k2 > 100000000 || h2 > 1<<50 || k2 < 0 || h2 < 0 {
			break
		}
		h0, h1, k0, k1 = h1, h2, k1, k2
		d := new(big.Rat).Sub(exact, big.NewRat(h1, k1))
		e, _ := d.Abs(d).Float64()
		if e <= x*math.Ldexp(1, -50) {
			if f < 0 {
				h1 = -h1
			}
			return h1, k1, e * (1 + 1e-9), true
		}
		if r-a < 1e-15 {
			break
		}
		r = 1 / (r - a)
	}
	return 0, 0, 0, false
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c *Ctx) aff(t *Term) *aff {
	if r, ok := c.affMemo[t]; ok {
		return r
	}
	r := c.aff1(t)
	if c.affMemo == nil {
		c.affMemo = map[*Term]*aff{}
	}
	c.affMemo[t] = r
	return r
}

func (c *Ctx) aff1(t *Term) *aff {
	const half = 1.0 / (1 << 53)
	scale := func(x *aff, p, q int64, cerr, cabs float64) *aff {
		g := gcd(absI(p), x.den)
		if g > 1 {
			p /= g
		} else {
			g = 1
		}
		den := new(big.Int).Mul(big.NewInt(x.den/g), big.NewInt(q))
		if !den.IsInt64() || den.Int64() > affDenMax {
			return nil
		}
		num := c.scaleAny(x.num, big.NewInt(p))
		if num == nil {
			return nil
		}
		m := x.max * cabs * (1 + 1e-9)
		e := (x.err*cabs + x.max*cerr + x.err*cerr + m*half) * (1 + 1e-9)
		return &aff{num, den.Int64(), e, m + e}
	}
	switch t.op {
	case OConst:
		f := math.Float64frombits(t.n)
		p, q, e, ok := ratApprox(f)
		if !ok {
			return nil
		}
		return &aff{c.Int(p), q, e, math.Abs(f)}
	case ODy:
		k := int64(t.n)
		if k < 0 || k > 40 {
			return nil
		}
		return &aff{t.a, int64(1) << uint(k), 0, math.Ldexp(absMax(t.a), int(-k))}
	case OFNeg:
		x := c.aff(t.a)
		if x == nil {
			return nil
		}
		return &aff{c.Neg(x.num), x.den, x.err, x.max}
	case OFMul, OFDiv:
		a, b := t.a, t.b
		if t.op == OFMul && a.isConst() {
			a, b = b, a
		}
		if !b.isConst() {
			return nil
		}
		f := math.Float64frombits(b.n)
		x := c.aff(a)
		if x == nil || f == 0 {
			return nil
		}
		p, q, e, ok := ratApprox(f)
		if !ok {
			return nil
		}
		if t.op == OFDiv {
			p, q = q, p
			if q < 0 {
				p, q = -p, -q
			}
			e = e / (f * f) * 1.001
			f = 1 / f
		}
		return scale(x, p, q, e, math.Abs(f))
	case OFAdd, OFSub:
		x, y := c.aff(t.a), c.aff(t.b)
		if x == nil || y == nil {
			return nil
		}
		g := gcd(x.den, y.den)
		den := new(big.Int).Mul(big.NewInt(x.den/g), big.NewInt(y.den))
		if !den.IsInt64() || den.Int64() > affDenMax {
			return nil
		}
		n1, n2 := c.scaleAny(x.num, big.NewInt(y.den/g)), c.scaleAny(y.num, big.NewInt(x.den/g))
		if n1 == nil || n2 == nil {
			return nil
		}
		n := c.Add(n1, n2)
		if t.op == OFSub {
			n = c.Sub(n1, n2)
		}
		m := (x.max + y.max) * (1 + 1e-9)
		e := (x.err + y.err + m*half) * (1 + 1e-9)
		return &aff{n, den.Int64(), e, m}
	}
	return nil
}

// affDiff gives an integer term with the sign of a-b wherever that term is
// not zero.
func (c *Ctx) affDiff(a, b *Term) (*Term, bool) {
	x, y := c.aff(a), c.aff(b)
	if x == nil || y == nil {
		return nil, false
	}
	g := gcd(x.den, y.den)
	den := float64(x.den/g) * float64(y.den)
	if !((x.err+y.err)*den < 0.5) {
		return nil, false
	}
	n1, n2 := c.scaleAny(x.num, big.NewInt(y.den/g)), c.scaleAny(y.num, big.NewInt(x.den/g))
	if n1 == nil || n2 == nil {
		return nil, false
	}
	return c.Sub(n1, n2), true
}

// settle turns a float the exact form cannot carry into its value, by
// splitting on the integers it is computed from.
func (m *Machine) settle(t *Term) *Term {
	if t.op == OConst || hasFloatVar(t) {
		return t
	}
	var vs []*Term
	collectVars(t, map[*Term]bool{}, &vs)
	// term ids differ between runs of the same path; names do not
	sort.Slice(vs, func(i, j int) bool { return vs[i].name < vs[j].name })
	for _, v := range vs {
		m.concretize(v)
	}
	m.settled++
	return m.ctx.Float(m.ctx.Eval(t))
}

func isFCmp(t *Term) bool {
	return (t.op == OFLt || t.op == OFLe || t.op == OFEq) && !hasFloatVar(t)
}

func (m *Machine) fcmp(op Op, a, b *Term) *Term {
	c := m.ctx
	a, b = m.fold(a), m.fold(b)
	r := c.fcmp(op, a, b)
	if !isFCmp(r) {
		return r
	}
	for i, t := range []*Term{a, b} {
		o := []*Term{b, a}[i]
		if t.isConst() && c.aff(o) != nil {
			if f := math.Float64frombits(t.n); math.IsNaN(f) || math.IsInf(f, 0) {
				return c.Bool(!math.IsNaN(f) && op != OFEq && (f < 0) == (i == 0))
			}
		}
	}
	// a*k ? 0 for a constant k has the sign of a
	for i, t := range []*Term{a, b} {
		o := []*Term{b, a}[i]
		if !t.isConst() || math.Float64frombits(t.n) != 0 {
			continue
		}
		neg := false
		for {
			switch {
			case o.op == OFNeg:
				neg, o = !neg, o.a
				continue
			case (o.op == OFMul || o.op == OFDiv) && o.b.isConst() && sizable(o.b):
				neg, o = neg != (math.Float64frombits(o.b.n) < 0), o.a
				continue
			case o.op == OFMul && o.a.isConst() && sizable(o.a):
				neg, o = neg != (math.Float64frombits(o.a.n) < 0), o.b
				continue
			}
			break
		}
		if o == a || o == b {
			break
		}
		if (i == 0) != neg {
			return m.fcmp(op, t, o)
		}
		return m.fcmp(op, o, t)
	}
	if a == b && c.aff(a) != nil {
		return c.Bool(op != OFLt)
	}
	if n, ok := c.affDiff(a, b); ok {
		if !m.branch(c.Eq(n, c.Int(0))) {
			if op == OFEq {
				return c.False
			}
			return c.Lt(n, c.Int(0))
		}
	}
	return c.fcmp(op, m.settle(a), m.settle(b))
}

// sizable: a factor that neither underflows nor overflows.
func sizable(t *Term) bool {
	f := math.Abs(math.Float64frombits(t.n))
	return f > 1e-20 && f < 1e20
}

// affRound rounds t by its rational reading, away from the points where the
// error could matter.
func (m *Machine) affRound(mode uint64, t *Term) *Term {
	c := m.ctx
	x := c.aff(t)
	if x == nil || !(x.err*float64(x.den)*2 < 0.5) || x.den > 1<<30 || absMax(x.num) > 1<<50 {
		return nil
	}
	d := c.Int(x.den)
	edge := x.num
	if mode == 0 {
		edge, d = c.Add(c.Mul(x.num, c.Int(2)), d), c.Int(2*x.den)
	}
	if m.branch(c.Eq(c.SRem(edge, d), c.Int(0))) {
		return nil
	}
	return c.ratRound(mode, x.num, x.den)
}

func (m *Machine) fround(mode uint64, a *Term) *Term {
	r := m.ctx.f1(OFRound, mode, a)
	if r.op != OFRound || hasFloatVar(r) {
		return r
	}
	if n := m.affRound(mode, a); n != nil {
		return m.ctx.dy(n, 0)
	}
	return m.ctx.f1(OFRound, mode, m.settle(a))
}

func (m *Machine) ftoi(a *Term) *Term {
	r := m.ctx.FtoI(a)
	if r.op != OFtoI || hasFloatVar(r) {
		return r
	}
	if n := m.affRound(3, a); n != nil {
		return n
	}
	return m.ctx.FtoI(m.settle(a))
}

// varMask gives the set of variables of t as a bit mask.
func (c *Ctx) varMask(t *Term) uint64 {
	if t == nil || t.op == OConst {
		return 0
	}
	if t.vmOK {
		return t.vm
	}
	var r uint64
	if t.op == OVar {
		if c.varIdx == nil {
			c.varIdx = map[string]int{}
		}
		i, ok := c.varIdx[t.name]
		if !ok {
			i = len(c.varIdx)
			c.varIdx[t.name] = i
		}
		r = 1 << uint(min(i, 63))
	} else {
		r = c.varMask(t.a) | c.varMask(t.b) | c.varMask(t.c)
		for _, l := range t.lin {
			r |= c.varMask(l.t)
		}
	}
	t.vm, t.vmOK = r, true
	return r
}

// pin records that the path fixes variable v.
func (m *Machine) pin(t *Term) {
	if t.op == OVar {
		if b := m.ctx.varMask(t); b != 1<<63 {
			m.path.pinned |= b
		}
	}
}

// fold replaces a float all of whose variables are fixed by its value.
func (m *Machine) fold(t *Term) *Term {
	if m.path.pinned == 0 || t.op == OConst || m.ctx.varMask(t)&^m.path.pinned != 0 {
		return t
	}
	n := m.ctx.Eval(t)
	if t.sort == SBool {
		return m.ctx.Bool(n != 0)
	}
	return m.ctx.mk(&Term{op: OConst, sort: t.sort, n: n, lo: int64(n), hi: int64(n)}, "")
}
