package main

// Bounds that follow from single conditions of the path: for every linear form
// (without its constant) the interval the conditions so far leave for it. They
// settle most branches that only repeat what the path already knows, such as
// loop conditions, without asking the solver. Everything here is a function of
// the set of conditions, not of their order or of term ids, so that a replayed
// path decides exactly as the path it repeats.

type ival struct{ lo, hi int64 }

const ivLimit = int64(1) << 60

// form splits a linear term into its constant, the interned form with positive
// leading coefficient, and the sign.
func (c *Ctx) form(t *Term) (k int64, f *Term, s int64) {
	if t.op != OLin {
		return 0, t, 1
	}
	k = t.ci()
	if t.fform == nil {
		ls := t.lin
		t.fsign = 1
		if ls[0].c < 0 {
			t.fsign = -1
			ls = make([]LT, len(t.lin))
			for i, l := range t.lin {
				ls[i] = LT{-l.c, l.t}
			}
		}
		t.fform = c.mkLin(0, ls)
	}
	return k, t.fform, int64(t.fsign)
}

func small(lo, hi int64) bool { return lo > -ivLimit && hi < ivLimit }

// bounds is the interval of an integer term on this path.
func (p *Path) bounds(t *Term, depth int) (int64, int64) {
	lo, hi := t.lo, t.hi
	if t.op == OConst || depth > 5 {
		return lo, hi
	}
	switch t.op {
	case OLin:
		k, f, s := p.m.ctx.form(t)
		if small(lo, hi) {
			a, b := k, k
			ok := true
			for _, l := range t.lin {
				x, y := p.bounds(l.t, depth+1)
				if !small(x, y) || l.c > 1<<20 || l.c < -1<<20 || x > 1<<40 || x < -1<<40 || y > 1<<40 || y < -1<<40 {
					ok = false
					break
				}
				if l.c < 0 {
					x, y = y, x
				}
				a += l.c * x
				b += l.c * y
			}
			if ok {
				lo, hi = max(lo, a), min(hi, b)
			}
			if f != t {
				if iv, ok := p.bnd[f]; ok && small(iv.lo, iv.hi) {
					a, b := k+iv.lo, k+iv.hi
					if s < 0 {
						a, b = k-iv.hi, k-iv.lo
					}
					lo, hi = max(lo, a), min(hi, b)
				}
			}
		}
	case OIte:
		if len(p.bnd) > 0 || len(p.known) > 0 {
			switch p.decide(t.a, depth+1) {
			case 1:
				a, b := p.bounds(t.b, depth+1)
				lo, hi = max(lo, a), min(hi, b)
			case 2:
				a, b := p.bounds(t.c, depth+1)
				lo, hi = max(lo, a), min(hi, b)
			default:
				a, b := p.bounds(t.b, depth+1)
				x, y := p.bounds(t.c, depth+1)
				lo, hi = max(lo, min(a, x)), min(hi, max(b, y))
			}
		}
	}
	if iv, ok := p.bnd[t]; ok {
		lo, hi = max(lo, iv.lo), min(hi, iv.hi)
	}
	return lo, hi
}

// decide reports whether the path implies c (1), its negation (2) or, as far as
// can be seen without the solver, neither (0).
func (p *Path) decide(c *Term, depth int) int {
	if c.op == OConst {
		if c.n != 0 {
			return 1
		}
		return 2
	}
	if v, ok := p.known[c]; ok {
		if v {
			return 1
		}
		return 2
	}
	if depth > 5 {
		return 0
	}
	switch c.op {
	case ONot:
		if r := p.decide(c.a, depth); r != 0 {
			return 3 - r
		}
	case OBAnd:
		a, b := p.decide(c.a, depth+1), p.decide(c.b, depth+1)
		if a == 2 || b == 2 {
			return 2
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OBOr:
		a, b := p.decide(c.a, depth+1), p.decide(c.b, depth+1)
		if a == 1 || b == 1 {
			return 1
		}
		if a == 2 && b == 2 {
			return 2
		}
	case OPos:
		lo, hi := p.bounds(c.a, depth+1)
		if lo > 0 {
			return 1
		}
		if hi <= 0 {
			return 2
		}
	case OEqZ:
		lo, hi := p.bounds(c.a, depth+1)
		if lo > 0 || hi < 0 {
			return 2
		}
		if lo == 0 && hi == 0 {
			return 1
		}
	}
	return 0
}

// learn records the bounds a condition implies.
func (p *Path) learn(c *Term) {
	switch c.op {
	case OBAnd:
		p.learn(c.a)
		p.learn(c.b)
	case ONot:
		if c.a.op == OBOr {
			p.learn(p.m.ctx.Not(c.a.a))
			p.learn(p.m.ctx.Not(c.a.b))
		}
	case OPos:
		p.narrow(c.a, 1, ivLimit)
	case OEqZ:
		p.narrow(c.a, 0, 0)
	}
}

func (p *Path) narrow(t *Term, lo, hi int64) {
	if !small(t.lo, t.hi) {
		return
	}
	k, f, s := p.m.ctx.form(t)
	if !small(f.lo, f.hi) || k > ivLimit || k < -ivLimit {
		return
	}
	// lo <= k + s*f <= hi
	a, b := lo-k, hi-k
	if s < 0 {
		a, b = -b, -a
	}
	p.tighten(f, a, b)
	if f.op == OLin && len(f.lin) == 1 {
		// c*t with c > 0
		q := f.lin[0]
		p.tighten(q.t, ceilDiv(a, q.c), floorDiv(b, q.c))
	}
}

func (p *Path) tighten(f *Term, a, b int64) {
	iv, ok := p.bnd[f]
	if !ok {
		iv = ival{f.lo, f.hi}
	}
	if p.bnd == nil {
		p.bnd = map[*Term]ival{}
	}
	p.bnd[f] = ival{max(iv.lo, a), min(iv.hi, b)}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }
