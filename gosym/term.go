package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
)

// Terms. Integer terms denote the 64-bit pattern obtained by canonically
// extending a Go integer to 64 bits (sign extension for signed types, zero
// extension for unsigned ones); [lo,hi] bounds the pattern read as int64.
// Arithmetic is modulo 2^64, re-canonicalised by OWrap where a narrower type
// can overflow. The bounds only ever over-approximate.

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OWrap // n: width<<1|signed
	OIte
	OEqZ // a == 0
	OPos // a > 0 (no overflow in computing a)
	OLt  // signed a<b
	OULt
	ONot
	OBAnd
	OBOr
	OItoF
	OFtoI
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFRound // n: 0 RNA 1 floor 2 ceil 3 trunc
	OFLt
	OFLe
	OFEq
	OUItoF
	ODy // a * 2^-n, exact
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SFloat
)

type LT struct {
	c int64
	t *Term
}

type Domain struct {
	name string
	rs   [][2]int64 // sorted disjoint
}

type Term struct {
	op      Op
	sort    Sort
	id      int
	n       uint64 // const value, var index, op parameter
	a, b, c *Term
	lin     []LT
	lo, hi  int64
	name    string // variables
	dom     *Domain
	mask    uint64 // possible one bits for non-negative terms (ints), else all ones

	ep    uint32
	ev    uint64
	smt   string
	sg    uint32
	ismt  string
	isg   uint32
	nb    uint8
	fv    uint8
	vmOK  bool
	fform *Term // linear forms: see interval.go
	fsign int8
	vm    uint64 // variables occurring, by index (bit 63: any beyond)
}

type termKey struct {
	op      Op
	sort    Sort
	n       uint64
	a, b, c int
	s       string
}

type Ctx struct {
	tab     map[termKey]*Term
	next    int
	epoch   uint32
	model   map[string]uint64
	True    *Term
	False   *Term
	nTerms  int64
	affMemo map[*Term]*aff
	varIdx  map[string]int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}}
	c.True = c.mk(&Term{op: OConst, sort: SBool, n: 1}, "")
	c.False = c.mk(&Term{op: OConst, sort: SBool, n: 0}, "")
	return c
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(t *Term, extra string) *Term {
	k := termKey{t.op, t.sort, t.n, tid(t.a), tid(t.b), tid(t.c), extra}
	if x, ok := c.tab[k]; ok {
		return x
	}
	t.id = c.next
	c.next++
	c.nTerms++
	c.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) ci() int64     { return int64(t.n) }

func (c *Ctx) Int(v int64) *Term {
	return c.mk(&Term{op: OConst, sort: SInt, n: uint64(v), lo: v, hi: v}, "")
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Float(bits uint64) *Term {
	return c.mk(&Term{op: OConst, sort: SFloat, n: bits}, "")
}

func (c *Ctx) VarInt(name string, lo, hi int64, dom *Domain) *Term {
	dn := ""
	if dom != nil {
		dn = dom.name
	}
	key := fmt.Sprintf("%s|%d|%d|%s", name, lo, hi, dn)
	t := c.mk(&Term{op: OVar, sort: SInt, lo: lo, hi: hi, name: name, dom: dom}, key)
	return t
}
func (c *Ctx) VarFloat(name string) *Term {
	return c.mk(&Term{op: OVar, sort: SFloat, name: name}, name+"|f")
}

// ---- checked int64 helpers
func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	neg := (a < 0) != (b < 0)
	if hi != 0 || lo > 1<<63 || (lo == 1<<63 && !neg) {
		return 0, true
	}
	if neg {
		return -int64(lo), false
	}
	return int64(lo), false
}
func abs64(a int64) int64 { // MinInt64 maps to itself, whose uint64 value is right
	if a < 0 {
		return -a
	}
	return a
}

// ---- linear forms
func (c *Ctx) linParts(t *Term) (int64, []LT) {
	switch t.op {
	case OConst:
		return t.ci(), nil
	case OLin:
		return t.ci(), t.lin
	}
	return 0, []LT{{1, t}}
}

func (c *Ctx) mkLin(k int64, ls []LT) *Term {
	if len(ls) == 0 {
		return c.Int(k)
	}
	if len(ls) == 1 && ls[0].c == 1 && k == 0 {
		return ls[0].t
	}
	lo, hi, ov := k, k, false
	for _, l := range ls {
		a, o1 := mulOv(l.c, l.t.lo)
		b, o2 := mulOv(l.c, l.t.hi)
		if o1 || o2 {
			ov = true
			break
		}
		if a > b {
			a, b = b, a
		}
		var o3, o4 bool
		lo, o3 = addOv(lo, a)
		hi, o4 = addOv(hi, b)
		if o3 || o4 {
			ov = true
			break
		}
	}
	if ov {
		lo, hi = math.MinInt64, math.MaxInt64
	}
	buf := make([]byte, 0, len(ls)*12)
	for _, l := range ls {
		buf = binary.AppendVarint(buf, l.c)
		buf = binary.AppendUvarint(buf, uint64(l.t.id))
	}
	return c.mk(&Term{op: OLin, sort: SInt, n: uint64(k), lin: ls, lo: lo, hi: hi}, string(buf))
}

func (c *Ctx) addScaled(a *Term, b *Term, s int64) *Term {
	ka, la := c.linParts(a)
	kb, lb := c.linParts(b)
	out := make([]LT, 0, len(la)+len(lb))
	i, j := 0, 0
	for i < len(la) || j < len(lb) {
		switch {
		case j >= len(lb) || (i < len(la) && la[i].t.id < lb[j].t.id):
			out = append(out, la[i])
			i++
		case i >= len(la) || lb[j].t.id < la[i].t.id:
			out = append(out, LT{lb[j].c * s, lb[j].t})
			j++
		default:
			if cc := la[i].c + lb[j].c*s; cc != 0 {
				out = append(out, LT{cc, la[i].t})
			}
			i++
			j++
		}
	}
	return c.mkLin(ka+kb*s, out)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(a.ci() + b.ci())
	}
	return c.addScaled(a, b, 1)
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.addScaled(a, b, -1) }
func (c *Ctx) Neg(a *Term) *Term    { return c.addScaled(c.Int(0), a, -1) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		k := b.ci()
		switch k {
		case 0:
			return c.Int(0)
		case 1:
			return a
		}
		return c.addScaled(c.Int(0), a, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	ps := [4][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}}
	ok := true
	l, h := int64(math.MaxInt64), int64(math.MinInt64)
	for _, p := range ps {
		v, ov := mulOv(p[0], p[1])
		if ov {
			ok = false
			break
		}
		l, h = min(l, v), max(h, v)
	}
	if ok {
		lo, hi = l, h
	}
	return c.mk(&Term{op: OMul, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}

func typeRange(w int, signed bool) (int64, int64) {
	if w >= 64 {
		return math.MinInt64, math.MaxInt64
	}
	if signed {
		return -1 << (w - 1), 1<<(w-1) - 1
	}
	return 0, 1<<w - 1
}

func wrapConst(v uint64, w int, signed bool) uint64 {
	if w >= 64 {
		return v
	}
	if signed {
		return uint64(int64(v<<(64-w)) >> (64 - w))
	}
	return v & (1<<w - 1)
}

// Wrap re-canonicalises t to a w-bit type.
func (c *Ctx) Wrap(t *Term, w int, signed bool) *Term {
	if w >= 64 {
		return t
	}
	if t.isConst() {
		return c.Int(int64(wrapConst(t.n, w, signed)))
	}
	lo, hi := typeRange(w, signed)
	if t.lo >= lo && t.hi <= hi {
		return t
	}
	n := uint64(w) << 1
	if signed {
		n |= 1
	}
	return c.mk(&Term{op: OWrap, sort: SInt, n: n, a: t, lo: lo, hi: hi}, "")
}

// nonneg reports that the pattern is a non-negative int64.
func (t *Term) nonneg() bool { return t.lo >= 0 }

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.n != 0 {
		if b.ci() == -1 {
			return c.Int(-a.ci())
		}
		return c.Int(a.ci() / b.ci())
	}
	if b.isConst() && b.ci() == 1 {
		return a
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if a.lo > math.MinInt64 {
		m := max(abs64(a.lo), abs64(a.hi))
		lo, hi = -m, m
		if a.lo >= 0 && b.lo >= 0 {
			lo = 0
			if b.lo > 0 {
				hi = a.hi / b.lo
			}
		}
	}
	return c.mk(&Term{op: OSDiv, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.n != 0 {
		if b.ci() == -1 {
			return c.Int(0)
		}
		return c.Int(a.ci() % b.ci())
	}
	if b.lo > 0 && a.lo >= 0 && a.hi < b.lo {
		return a
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if b.lo > math.MinInt64 {
		m := max(abs64(b.lo), abs64(b.hi)) - 1
		if m >= 0 {
			lo, hi = -m, m
		}
	}
	if a.lo >= 0 {
		lo = 0
		hi = min(hi, a.hi)
	}
	return c.mk(&Term{op: OSRem, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}
func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return c.SDiv(a, b)
	}
	if a.isConst() && b.isConst() && b.n != 0 {
		return c.Int(int64(a.n / b.n))
	}
	return c.mk(&Term{op: OUDiv, sort: SInt, a: a, b: b, lo: math.MinInt64, hi: math.MaxInt64}, "")
}
func (c *Ctx) URem(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return c.SRem(a, b)
	}
	if a.isConst() && b.isConst() && b.n != 0 {
		return c.Int(int64(a.n % b.n))
	}
	return c.mk(&Term{op: OURem, sort: SInt, a: a, b: b, lo: math.MinInt64, hi: math.MaxInt64}, "")
}

func bitsFor(lo, hi int64) int {
	w := 1
	for w < 64 && (lo < -1<<(w-1) || hi > 1<<(w-1)-1) {
		w++
	}
	return w
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return c.Int(int64(a.n & b.n))
	}
	if a == b {
		return a
	}
	if b.isConst() {
		switch b.ci() {
		case 0:
			return b
		case -1:
			return a
		}
		// x & mask with x within a covering low mask
		if b.ci() > 0 && b.n&(b.n+1) == 0 && a.lo >= 0 && uint64(a.hi) <= b.n {
			return a
		}
		if a.op == OAnd && a.b.isConst() {
			return c.And(a.a, c.Int(int64(a.b.n&b.n)))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	w := max(bitsFor(a.lo, a.hi), bitsFor(b.lo, b.hi))
	lo, hi := typeRange(w, true)
	if a.lo >= 0 {
		lo, hi = 0, a.hi
	}
	if b.lo >= 0 {
		lo, hi = 0, min(hi, b.hi)
	}
	return c.mk(&Term{op: OAnd, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}

func orRange(a, b *Term) (int64, int64) {
	w := max(bitsFor(a.lo, a.hi), bitsFor(b.lo, b.hi))
	lo, hi := typeRange(w, true)
	if a.lo >= 0 && b.lo >= 0 {
		lo = 0
	}
	return lo, hi
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return c.Int(int64(a.n | b.n))
	}
	if a == b {
		return a
	}
	if b.isConst() {
		switch b.ci() {
		case 0:
			return a
		case -1:
			return b
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := orRange(a, b)
	return c.mk(&Term{op: OOr, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}
func (c *Ctx) Xor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return c.Int(int64(a.n ^ b.n))
	}
	if a == b {
		return c.Int(0)
	}
	if b.isConst() {
		if b.n == 0 {
			return a
		}
		if b.ci() == -1 && a.op == OXor && a.b.isConst() && a.b.ci() == -1 {
			return a.a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := orRange(a, b)
	if b.isConst() && b.ci() == -1 { // ^a = -1-a
		lo, hi = -1-a.hi, -1-a.lo
	}
	return c.mk(&Term{op: OXor, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.n >= 64 {
			return c.Int(0)
		}
		return c.Mul(a, c.Int(1<<b.n))
	}
	return c.mk(&Term{op: OShl, sort: SInt, a: a, b: b, lo: math.MinInt64, hi: math.MaxInt64}, "")
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if a.nonneg() {
		return c.Ashr(a, b)
	}
	if a.isConst() && b.isConst() {
		if b.n >= 64 {
			return c.Int(0)
		}
		return c.Int(int64(a.n >> b.n))
	}
	return c.mk(&Term{op: OLshr, sort: SInt, a: a, b: b, lo: math.MinInt64, hi: math.MaxInt64}, "")
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		s := b.n
		if s > 63 {
			s = 63
		}
		if s == 0 {
			return a
		}
		if a.isConst() {
			return c.Int(a.ci() >> s)
		}
		if a.lo>>s == a.hi>>s {
			return c.Int(a.lo >> s)
		}
		return c.mk(&Term{op: OAshr, sort: SInt, a: a, b: c.Int(int64(s)), lo: a.lo >> s, hi: a.hi >> s}, "")
	}
	lo, hi := min(a.lo, 0), max(a.hi, 0)
	if a.lo < 0 {
		lo = a.lo
		hi = max(hi, -1)
	}
	return c.mk(&Term{op: OAshr, sort: SInt, a: a, b: b, lo: lo, hi: hi}, "")
}

// ---- booleans
func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == ONot:
		return a.a
	case a.op == OPos:
		return c.Pos(c.Sub(c.Int(1), a.a))
	}
	return c.mk(&Term{op: ONot, sort: SBool, a: a}, "")
}
func (c *Ctx) BAnd(a, b *Term) *Term {
	switch {
	case a == c.True:
		return b
	case b == c.True:
		return a
	case a == c.False || b == c.False:
		return c.False
	case a == b:
		return a
	case c.isNeg(a, b):
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBAnd, sort: SBool, a: a, b: b}, "")
}
func (c *Ctx) isNeg(a, b *Term) bool {
	return (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a)
}
func (c *Ctx) BOr(a, b *Term) *Term {
	switch {
	case a == c.False:
		return b
	case b == c.False:
		return a
	case a == c.True || b == c.True:
		return c.True
	case a == b:
		return a
	case c.isNeg(a, b):
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBOr, sort: SBool, a: a, b: b}, "")
}

// constLeaves reports whether t is a tree of Ite with constant leaves (bounded).
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	return t.op == OIte && constLeaves(t.b, budget) && constLeaves(t.c, budget)
}

func (c *Ctx) mapLeaves(t *Term, f func(int64) *Term) *Term {
	if t.op == OConst {
		return f(t.ci())
	}
	return c.Ite(t.a, c.mapLeaves(t.b, f), c.mapLeaves(t.c, f))
}

func (c *Ctx) singleIte(d *Term) (int64, int64, *Term, bool) {
	k, l := c.linParts(d)
	if len(l) == 1 && l[0].t.op == OIte {
		b := 24
		if constLeaves(l[0].t, &b) {
			return k, l[0].c, l[0].t, true
		}
	}
	return 0, 0, nil, false
}

func (c *Ctx) eqz(d *Term) *Term {
	if d.isConst() {
		return c.Bool(d.n == 0)
	}
	if d.lo > 0 || d.hi < 0 {
		return c.False
	}
	if k, m, t, ok := c.singleIte(d); ok {
		return c.mapLeaves(t, func(v int64) *Term { return c.Bool(k+m*v == 0) })
	}
	if k, l := c.linParts(d); len(l) == 1 {
		// m*t == -k
		m := l[0].c
		if m == 1 || m == -1 {
			v := -k
			if m == -1 {
				v = k
			}
			t := l[0].t
			if v < t.lo || v > t.hi {
				return c.False
			}
			if t.dom != nil && !t.dom.has(v) {
				return c.False
			}
			d = c.mkLin(-v, []LT{{1, t}})
		}
	} else if len(l) > 0 && l[0].c < 0 {
		d = c.Neg(d)
	}
	return c.mk(&Term{op: OEqZ, sort: SBool, a: d}, "")
}
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort == SBool {
		switch {
		case a == c.True:
			return b
		case b == c.True:
			return a
		case a == c.False:
			return c.Not(b)
		case b == c.False:
			return c.Not(a)
		}
		return c.Ite(a, b, c.Not(b))
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	return c.eqz(c.Sub(a, b))
}

// Pos is d>0 where computing d did not overflow.
func (c *Ctx) Pos(d *Term) *Term {
	if d.lo > 0 {
		return c.True
	}
	if d.hi <= 0 {
		return c.False
	}
	if k, m, t, ok := c.singleIte(d); ok {
		return c.mapLeaves(t, func(v int64) *Term { return c.Bool(k+m*v > 0) })
	}
	return c.mk(&Term{op: OPos, sort: SBool, a: d}, "")
}

// Lt is signed a<b.
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.ci() < b.ci())
	}
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	// difference without overflow?
	h, o1 := addOv(b.hi, -a.lo)
	l, o2 := addOv(b.lo, -a.hi)
	if a.lo != math.MinInt64 && !o1 && !o2 && h < math.MaxInt64 && l > math.MinInt64+1 {
		d := c.Sub(b, a)
		if d.lo > math.MinInt64+1 && d.hi < math.MaxInt64 {
			return c.Pos(d)
		}
	}
	return c.mk(&Term{op: OLt, sort: SBool, a: a, b: b}, "")
}
func (c *Ctx) ULt(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return c.Lt(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.n < b.n)
	}
	if a == b {
		return c.False
	}
	return c.mk(&Term{op: OULt, sort: SBool, a: a, b: b}, "")
}

func (c *Ctx) Ite(cnd, a, b *Term) *Term {
	switch {
	case cnd == c.True:
		return a
	case cnd == c.False:
		return b
	case a == b:
		return a
	}
	if cnd.op == ONot {
		return c.Ite(cnd.a, b, a)
	}
	if a.sort == SBool {
		switch {
		case a == c.True:
			return c.BOr(cnd, b)
		case a == c.False:
			return c.BAnd(c.Not(cnd), b)
		case b == c.True:
			return c.BOr(c.Not(cnd), a)
		case b == c.False:
			return c.BAnd(cnd, a)
		}
	}
	return c.mk(&Term{op: OIte, sort: a.sort, a: cnd, b: a, c: b, lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}, "")
}

func (c *Ctx) Min(a, b *Term) *Term {
	l := c.Lt(b, a)
	return c.Ite(l, b, a)
}
func (c *Ctx) Max(a, b *Term) *Term {
	l := c.Lt(a, b)
	return c.Ite(l, b, a)
}

func (d *Domain) has(v int64) bool {
	i := sort.Search(len(d.rs), func(i int) bool { return d.rs[i][1] >= v })
	return i < len(d.rs) && d.rs[i][0] <= v
}

// InRanges is the condition that t lies in one of the sorted ranges.
func (c *Ctx) InRanges(t *Term, rs [][2]int64) *Term {
	if t.isConst() {
		d := Domain{rs: rs}
		return c.Bool(d.has(t.ci()))
	}
	r := c.False
	covered := t.dom != nil
	if t.dom != nil {
		// all of the domain inside?
		for _, q := range t.dom.rs {
			ok := false
			for _, p := range rs {
				if p[0] <= q[0] && q[1] <= p[1] {
					ok = true
					break
				}
			}
			if !ok {
				covered = false
				break
			}
		}
		if covered {
			return c.True
		}
	}
	for _, p := range rs {
		if p[1] < t.lo || p[0] > t.hi {
			continue
		}
		if t.dom != nil {
			hit := false
			for _, q := range t.dom.rs {
				if q[0] <= p[1] && p[0] <= q[1] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
		}
		in := c.BAnd(c.Not(c.Lt(t, c.Int(p[0]))), c.Not(c.Lt(c.Int(p[1]), t)))
		r = c.BOr(r, in)
	}
	return r
}

// ---- floats
func (c *Ctx) f1(op Op, n uint64, a *Term) *Term {
	t := &Term{op: op, sort: SFloat, n: n, a: a}
	if a.isConst() {
		return c.Float(c.evalOp(t, a.n, 0, 0))
	}
	switch op {
	case OFNeg:
		if a.op == ODy {
			return c.dy(c.Neg(a.a), int64(a.n))
		}
	case OFAbs:
		if a.op == ODy {
			return c.dy(c.Max(a.a, c.Neg(a.a)), int64(a.n))
		}
	case OFRound:
		if r := c.dyRound(n, a); r != nil {
			return c.dy(r, 0)
		}
	}
	return c.mk(t, "")
}
func (c *Ctx) f2(op Op, a, b *Term) *Term {
	t := &Term{op: op, sort: SFloat, a: a, b: b}
	if a.isConst() && b.isConst() {
		return c.Float(c.evalOp(t, a.n, b.n, 0))
	}
	if r := c.dyArith(op, a, b); r != nil {
		return r
	}
	return c.mk(t, "")
}
func (c *Ctx) fcmp(op Op, a, b *Term) *Term {
	t := &Term{op: op, sort: SBool, a: a, b: b}
	if a.isConst() && b.isConst() {
		return c.Bool(c.evalOp(t, a.n, b.n, 0) != 0)
	}
	if r := c.dyCmp(op, a, b); r != nil {
		return r
	}
	return c.mk(t, "")
}
func (c *Ctx) ItoF(a *Term, unsigned bool) *Term {
	op := OItoF
	if unsigned && !a.nonneg() {
		op = OUItoF
	}
	t := &Term{op: op, sort: SFloat, a: a}
	if a.isConst() {
		return c.Float(c.evalOp(t, a.n, 0, 0))
	}
	if op == OItoF && fits53(a) {
		return c.dy(a, 0)
	}
	return c.mk(t, "")
}
func (c *Ctx) FtoI(a *Term) *Term {
	t := &Term{op: OFtoI, sort: SInt, a: a, lo: math.MinInt64, hi: math.MaxInt64}
	if a.isConst() {
		return c.Int(int64(c.evalOp(t, a.n, 0, 0)))
	}
	if r := c.dyRound(3, a); r != nil {
		return r
	}
	return c.mk(t, "")
}

// ---- evaluation under the current model
func (c *Ctx) SetModel(m map[string]uint64) {
	c.model = m
	c.epoch++
}

func (t *Term) defaultVal() uint64 {
	if t.sort == SFloat {
		return 0
	}
	if t.dom != nil {
		return uint64(t.dom.rs[0][0])
	}
	if t.lo <= 0 && t.hi >= 0 {
		return 0
	}
	return uint64(t.lo)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.n
	}
	if t.ep == c.epoch {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OVar:
		x, ok := c.model[t.name]
		if !ok || (t.sort == SInt && (int64(x) < t.lo || int64(x) > t.hi || (t.dom != nil && !t.dom.has(int64(x))))) {
			x = t.defaultVal()
		}
		v = x
	case OLin:
		s := t.n
		for _, l := range t.lin {
			s += uint64(l.c) * c.Eval(l.t)
		}
		v = s
	case OIte:
		if c.Eval(t.a) != 0 {
			v = c.Eval(t.b)
		} else {
			v = c.Eval(t.c)
		}
	case OBAnd:
		v = b2u(c.Eval(t.a) != 0 && c.Eval(t.b) != 0)
	case OBOr:
		v = b2u(c.Eval(t.a) != 0 || c.Eval(t.b) != 0)
	default:
		var a, b uint64
		if t.a != nil {
			a = c.Eval(t.a)
		}
		if t.b != nil {
			b = c.Eval(t.b)
		}
		v = c.evalOp(t, a, b, 0)
	}
	t.ep, t.ev = c.epoch, v
	return v
}

func goFtoI(f float64) int64 {
	if f >= -9223372036854775808 && f < 9223372036854775808 {
		return int64(f)
	}
	return math.MinInt64
}

func (c *Ctx) evalOp(t *Term, a, b, _ uint64) uint64 {
	fa, fb := math.Float64frombits(a), math.Float64frombits(b)
	switch t.op {
	case OMul:
		return a * b
	case OSDiv:
		if b == 0 {
			return ^uint64(0)
		}
		if int64(b) == -1 {
			return -a
		}
		return uint64(int64(a) / int64(b))
	case OSRem:
		if b == 0 {
			return a
		}
		if int64(b) == -1 {
			return 0
		}
		return uint64(int64(a) % int64(b))
	case OUDiv:
		if b == 0 {
			return ^uint64(0)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= 64 {
			return 0
		}
		return a << b
	case OLshr:
		if b >= 64 {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= 64 {
			b = 63
		}
		return uint64(int64(a) >> b)
	case OWrap:
		return wrapConst(a, int(t.n>>1), t.n&1 == 1)
	case OEqZ:
		return b2u(a == 0)
	case OPos:
		return b2u(int64(a) > 0)
	case OLt:
		return b2u(int64(a) < int64(b))
	case OULt:
		return b2u(a < b)
	case ONot:
		return b2u(a == 0)
	case OItoF:
		return math.Float64bits(float64(int64(a)))
	case OUItoF:
		return math.Float64bits(float64(a))
	case ODy:
		return math.Float64bits(math.Ldexp(float64(int64(a)), int(-int64(t.n))))
	case OFtoI:
		return uint64(goFtoI(fa))
	case OFAdd:
		return math.Float64bits(fa + fb)
	case OFSub:
		return math.Float64bits(fa - fb)
	case OFMul:
		return math.Float64bits(fa * fb)
	case OFDiv:
		return math.Float64bits(fa / fb)
	case OFNeg:
		return math.Float64bits(-fa)
	case OFAbs:
		return math.Float64bits(math.Abs(fa))
	case OFRound:
		switch t.n {
		case 0:
			return math.Float64bits(math.Round(fa))
		case 1:
			return math.Float64bits(math.Floor(fa))
		case 2:
			return math.Float64bits(math.Ceil(fa))
		}
		return math.Float64bits(math.Trunc(fa))
	case OFLt:
		return b2u(fa < fb)
	case OFLe:
		return b2u(fa <= fb)
	case OFEq:
		return b2u(fa == fb)
	}
	panic(fmt.Sprintf("evalOp %d", t.op))
}

// collectVars gathers the variables t depends on.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
	for _, l := range t.lin {
		collectVars(l.t, seen, out)
	}
}
