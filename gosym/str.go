package main

import (
	"strings"
	"unicode/utf8"
)

func symLen(t *Term) *Term { return t }

func strVal(us []unit) Value {
	conc := true
	for i := range us {
		u := &us[i]
		if u.k == 1 && u.t.isConst() {
			*u = unit{b: byte(u.t.n)}
		}
		if u.k == 2 && u.t.isConst() {
			conc2 := string(rune(int32(u.t.ci())))
			nu := make([]unit, 0, len(us)+3)
			nu = append(nu, us[:i]...)
			for j := 0; j < len(conc2); j++ {
				nu = append(nu, unit{b: conc2[j]})
			}
			nu = append(nu, us[i+1:]...)
			return strVal(nu)
		}
		if u.k != 0 {
			conc = false
		}
	}
	if conc {
		b := make([]byte, len(us))
		for i, u := range us {
			b[i] = u.b
		}
		return Value{p: string(b)}
	}
	return Value{p: &SymStr{us}}
}

func unitsOf(v Value) []unit {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		us := make([]unit, len(s))
		for i := 0; i < len(s); i++ {
			us[i] = unit{b: s[i]}
		}
		return us
	case *SymStr:
		return s.u
	}
	panic("unitsOf")
}

func concStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strCat(a, b Value) Value {
	x, ok := concStr(a)
	y, ok2 := concStr(b)
	if ok && ok2 {
		return Value{p: x + y}
	}
	if ok && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	ua, ub := unitsOf(a), unitsOf(b)
	us := make([]unit, 0, len(ua)+len(ub))
	us = append(append(us, ua...), ub...)
	return strVal(us)
}

// runeLen is the UTF-8 length of a symbolic rune (assumed a valid scalar
// value or encoded as U+FFFD, three bytes).
func (m *Machine) runeLen(t *Term) *Term {
	c := m.ctx
	in := func(lo, hi int64) *Term { return c.InRanges(t, [][2]int64{{lo, hi}}) }
	one := in(0, 0x7f)
	two := in(0x80, 0x7ff)
	four := in(0x10000, 0x10ffff)
	return c.Ite(one, c.Int(1), c.Ite(two, c.Int(2), c.Ite(four, c.Int(4), c.Int(3))))
}

func (m *Machine) unitLen(u unit) *Term {
	if u.k == 2 {
		return m.runeLen(u.t)
	}
	return m.ctx.Int(1)
}

func (m *Machine) strLen(v Value) Value {
	if s, ok := concStr(v); ok {
		return vint(len(s))
	}
	n := m.ctx.Int(0)
	for _, u := range v.p.(*SymStr).u {
		n = m.ctx.Add(n, m.unitLen(u))
	}
	return vterm(n)
}

// expandRune forks on the UTF-8 length of a symbolic rune and returns its bytes.
func (m *Machine) expandRune(t *Term) []unit {
	c := m.ctx
	n := int(m.concretize(m.runeLen(t)))
	by := func(shift int, base int64, mask int64) unit {
		x := t
		if shift > 0 {
			x = c.Ashr(t, c.Int(int64(shift)))
		}
		if mask != 0 {
			x = c.And(x, c.Int(mask))
		}
		x = c.Add(c.Int(base), x)
		if x.isConst() {
			return unit{b: byte(x.n)}
		}
		return unit{k: 1, t: c.Wrap(x, 8, false)}
	}
	switch n {
	case 1:
		return []unit{by(0, 0, 0)}
	case 2:
		return []unit{by(6, 0xc0, 0), by(0, 0x80, 0x3f)}
	case 3:
		return []unit{by(12, 0xe0, 0), by(6, 0x80, 0x3f), by(0, 0x80, 0x3f)}
	}
	return []unit{by(18, 0xf0, 0), by(12, 0x80, 0x3f), by(6, 0x80, 0x3f), by(0, 0x80, 0x3f)}
}

func (m *Machine) expandAll(us []unit) []unit {
	out := make([]unit, 0, len(us))
	for _, u := range us {
		if u.k == 2 {
			out = append(out, m.expandRune(u.t)...)
		} else {
			out = append(out, u)
		}
	}
	return out
}

func unitByte(u unit) Value {
	if u.k == 0 {
		return Value{n: uint64(u.b)}
	}
	return Value{p: u.t}
}

// runes views the units as whole runes: concrete multi-byte sequences are
// decoded; it fails if symbolic bytes occur.
func runesOf(us []unit) ([]Value, []int, bool) {
	var out []Value
	var n []int // number of units
	for i := 0; i < len(us); {
		switch us[i].k {
		case 2:
			out = append(out, Value{p: us[i].t})
			n = append(n, 1)
			i++
		case 1:
			return nil, nil, false
		default:
			j := i
			var buf [4]byte
			for j < len(us) && j-i < 4 && us[j].k == 0 {
				buf[j-i] = us[j].b
				j++
			}
			r, sz := utf8.DecodeRune(buf[:j-i])
			if r == utf8.RuneError && sz == 1 {
				return nil, nil, false
			}
			out = append(out, Value{n: uint64(r)})
			n = append(n, sz)
			i += sz
		}
	}
	return out, n, true
}

func (m *Machine) strEq(a, b Value) *Term {
	c := m.ctx
	x, ok := concStr(a)
	y, ok2 := concStr(b)
	if ok && ok2 {
		return c.Bool(x == y)
	}
	if ok2 {
		a, b, x, y, ok, ok2 = b, a, y, x, ok2, ok
	}
	ub := unitsOf(b)
	if ok && (x == "" || len(x) < len(ub)) {
		return c.False
	}
	ua := unitsOf(a)
	ra, _, o1 := runesOf(ua)
	rb, _, o2 := runesOf(ub)
	if o1 && o2 {
		if len(ra) != len(rb) {
			return c.False
		}
		r := c.True
		for i := range ra {
			r = c.BAnd(r, c.Eq(m.term(ra[i], kInt), m.term(rb[i], kInt)))
			if r == c.False {
				return r
			}
		}
		return r
	}
	// invalid UTF-8 on one side, whole runes only on the other: never equal
	ea, eb := m.expandAll(ua), m.expandAll(ub)
	if len(ea) != len(eb) {
		return c.False
	}
	r := c.True
	for i := range ea {
		r = c.BAnd(r, c.Eq(m.term(unitByte(ea[i]), kInt), m.term(unitByte(eb[i]), kInt)))
		if r == c.False {
			return r
		}
	}
	return r
}

// strLt is byte-lexicographic order.
func (m *Machine) strLt(a, b Value) *Term {
	c := m.ctx
	x, ok := concStr(a)
	y, ok2 := concStr(b)
	if ok && ok2 {
		return c.Bool(x < y)
	}
	ea, eb := m.expandAll(unitsOf(a)), m.expandAll(unitsOf(b))
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i >= len(eb) {
			return c.False
		}
		if i >= len(ea) {
			return c.True
		}
		p, q := m.term(unitByte(ea[i]), kInt), m.term(unitByte(eb[i]), kInt)
		return c.BOr(c.Lt(p, q), c.BAnd(c.Eq(p, q), rec(i+1)))
	}
	return rec(0)
}

// cut finds the unit index at byte offset off (0..len); it expands runes when
// the offset cannot be matched structurally. It returns the possibly expanded
// units and the index.
func (m *Machine) cut(us []unit, off Value) ([]unit, int) {
	c := m.ctx
	t := m.term(off, kInt)
	// structural match first
	cum := c.Int(0)
	for i := 0; i <= len(us); i++ {
		if cum == t {
			return us, i
		}
		if i < len(us) {
			cum = c.Add(cum, m.unitLen(us[i]))
		}
	}
	n := int64(m.concretize(t))
	pos := int64(0)
	for i := 0; i <= len(us); i++ {
		if pos == n {
			return us, i
		}
		if i == len(us) {
			break
		}
		if us[i].k == 2 {
			l := int64(m.concretize(m.runeLen(us[i].t)))
			if pos+l > n {
				ex := m.expandRune(us[i].t)
				nu := make([]unit, 0, len(us)+4)
				nu = append(nu, us[:i]...)
				nu = append(nu, ex...)
				nu = append(nu, us[i+1:]...)
				return nu, i + int(n-pos)
			}
			pos += l
		} else {
			pos++
		}
	}
	m.rtPanic("slice bounds out of range")
	return nil, 0
}

// strSlice is s[lo:hi] with nil Terms for omitted bounds.
func (m *Machine) strSlice(s Value, lo, hi *Value) Value {
	if str, ok := concStr(s); ok {
		l, h := 0, len(str)
		if lo != nil {
			l = m.idx(*lo)
		}
		if hi != nil {
			h = m.idx(*hi)
		}
		if l < 0 || h < l || h > len(str) {
			m.rtPanic("slice bounds out of range")
		}
		return Value{p: str[l:h]}
	}
	us := unitsOf(s)
	h := len(us)
	tot := m.strLen(s)
	c := m.ctx
	lt, ht := c.Int(0), m.term(tot, kInt)
	if lo != nil {
		lt = m.term(*lo, kInt)
	}
	if hi != nil {
		ht = m.term(*hi, kInt)
	}
	bad := c.BOr(c.BOr(c.Lt(lt, c.Int(0)), c.Lt(ht, lt)), c.Lt(m.term(tot, kInt), ht))
	if m.branch(bad) {
		m.rtPanic("slice bounds out of range")
	}
	if hi != nil {
		us, h = m.cut(us, *hi)
	}
	us = us[:h:h]
	l := 0
	if lo != nil {
		us, l = m.cut(us, *lo)
	}
	return strVal(append([]unit(nil), us[l:]...))
}

func (m *Machine) strIndex(s Value, i Value) Value {
	if str, ok := concStr(s); ok {
		if i.p == nil {
			n := int64(i.n)
			if n < 0 || n >= int64(len(str)) {
				m.rtPanic("index out of range")
			}
			return Value{n: uint64(str[n])}
		}
		k := m.idx(i)
		if k < 0 || k >= len(str) {
			m.rtPanic("index out of range")
		}
		return Value{n: uint64(str[k])}
	}
	t := m.term(i, kInt)
	n := m.term(m.strLen(s), kInt)
	if m.branch(m.ctx.BOr(m.ctx.Lt(t, m.ctx.Int(0)), m.ctx.Not(m.ctx.Lt(t, n)))) {
		m.rtPanic("index out of range")
	}
	us, k := m.cut(unitsOf(s), i)
	if us[k].k == 2 {
		return unitByte(m.expandRune(us[k].t)[0])
	}
	return unitByte(us[k])
}

// decodeAt decodes the rune starting at unit i and returns it with the number
// of units and its byte length.
func (m *Machine) decodeAt(us []unit, i int) (Value, int, Value) {
	switch us[i].k {
	case 2:
		return Value{p: us[i].t}, 1, vterm(m.runeLen(us[i].t))
	case 0:
		if us[i].b < utf8.RuneSelf {
			return Value{n: uint64(us[i].b)}, 1, vint(1)
		}
	}
	// up to four bytes
	var bs []Value
	allc := true
	for j := i; j < len(us) && len(bs) < 4; j++ {
		if us[j].k == 2 {
			break // a whole rune cannot continue a sequence
		}
		bs = append(bs, unitByte(us[j]))
		if us[j].k != 0 {
			allc = false
		}
	}
	if allc {
		var buf [4]byte
		for k := range bs {
			buf[k] = byte(bs[k].n)
		}
		r, sz := utf8.DecodeRune(buf[:len(bs)])
		return Value{n: uint64(r)}, sz, vint(sz)
	}
	r, sz := m.decodeRune(bs)
	return r, sz, vint(sz)
}

// decodeRune is utf8.DecodeRune over symbolic bytes, forking on the shape.
func (m *Machine) decodeRune(bs []Value) (Value, int) {
	c := m.ctx
	bad := Value{n: utf8.RuneError}
	if len(bs) == 0 {
		return bad, 0
	}
	b := func(i int) *Term { return m.term(bs[i], kInt) }
	in := func(t *Term, lo, hi int64) *Term {
		return c.InRanges(t, [][2]int64{{lo, hi}})
	}
	b0 := b(0)
	if m.branch(in(b0, 0, 0x7f)) {
		return bs[0], 1
	}
	type shape struct {
		lo, hi   int64 // first byte
		n        int
		slo, shi int64 // second byte
	}
	shapes := []shape{{0xc2, 0xdf, 2, 0x80, 0xbf}, {0xe0, 0xe0, 3, 0xa0, 0xbf}, {0xe1, 0xec, 3, 0x80, 0xbf}, {0xed, 0xed, 3, 0x80, 0x9f},
		{0xee, 0xef, 3, 0x80, 0xbf}, {0xf0, 0xf0, 4, 0x90, 0xbf}, {0xf1, 0xf3, 4, 0x80, 0xbf}, {0xf4, 0xf4, 4, 0x80, 0x8f}}
	ok := c.False
	for _, s := range shapes {
		if len(bs) < s.n {
			continue
		}
		q := c.BAnd(in(b0, s.lo, s.hi), in(b(1), s.slo, s.shi))
		for j := 2; j < s.n; j++ {
			q = c.BAnd(q, in(b(j), 0x80, 0xbf))
		}
		ok = c.BOr(ok, q)
	}
	if !m.branch(ok) {
		return bad, 1
	}
	n := 4
	switch {
	case m.branch(c.Lt(b0, c.Int(0xe0))):
		n = 2
	case m.branch(c.Lt(b0, c.Int(0xf0))):
		n = 3
	}
	lead := []int64{0, 0, 0xc0, 0xe0, 0xf0}[n]
	r := c.Sub(b0, c.Int(lead))
	for j := 1; j < n; j++ {
		r = c.Add(c.Mul(r, c.Int(64)), c.Sub(b(j), c.Int(0x80)))
	}
	r = c.Wrap(r, 32, true)
	return vterm(r), n
}

// strRunes is []rune(s).
func (m *Machine) strRunes(s Value) []Value {
	if str, ok := concStr(s); ok {
		var out []Value
		for _, r := range str {
			out = append(out, Value{n: uint64(r)})
		}
		return out
	}
	us := unitsOf(s)
	var out []Value
	for i := 0; i < len(us); {
		r, n, _ := m.decodeAt(us, i)
		out = append(out, r)
		i += n
	}
	return out
}

func (m *Machine) runesStr(rs []Value) Value {
	var us []unit
	for _, r := range rs {
		if t, ok := r.p.(*Term); ok {
			us = append(us, m.runeUnits(t)...)
		} else {
			s := string(rune(int32(r.n)))
			for j := 0; j < len(s); j++ {
				us = append(us, unit{b: s[j]})
			}
		}
	}
	return strVal(us)
}

// runeUnits encodes a symbolic rune as a string.
func (m *Machine) runeUnits(t *Term) []unit {
	valid := m.ctx.InRanges(t, [][2]int64{{0, 0xd7ff}, {0xe000, 0x10ffff}})
	if !m.branch(valid) {
		return []unit{{b: 0xef}, {b: 0xbf}, {b: 0xbd}}
	}
	return []unit{{k: 2, t: t}}
}

func (m *Machine) strBytes(s Value) []Value {
	us := m.expandAll(unitsOf(s))
	out := make([]Value, len(us))
	for i := range us {
		out[i] = unitByte(us[i])
	}
	return out
}

func bytesStr(bs []Value) Value {
	us := make([]unit, len(bs))
	for i, b := range bs {
		if t, ok := b.p.(*Term); ok {
			us[i] = unit{k: 1, t: t}
		} else {
			us[i] = unit{b: byte(b.n)}
		}
	}
	return strVal(us)
}

// needStr forces a string to be concrete, forking over its values.
func (m *Machine) needStr(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	var b strings.Builder
	for _, u := range v.p.(*SymStr).u {
		switch u.k {
		case 0:
			b.WriteByte(u.b)
		case 1:
			b.WriteByte(byte(m.concretize(u.t)))
		case 2:
			b.WriteRune(rune(m.concretize(u.t)))
		}
	}
	return b.String()
}

// evalStr evaluates a string under the current model.
func (m *Machine) evalStr(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	var b strings.Builder
	for _, u := range v.p.(*SymStr).u {
		switch u.k {
		case 0:
			b.WriteByte(u.b)
		case 1:
			b.WriteByte(byte(m.ctx.Eval(u.t)))
		case 2:
			b.WriteRune(rune(int32(m.ctx.Eval(u.t))))
		}
	}
	return b.String()
}
