package main

import (
	"bufio"
	"unsafe"

	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/rivo/uniseg"
	"golang.org/x/tools/go/ssa"
)

// ---- rune domains

func domRanges(pred func(r rune) bool) [][2]int64 {
	var rs [][2]int64
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		if pred(r) {
			if n := len(rs); n > 0 && rs[n-1][1] == int64(r)-1 {
				rs[n-1][1] = int64(r)
			} else {
				rs = append(rs, [2]int64{int64(r), int64(r)})
			}
		}
	}
	return rs
}

var domains = map[string][][2]int64{
	// printable ASCII without space
	"ascii": {{0x21, 0x7e}},
	// printable ASCII
	"text": {{0x20, 0x7e}},
	// narrow and wide letters, space, zero-width space, combining-free
	"mixed": {{0x20, 0x7e}, {0x200b, 0x200b}, {0x4e00, 0x9fff}},
	// the same without zero width
	"wide": {{0x20, 0x7e}, {0x4e00, 0x9fff}},
	// everything a string may contain, control characters included, except
	// characters that combine with their neighbours
	"any": {{0x00, 0x0c}, {0x0e, 0x7e}, {0x7f, 0x7f}, {0x85, 0x85}, {0xa0, 0xa0}, {0xe0, 0xff}, {0x2003, 0x2003}, {0x200b, 0x200b}, {0x2e3a, 0x2e3b}, {0x3000, 0x3000}, {0x4e00, 0x9fff}, {0x1f600, 0x1f64f}},
	// printable, of width one or two, no spaces
	"glyph":  {{0x21, 0x7e}, {0xe0, 0xf6}, {0x4e00, 0x9fff}},
	"narrow": {{0x20, 0x7e}, {0xe0, 0xf6}},
	// words: letters, wide letters, spaces of several kinds
	"words": {{0x20, 0x20}, {0x61, 0x7a}, {0xa0, 0xa0}, {0x200b, 0x200b}, {0x4e00, 0x9fff}},
	// spaces of width one
	"blank": {{0x20, 0x20}, {0xa0, 0xa0}, {0x2003, 0x2003}},
	"line":  {{0x0a, 0x0a}, {0x20, 0x7e}, {0x4e00, 0x9fff}},
	// every scalar value that is not a control character, a space or a surrogate
	"printable": {{0x21, 0x7e}, {0x80, 0xd7ff}, {0xe000, 0x10ffff}},
	"pasted":    {{0, 0xd7ff}, {0xe000, 0x10ffff}},
	"cjk":       {{0x4e00, 0x9fff}},
	"ctl":       {{0x01, 0x09}, {0x0b, 0x0c}, {0x0e, 0x1f}, {0x7f, 0x7f}},
}

var (
	domMu    sync.Mutex
	domCache = map[string]*Domain{}
)

// rawDomain: for code that never looks at grapheme clusters or widths.
var rawDomain = map[string]bool{"printable": true, "pasted": true}

func getDomain(name string) *Domain {
	domMu.Lock()
	defer domMu.Unlock()
	if d, ok := domCache[name]; ok {
		return d
	}
	rs, ok := domains[name]
	if !ok {
		panic("unknown rune domain " + name)
	}
	for i := 1; i < len(rs); i++ {
		if rs[i][0] <= rs[i-1][1] {
			panic("rune domain " + name + " is not sorted")
		}
	}
	d := &Domain{name: name, rs: rs}
	// every rune of a domain must be a grapheme cluster of its own next to any
	// other rune of a domain
	for _, q := range rs {
		for r := q[0]; r <= q[1] && !rawDomain[name]; r++ {
			if !simpleRune(rune(r)) {
				panic(fmt.Sprintf("domain %s: U+%04X combines with its neighbours", name, r))
			}
		}
	}
	domCache[name] = d
	return d
}

func simpleRune(r rune) bool {
	s := string(r)
	for _, nb := range []string{"a", "世", "\u200b", "😀", " ", "\n", "à"} {
		c, rest, _, _ := uniseg.FirstGraphemeClusterInString(nb+s+nb, -1)
		if c != nb {
			return false
		}
		c, rest, _, _ = uniseg.FirstGraphemeClusterInString(rest, -1)
		if c != s || rest != nb {
			return false
		}
	}
	return true
}

type widthTab struct {
	ws []int
	rs [][][2]int64
}

var widthCache sync.Map

func widthsOf(dom *Domain) *widthTab {
	if rawDomain[dom.name] {
		unsup("width of a rune of domain %s", dom.name)
	}
	if w, ok := widthCache.Load(dom.name); ok {
		return w.(*widthTab)
	}
	m := map[int][][2]int64{}
	for _, q := range dom.rs {
		for r := q[0]; r <= q[1]; r++ {
			w := uniseg.StringWidth(string(rune(r)))
			l := m[w]
			if n := len(l); n > 0 && l[n-1][1] == r-1 {
				l[n-1][1] = r
			} else {
				l = append(l, [2]int64{r, r})
			}
			m[w] = l
		}
	}
	t := &widthTab{}
	for w := range m {
		t.ws = append(t.ws, w)
	}
	sort.Ints(t.ws)
	for _, w := range t.ws {
		t.rs = append(t.rs, m[w])
	}
	widthCache.Store(dom.name, t)
	return t
}

var asciiDom = &Domain{name: "!ascii", rs: [][2]int64{{0x20, 0x7e}}}

// runeWidth is the display width of a symbolic rune.
func (m *Machine) runeWidth(t *Term) Value {
	if t.isConst() {
		return vint(uniseg.StringWidth(string(rune(t.ci()))))
	}
	dom := t.dom
	if dom == nil {
		if m.branch(m.ctx.InRanges(t, asciiDom.rs)) {
			return vint(1)
		}
		r := m.concretize(t)
		return vint(uniseg.StringWidth(string(rune(int32(r)))))
	}
	w := widthsOf(dom)
	// the widest class of ranges goes last
	c := m.ctx
	r := c.Int(int64(w.ws[len(w.ws)-1]))
	for i := len(w.ws) - 2; i >= 0; i-- {
		r = c.Ite(c.InRanges(t, w.rs[i]), c.Int(int64(w.ws[i])), r)
	}
	return vterm(r)
}

// cluster is one grapheme cluster of a string.
type cluster struct {
	us []unit
	w  Value
}

func (m *Machine) clusters(s Value) []cluster {
	if str, ok := concStr(s); ok {
		var out []cluster
		state := -1
		for len(str) > 0 {
			c, rest, w, ns := uniseg.FirstGraphemeClusterInString(str, state)
			out = append(out, cluster{unitsOf(vstr(c)), vint(w)})
			str, state = rest, ns
		}
		return out
	}
	var out []cluster
	us := unitsOf(s)
	for i := 0; i < len(us); {
		switch us[i].k {
		case 2:
			t := us[i].t
			if t.dom == nil {
				if !m.branch(m.ctx.InRanges(t, asciiDom.rs)) {
					r := rune(int32(m.concretize(t)))
					nu := append([]unit(nil), us[:i]...)
					nu = append(nu, unitsOf(vstr(string(r)))...)
					us = append(nu, us[i+1:]...)
					continue
				}
			}
			out = append(out, cluster{us[i : i+1], m.runeWidth(t)})
			i++
		case 1:
			if m.branch(m.ctx.InRanges(us[i].t, asciiDom.rs)) {
				out = append(out, cluster{us[i : i+1], vint(1)})
				i++
				continue
			}
			v := byte(m.concretize(us[i].t))
			nu := append([]unit(nil), us...)
			nu[i] = unit{b: v}
			us = nu
		default:
			j := i
			var b []byte
			for j < len(us) && us[j].k == 0 {
				b = append(b, us[j].b)
				j++
			}
			str := string(b)
			if i > 0 {
				if c, _, _, _ := uniseg.FirstGraphemeClusterInString("a"+str, -1); c != "a" {
					unsup("text combining with a symbolic rune")
				}
			}
			cs := m.clusters(vstr(str))
			if j < len(us) {
				last := string(b[len(b)-len(cs[len(cs)-1].us):])
				if c, _, _, _ := uniseg.FirstGraphemeClusterInString(last+"a", -1); c != last {
					unsup("text combining with a symbolic rune")
				}
			}
			k := i
			for _, c := range cs {
				out = append(out, cluster{us[k : k+len(c.us)], c.w})
				k += len(c.us)
			}
			i = j
		}
	}
	return out
}

func (m *Machine) strWidth(s Value) Value {
	if str, ok := concStr(s); ok {
		return vint(uniseg.StringWidth(str))
	}
	w := m.ctx.Int(0)
	for _, c := range m.clusters(s) {
		w = m.ctx.Add(w, m.term(c.w, kInt))
	}
	return vterm(w)
}

type gIter struct {
	cs  []cluster
	cur int
}

// ---- predicates on runes

var predCache sync.Map

func (m *Machine) runePred(name string, f func(rune) bool, v Value) Value {
	if v.p == nil {
		return vbool(f(rune(int32(v.n))))
	}
	rs, ok := predCache.Load(name)
	if !ok {
		rs = domRanges(f)
		predCache.Store(name, rs)
	}
	t := v.p.(*Term)
	return vterm(m.ctx.InRanges(t, rs.([][2]int64)))
}

func recv(v Value) *Value {
	p, _ := v.p.(*Value)
	return p
}

func fieldp(v Value, i int) *Value {
	return &recv(v).p.(*Agg).v[i]
}

func lastField(v Value) *Value {
	a := recv(v).p.(*Agg).v
	return &a[len(a)-1]
}

// orBody wraps a native that may decline; then the SSA body runs.
func orBody(f func(g *G, args []Value) (Value, bool)) nativeFn {
	var bodies sync.Map
	return func(g *G, fn *ssa.Function, args []Value) Value {
		if v, ok := f(g, args); ok {
			return v
		}
		b, ok := bodies.Load(fn)
		if !ok {
			b, _ = bodies.LoadOrStore(fn, &cfunc{fn: fn, name: fn.String()})
		}
		return g.call(b.(*cfunc), args, nil)
	}
}

func strs(args []Value) ([]string, bool) {
	out := make([]string, len(args))
	for i, a := range args {
		s, ok := concStr(a)
		if !ok {
			return nil, false
		}
		out[i] = s
	}
	return out, true
}

func strSliceVal(ss []Value) Value {
	return Value{p: &Slice{ss}}
}

type nf = func(g *G, fn *ssa.Function, a []Value) Value

func natives() map[string]nativeFn {
	n := map[string]nativeFn{}
	reg := func(name string, f nf) { n[name] = f }
	symNatives(n)
	syncNatives(n)
	defer stdNatives(n)
	fmtNatives(n)
	reNatives(n)

	// uniseg
	reg("github.com/rivo/uniseg.StringWidth", func(g *G, fn *ssa.Function, a []Value) Value { return g.m.strWidth(a[0]) })
	reg("github.com/rivo/uniseg.NewGraphemes", func(g *G, fn *ssa.Function, a []Value) Value {
		v := Value{p: &gIter{g.m.clusters(a[0]), -1}}
		return Value{p: &v}
	})
	gi := func(v Value) *gIter {
		p := recv(v)
		if p == nil {
			return nil
		}
		return p.p.(*gIter)
	}
	reg("(*github.com/rivo/uniseg.Graphemes).Next", func(g *G, fn *ssa.Function, a []Value) Value {
		it := gi(a[0])
		it.cur++
		return vbool(it.cur < len(it.cs))
	})
	reg("(*github.com/rivo/uniseg.Graphemes).Str", func(g *G, fn *ssa.Function, a []Value) Value {
		it := gi(a[0])
		if it.cur < 0 || it.cur >= len(it.cs) {
			return vstr("")
		}
		return strVal(append([]unit(nil), it.cs[it.cur].us...))
	})
	reg("(*github.com/rivo/uniseg.Graphemes).Width", func(g *G, fn *ssa.Function, a []Value) Value {
		it := gi(a[0])
		if it.cur < 0 || it.cur >= len(it.cs) {
			return Value{}
		}
		return it.cs[it.cur].w
	})
	reg("(*github.com/rivo/uniseg.Graphemes).Runes", func(g *G, fn *ssa.Function, a []Value) Value {
		it := gi(a[0])
		if it.cur < 0 || it.cur >= len(it.cs) {
			return Value{}
		}
		return Value{p: &Slice{roundCap(g.m.strRunes(strVal(append([]unit(nil), it.cs[it.cur].us...))), 4)}}
	})
	reg("(*github.com/rivo/uniseg.Graphemes).Bytes", func(g *G, fn *ssa.Function, a []Value) Value {
		it := gi(a[0])
		return Value{p: &Slice{g.m.strBytes(strVal(append([]unit(nil), it.cs[it.cur].us...)))}}
	})
	reg("(*github.com/rivo/uniseg.Graphemes).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		gi(a[0]).cur = -1
		return Value{}
	})
	reg("github.com/rivo/uniseg.GraphemeClusterCount", func(g *G, fn *ssa.Function, a []Value) Value {
		return vint(len(g.m.clusters(a[0])))
	})
	reg("github.com/rivo/uniseg.FirstGraphemeClusterInString", func(g *G, fn *ssa.Function, a []Value) Value {
		cs := g.m.clusters(a[0])
		if len(cs) == 0 {
			return tuple(vstr(""), vstr(""), Value{}, a[1])
		}
		var rest []unit
		for _, c := range cs[1:] {
			rest = append(rest, c.us...)
		}
		return tuple(strVal(append([]unit(nil), cs[0].us...)), strVal(rest), cs[0].w, vi64(-1))
	})

	// termenv: the nearest of the 16 colours, which goes through a perceptual
	// colour space, is a table made with the library
	reg("github.com/muesli/termenv.ansi256ToANSIColor", func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.m.ctx
		near := func(i int) int64 { return int64(strings.IndexByte("0123456789abcdef", nearest16[i])) }
		if a[0].p == nil {
			return vint(int(near(int(a[0].n))))
		}
		t := a[0].p.(*Term)
		if t.lo < 0 || t.hi > 255 {
			return vint(int(near(int(int64(g.m.concretize(t))))))
		}
		groups := map[int64][][2]int64{}
		for i := t.lo; i <= t.hi; i++ {
			v := near(int(i))
			l := groups[v]
			if n := len(l); n > 0 && l[n-1][1] == i-1 {
				l[n-1][1] = i
			} else {
				l = append(l, [2]int64{i, i})
			}
			groups[v] = l
		}
		r := c.Int(0)
		for v := int64(0); v < 16; v++ {
			if l := groups[v]; l != nil {
				r = c.Ite(c.InRanges(t, l), c.Int(v), r)
			}
		}
		return vterm(r)
	})
	// termenv: the output of a harness is never a terminal
	reg("github.com/muesli/termenv.NewOutput", func(g *G, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return Value{p: &v}
	})
	reg("(*github.com/muesli/termenv.Output).ColorProfile", func(g *G, fn *ssa.Function, a []Value) Value { return Value{n: 3} })

	// unicode
	preds := map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsLetter": unicode.IsLetter,
		"IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsGraphic": unicode.IsGraphic,
		"IsMark": unicode.IsMark, "IsNumber": unicode.IsNumber, "IsSymbol": unicode.IsSymbol}
	for nm, f := range preds {
		reg("unicode."+nm, func(g *G, fn *ssa.Function, a []Value) Value { return g.m.runePred(nm, f, a[0]) })
	}

	// utf8
	reg("unicode/utf8.DecodeRune", func(g *G, fn *ssa.Function, a []Value) Value {
		s := sliceOf(a[0])
		return g.m.decodePair(s)
	})
	reg("unicode/utf8.DecodeRuneInString", func(g *G, fn *ssa.Function, a []Value) Value {
		us := unitsOf(a[0])
		if len(us) == 0 {
			return tuple(Value{n: utf8.RuneError}, Value{})
		}
		r, _, l := g.m.decodeAt(us, 0)
		return tuple(r, l)
	})
	reg("unicode/utf8.RuneCountInString", func(g *G, fn *ssa.Function, a []Value) Value { return vint(len(g.m.strRunes(a[0]))) })
	reg("unicode/utf8.RuneCount", func(g *G, fn *ssa.Function, a []Value) Value { return vint(len(g.m.strRunes(bytesStr(sliceOf(a[0]))))) })

	// strings, bytes
	reg("strings.Repeat", func(g *G, fn *ssa.Function, a []Value) Value {
		k := g.m.idx(a[1])
		if k < 0 {
			g.m.rtPanicPlain("strings: negative Repeat count")
		}
		if s, ok := concStr(a[0]); ok {
			if k*len(s) > 1<<22 {
				unsup("strings.Repeat of %d", k)
			}
			return vstr(strings.Repeat(s, k))
		}
		var us []unit
		for i := 0; i < k; i++ {
			us = append(us, unitsOf(a[0])...)
		}
		return strVal(us)
	})
	reg("strings.Join", func(g *G, fn *ssa.Function, a []Value) Value {
		r := vstr("")
		for i, s := range sliceOf(a[0]) {
			if i > 0 {
				r = strCat(r, a[1])
			}
			r = strCat(r, s)
		}
		return r
	})
	reg("strings.Clone", func(g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	split := func(g *G, s Value, sep string, keep bool, max int) []Value {
		m := g.m
		if str, ok := concStr(s); ok {
			var out []Value
			var ps []string
			if keep {
				ps = strings.SplitAfterN(str, sep, max)
			} else {
				ps = strings.SplitN(str, sep, max)
			}
			for _, p := range ps {
				out = append(out, vstr(p))
			}
			return out
		}
		if len(sep) != 1 || sep[0] >= 0x80 {
			unsup("strings.Split of a symbolic string by %q", sep)
		}
		us := unitsOf(s)
		var out []Value
		st := 0
		for i := range us {
			if max >= 0 && len(out) >= max-1 {
				break
			}
			if m.unitIs(us[i], sep[0]) {
				e := i
				if keep {
					e = i + 1
				}
				out = append(out, strVal(append([]unit(nil), us[st:e]...)))
				st = i + 1
			}
		}
		return append(out, strVal(append([]unit(nil), us[st:]...)))
	}
	reg("strings.Split", func(g *G, fn *ssa.Function, a []Value) Value {
		return strSliceVal(split(g, a[0], g.m.needStr(a[1]), false, -1))
	})
	reg("strings.SplitN", func(g *G, fn *ssa.Function, a []Value) Value {
		return strSliceVal(split(g, a[0], g.m.needStr(a[1]), false, g.m.idx(a[2])))
	})
	reg("strings.SplitAfter", func(g *G, fn *ssa.Function, a []Value) Value {
		return strSliceVal(split(g, a[0], g.m.needStr(a[1]), true, -1))
	})
	n["strings.Index"] = orBody(func(g *G, a []Value) (Value, bool) {
		if s, ok := strs(a); ok {
			return vint(strings.Index(s[0], s[1])), true
		}
		return g.m.strIndexOf(a[0], a[1]), true
	})
	n["strings.Contains"] = orBody(func(g *G, a []Value) (Value, bool) {
		if s, ok := strs(a); ok {
			return vbool(strings.Contains(s[0], s[1])), true
		}
		v := g.m.strIndexOf(a[0], a[1])
		return vterm(g.m.ctx.Not(g.m.ctx.Lt(g.m.term(v, kInt), g.m.ctx.Int(0)))), true
	})
	conc1 := func(name string, f func(s []string) Value) {
		n[name] = orBody(func(g *G, a []Value) (Value, bool) {
			if s, ok := strs(a); ok {
				return f(s), true
			}
			return Value{}, false
		})
	}
	conc1("strings.HasPrefix", func(s []string) Value { return vbool(strings.HasPrefix(s[0], s[1])) })
	conc1("strings.HasSuffix", func(s []string) Value { return vbool(strings.HasSuffix(s[0], s[1])) })
	conc1("strings.TrimSpace", func(s []string) Value { return vstr(strings.TrimSpace(s[0])) })
	conc1("strings.TrimRight", func(s []string) Value { return vstr(strings.TrimRight(s[0], s[1])) })
	conc1("strings.TrimLeft", func(s []string) Value { return vstr(strings.TrimLeft(s[0], s[1])) })
	conc1("strings.Trim", func(s []string) Value { return vstr(strings.Trim(s[0], s[1])) })
	conc1("strings.ToLower", func(s []string) Value { return vstr(strings.ToLower(s[0])) })
	conc1("strings.ToUpper", func(s []string) Value { return vstr(strings.ToUpper(s[0])) })
	conc1("strings.Count", func(s []string) Value { return vint(strings.Count(s[0], s[1])) })
	conc1("strings.LastIndex", func(s []string) Value { return vint(strings.LastIndex(s[0], s[1])) })
	conc1("strings.ReplaceAll", func(s []string) Value { return vstr(strings.ReplaceAll(s[0], s[1], s[2])) })
	conc1("strings.ContainsAny", func(s []string) Value { return vbool(strings.ContainsAny(s[0], s[1])) })
	n["strings.IndexByte"] = orBody(func(g *G, a []Value) (Value, bool) {
		return g.m.strIndexOf(a[0], bytesStr(a[1:2])), true
	})
	n["strings.ContainsRune"] = orBody(func(g *G, a []Value) (Value, bool) {
		s, ok := concStr(a[0])
		if ok && a[1].p == nil {
			return vbool(strings.ContainsRune(s, rune(int32(a[1].n)))), true
		}
		r := g.m.ctx.False
		for _, x := range g.m.strRunes(a[0]) {
			r = g.m.ctx.BOr(r, g.m.ctx.Eq(g.m.term(x, kInt), g.m.term(a[1], kInt)))
		}
		return vterm(r), true
	})
	reg("bytes.Equal", func(g *G, fn *ssa.Function, a []Value) Value {
		return vterm(g.m.strEq(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1]))))
	})
	reg("bytes.Index", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.m.strIndexOf(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})
	reg("bytes.Contains", func(g *G, fn *ssa.Function, a []Value) Value {
		v := g.m.strIndexOf(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
		return vterm(g.m.ctx.Not(g.m.ctx.Lt(g.m.term(v, kInt), g.m.ctx.Int(0))))
	})
	reg("bytes.IndexByte", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.m.strIndexOf(bytesStr(sliceOf(a[0])), bytesStr(a[1:2]))
	})
	reg("internal/bytealg.IndexByteString", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.m.strIndexOf(a[0], bytesStr(a[1:2]))
	})
	reg("internal/bytealg.IndexByte", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.m.strIndexOf(bytesStr(sliceOf(a[0])), bytesStr(a[1:2]))
	})
	reg("internal/bytealg.MakeNoZero", func(g *G, fn *ssa.Function, a []Value) Value {
		k := g.m.idx(a[0])
		return Value{p: &Slice{make([]Value, k)}}
	})

	// two slices overlap when their element cells do
	reg("slices.overlaps", func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		if len(x) == 0 || len(y) == 0 {
			return vbool(false)
		}
		at := func(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }
		return vbool(at(&x[0]) <= at(&y[len(y)-1]) && at(&y[0]) <= at(&x[len(x)-1]))
	})

	// strings.Builder keeps its text in the buf field as a string value
	sbuf := func(v Value) *Value { return fieldp(v, 1) }
	w := func(g *G, b Value, s Value) {
		p := sbuf(b)
		g.m.set(p, strCat(*p, s))
	}
	noErr := Value{}
	reg("(*strings.Builder).WriteString", func(g *G, fn *ssa.Function, a []Value) Value {
		w(g, a[0], a[1])
		return tuple(g.m.strLen(a[1]), noErr)
	})
	reg("(*strings.Builder).WriteByte", func(g *G, fn *ssa.Function, a []Value) Value {
		w(g, a[0], bytesStr(a[1:2]))
		return noErr
	})
	reg("(*strings.Builder).WriteRune", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.m.runesStr(a[1:2])
		w(g, a[0], s)
		return tuple(g.m.strLen(s), noErr)
	})
	reg("(*strings.Builder).Write", func(g *G, fn *ssa.Function, a []Value) Value {
		w(g, a[0], bytesStr(sliceOf(a[1])))
		return tuple(vint(len(sliceOf(a[1]))), noErr)
	})
	reg("(*strings.Builder).String", func(g *G, fn *ssa.Function, a []Value) Value {
		if recv(a[0]) == nil {
			g.m.nilPanic()
		}
		return *sbuf(a[0])
	})
	reg("(*strings.Builder).Len", func(g *G, fn *ssa.Function, a []Value) Value { return g.m.strLen(*sbuf(a[0])) })
	reg("(*strings.Builder).Cap", func(g *G, fn *ssa.Function, a []Value) Value { return g.m.strLen(*sbuf(a[0])) })
	reg("(*strings.Builder).Grow", func(g *G, fn *ssa.Function, a []Value) Value {
		if v := a[1]; v.p == nil && int64(v.n) < 0 {
			g.m.rtPanicPlain("strings.Builder.Grow: negative count")
		}
		return Value{}
	})
	reg("(*strings.Builder).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		g.m.set(sbuf(a[0]), Value{})
		return Value{}
	})

	// bufio.Scanner over a strings.Reader, splitting lines
	type scanner struct {
		rest   []unit
		tok    Value
		failed bool
	}
	reg("bufio.NewScanner", func(g *G, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil || i.t.String() != "*strings.Reader" {
			unsup("bufio.Scanner over something other than a strings.Reader")
		}
		v := Value{p: &scanner{rest: unitsOf(*fieldp(i.v, 0))}}
		return Value{p: &v}
	})
	reg("(*bufio.Scanner).Scan", func(g *G, fn *ssa.Function, a []Value) Value {
		s := recv(a[0]).p.(*scanner)
		if len(s.rest) == 0 {
			s.tok = vstr("")
			return vbool(false)
		}
		e := len(s.rest)
		next := e
		for i := range s.rest {
			if g.m.unitIs(s.rest[i], '\n') {
				e, next = i, i+1
				break
			}
		}
		line := s.rest[:e]
		if size := e; size >= bufio.MaxScanTokenSize/4 {
			for _, u := range line {
				if u.k == 2 {
					unsup("bufio.Scanner over a long line of symbolic runes")
				}
			}
			// the line does not fit the scanner's buffer
			if size >= bufio.MaxScanTokenSize {
				s.tok, s.rest, s.failed = vstr(""), nil, true
				return vbool(false)
			}
		}
		if e > 0 && g.m.unitIs(line[e-1], '\r') {
			line = line[:e-1]
		}
		s.tok = strVal(append([]unit(nil), line...))
		s.rest = s.rest[next:]
		return vbool(true)
	})
	reg("(*bufio.Scanner).Text", func(g *G, fn *ssa.Function, a []Value) Value { return recv(a[0]).p.(*scanner).tok })
	reg("(*bufio.Scanner).Err", func(g *G, fn *ssa.Function, a []Value) Value {
		if recv(a[0]).p.(*scanner).failed {
			unsup("the error of a bufio.Scanner")
		}
		return Value{}
	})
	reg("(*bufio.Scanner).Split", func(g *G, fn *ssa.Function, a []Value) Value { unsup("bufio.Scanner.Split"); return Value{} })

	// strconv
	n["strconv.Itoa"] = orBody(func(g *G, a []Value) (Value, bool) {
		if a[0].p == nil {
			return vstr(strconv.Itoa(int(int64(a[0].n)))), true
		}
		return g.m.itoa(a[0].p.(*Term)), true
	})
	n["strconv.FormatInt"] = orBody(func(g *G, a []Value) (Value, bool) {
		if a[0].p == nil {
			return vstr(strconv.FormatInt(int64(a[0].n), g.m.idx(a[1]))), true
		}
		if g.m.idx(a[1]) == 10 {
			return g.m.itoa(a[0].p.(*Term)), true
		}
		return Value{}, false
	})
	n["strconv.Atoi"] = orBody(func(g *G, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			if v, err := strconv.Atoi(s); err == nil {
				return tuple(vint(v), Value{}), true
			}
			return Value{}, false // the body makes the error
		}
		return g.m.atoi(a[0])
	})
	n["strconv.Quote"] = orBody(func(g *G, a []Value) (Value, bool) { return vstr(strconv.Quote(g.m.needStr(a[0]))), true })
	n["strconv.ParseInt"] = orBody(func(g *G, a []Value) (Value, bool) {
		s, ok := concStr(a[0])
		if !ok {
			return Value{}, false
		}
		v, err := strconv.ParseInt(s, g.m.idx(a[1]), g.m.idx(a[2]))
		if err != nil {
			return Value{}, false // the body makes the error
		}
		return tuple(vi64(v), Value{}), true
	})

	// math
	m1 := func(name string, f func(float64) float64, mode int) {
		reg("math."+name, func(g *G, fn *ssa.Function, a []Value) Value {
			if a[0].p == nil {
				return vf(f(fbits(a[0].n)))
			}
			if mode < 0 {
				unsup("math.%s of a symbolic value", name)
			}
			if mode == 9 {
				return vterm(g.m.ctx.f1(OFAbs, 0, a[0].p.(*Term)))
			}
			return vterm(g.m.fround(uint64(mode), a[0].p.(*Term)))
		})
	}
	m1("Round", math.Round, 0)
	m1("Floor", math.Floor, 1)
	m1("Ceil", math.Ceil, 2)
	m1("Trunc", math.Trunc, 3)
	m1("Abs", math.Abs, 9)
	m1("Sqrt", math.Sqrt, -1)
	m2 := func(name string, f func(a, b float64) float64) {
		reg("math."+name, func(g *G, fn *ssa.Function, a []Value) Value {
			if a[0].p == nil && a[1].p == nil {
				return vf(f(fbits(a[0].n), fbits(a[1].n)))
			}
			switch name {
			case "Max":
				return g.m.minmax(false, a[0], a[1], tinfo{k: kFloat})
			case "Min":
				return g.m.minmax(true, a[0], a[1], tinfo{k: kFloat})
			case "Mod":
				return g.m.floatMod(a[0], a[1])
			}
			unsup("math.%s of a symbolic value", name)
			return Value{}
		})
	}
	m2("Mod", math.Mod)
	m2("Max", math.Max)
	m2("Min", math.Min)
	m2("Pow", math.Pow)
	reg("math.Inf", func(g *G, fn *ssa.Function, a []Value) Value { return vf(math.Inf(int(int64(a[0].n)))) })
	reg("math.NaN", func(g *G, fn *ssa.Function, a []Value) Value { return vf(math.NaN()) })
	reg("math.IsNaN", func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].p == nil {
			return vbool(math.IsNaN(fbits(a[0].n)))
		}
		t := a[0].p.(*Term)
		return vterm(g.m.ctx.Not(g.m.fcmp(OFEq, t, t)))
	})
	reg("math.IsInf", func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].p == nil {
			return vbool(math.IsInf(fbits(a[0].n), int(int64(a[1].n))))
		}
		c := g.m.ctx
		t := a[0].p.(*Term)
		pos, neg := g.m.fcmp(OFEq, t, c.Float(math.Float64bits(math.Inf(1)))), g.m.fcmp(OFEq, t, c.Float(math.Float64bits(math.Inf(-1))))
		switch s := int64(a[1].n); {
		case s > 0:
			return vterm(pos)
		case s < 0:
			return vterm(neg)
		}
		return vterm(c.BOr(pos, neg))
	})
	reg("math.Float64bits", func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].p != nil {
			unsup("Float64bits of a symbolic value")
		}
		return a[0]
	})
	reg("math.Float64frombits", func(g *G, fn *ssa.Function, a []Value) Value { return a[0] })

	reg("maps.clone", func(g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].p.(*Iface)
		if x.v.p == nil {
			return a[0]
		}
		return Value{p: &Iface{t: x.t, v: Value{p: mapClone(x.v.p.(*Map))}}}
	})

	// errors
	reg("errors.Is", func(g *G, fn *ssa.Function, a []Value) Value { return vbool(g.errorsIs(a[0], a[1])) })

	// sort
	reg("sort.Slice", func(g *G, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Value{}
		}
		s := sliceOf(i.v)
		cl := a[1].p.(*Closure)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				r := g.callClosure(cl, []Value{vint(y), vint(y - 1)})
				lt := r.n != 0
				if t, ok := r.p.(*Term); ok {
					lt = g.m.branch(t)
				}
				if !lt {
					break
				}
				p, q := copyVal(s[y]), copyVal(s[y-1])
				g.m.store(&s[y], q)
				g.m.store(&s[y-1], p)
			}
		}
		return Value{}
	})
	n["sort.SliceStable"] = n["sort.Slice"]
	reg("runtime/debug.PrintStack", func(g *G, fn *ssa.Function, a []Value) Value { return Value{} })
	reg("runtime/debug.Stack", func(g *G, fn *ssa.Function, a []Value) Value { return Value{} })
	reg("runtime.KeepAlive", func(g *G, fn *ssa.Function, a []Value) Value { return Value{} })
	return n
}

func (m *Machine) rtPanicPlain(msg string) {
	panic(&targetPanic{v: m.errorValue(msg), what: msg, site: m.site()})
}

func (m *Machine) decodePair(s []Value) Value {
	if len(s) == 0 {
		return tuple(Value{n: utf8.RuneError}, Value{})
	}
	if len(s) > 4 {
		s = s[:4]
	}
	conc := true
	var buf [4]byte
	for i, v := range s {
		if v.p != nil {
			conc = false
			break
		}
		buf[i] = byte(v.n)
	}
	if conc {
		r, n := utf8.DecodeRune(buf[:len(s)])
		return tuple(Value{n: uint64(r)}, vint(n))
	}
	r, n := m.decodeRune(s)
	return tuple(r, vint(n))
}

// unitIs asks whether a unit is the given ASCII character.
func (m *Machine) unitIs(u unit, b byte) bool {
	if u.k == 0 {
		return u.b == b
	}
	return m.branch(m.ctx.Eq(u.t, m.ctx.Int(int64(b))))
}

func (m *Machine) strIndexOf(s, sub Value) Value {
	x, ok := concStr(s)
	y, ok2 := concStr(sub)
	if ok && ok2 {
		return vint(strings.Index(x, y))
	}
	if ok2 && y == "" {
		return vint(0)
	}
	us, vs := unitsOf(s), unitsOf(sub)
	ascii := ok2
	for i := 0; i < len(y); i++ {
		if y[i] >= 0x80 {
			ascii = false
		}
	}
	if !ascii {
		us, vs = m.expandAll(us), m.expandAll(vs)
	}
	off := m.ctx.Int(0)
	for i := 0; i+len(vs) <= len(us); i++ {
		c := m.ctx.True
		for j := range vs {
			c = m.ctx.BAnd(c, m.ctx.Eq(m.unitTerm(us[i+j]), m.unitTerm(vs[j])))
		}
		if m.branch(c) {
			return vterm(off)
		}
		off = m.ctx.Add(off, m.unitLen(us[i]))
	}
	return vi64(-1)
}

func (m *Machine) unitTerm(u unit) *Term {
	if u.k == 0 {
		return m.ctx.Int(int64(u.b))
	}
	return u.t
}

// itoa renders a symbolic integer, forking on its sign and number of digits.
func (m *Machine) itoa(t *Term) Value {
	c := m.ctx
	var us []unit
	if m.branch(c.Lt(t, c.Int(0))) {
		us = append(us, unit{b: '-'})
		t = c.Neg(t)
	}
	nd := 1
	p := int64(10)
	for nd < 18 && !m.branch(c.Lt(t, c.Int(p))) {
		nd++
		p *= 10
	}
	if nd >= 18 {
		unsup("Itoa of a huge symbolic value")
	}
	p /= 10
	for ; p > 0; p /= 10 {
		d := c.SRem(c.SDiv(t, c.Int(p)), c.Int(10))
		if p == 1 {
			d = c.SRem(t, c.Int(10))
		}
		d = c.Add(c.Int('0'), d)
		if d.isConst() {
			us = append(us, unit{b: byte(d.n)})
		} else {
			us = append(us, unit{k: 1, t: d})
		}
	}
	return strVal(us)
}

// atoi parses a symbolic string of at most 9 symbolic digits.
func (m *Machine) atoi(s Value) (Value, bool) {
	us := unitsOf(s)
	if len(us) == 0 || len(us) > 9 {
		return Value{}, false
	}
	c := m.ctx
	ok := c.True
	v := c.Int(0)
	for _, u := range us {
		t := m.unitTerm(u)
		ok = c.BAnd(ok, c.InRanges(t, [][2]int64{{'0', '9'}}))
	}
	if !m.branch(ok) {
		return Value{}, false
	}
	for _, u := range us {
		t := m.unitTerm(u)
		d := c.Sub(t, c.Int('0'))
		if !d.isConst() && (d.lo < 0 || d.hi > 9) {
			// the digit is known to be in range on this path
			x := c.mk(&Term{op: OWrap, sort: SInt, n: 8<<1 | 0, a: d, lo: 0, hi: 255}, "")
			d = x
		}
		v = c.Add(c.Mul(v, c.Int(10)), d)
	}
	return tuple(vterm(v), Value{}), true
}

// floatMod encodes math.Mod(x, 1) for a symbolic x.
func (m *Machine) floatMod(a, b Value) Value {
	if b.p == nil && fbits(b.n) == 1 {
		c := m.ctx
		x := m.term(a, kFloat)
		inf := m.fcmp(OFLe, c.Float(math.Float64bits(9007199254740992)), c.f1(OFAbs, 0, x))
		if m.branch(c.BOr(inf, c.Not(m.fcmp(OFEq, x, x)))) {
			unsup("math.Mod of a huge symbolic value")
		}
		// x - trunc(x) is exact below 2^53
		return vterm(c.f2(OFSub, x, m.fround(3, x)))
	}
	unsup("math.Mod of a symbolic value")
	return Value{}
}

func (g *G) errorsIs(err, target Value) bool {
	m := g.m
	if err.p == nil || target.p == nil {
		return err.p == nil && target.p == nil
	}
	tt := target.p.(*Iface)
	var is func(e *Iface) bool
	is = func(e *Iface) bool {
		if types.Identical(e.t, tt.t) && types.Comparable(e.t) && m.branch(m.eq(e.t, e.v, tt.v)) {
			return true
		}
		if f := g.m.e.lookupMeth(e.t, "Is"); f != nil && len(f.fn.Params) == 2 {
			r := g.call(f, []Value{e.v, target}, nil)
			if t, ok := r.p.(*Term); ok {
				if m.branch(t) {
					return true
				}
			} else if r.n != 0 {
				return true
			}
		}
		if f := g.m.e.lookupMeth(e.t, "Unwrap"); f != nil {
			r := g.call(f, []Value{e.v}, nil)
			switch x := r.p.(type) {
			case *Iface:
				return is(x)
			case *Slice:
				for _, y := range x.a {
					if i, ok := y.p.(*Iface); ok && is(i) {
						return true
					}
				}
			}
		}
		return false
	}
	return is(err.p.(*Iface))
}

func (e *Engine) lookupMeth(t types.Type, name string) *cfunc {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			if fn := e.prog.MethodValue(s); fn != nil {
				return e.cfunc(fn)
			}
		}
	}
	return nil
}

// nearest16[i] is termenv.ANSI.Convert(termenv.ANSI256Color(i)).
const nearest16 = "0123456789abcdef0444cc26cccc2266cc22266caaaeeeaaaaee15cccc38cccc226ccc22266caaaaeeaaaaee1555cc38dccc338ccc3aa6ccaaaaeeaaaaae15555c98dddd398ddd3337ccbaaaeeaaaaae9ddddd99dddd999ddd3377ddbbbb7dbbbaae99dddd999ddd999dddb999ddbbbb9dbbbbbf0000008888888888777777ff"
