package main

import (
	"regexp/syntax"
	"strings"
)

// regexp over symbolic bytes: leftmost-first backtracking over the compiled
// program; a test on a symbolic byte forks the path.

type reVal struct {
	src  string
	prog *syntax.Prog
	ncap int
}

func newRe(src string) *reVal {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		panic("engine: bad regexp " + src)
	}
	n := re.MaxCap()
	re = re.Simplify()
	p, err := syntax.Compile(re)
	if err != nil {
		panic("engine: bad regexp " + src)
	}
	return &reVal{src, p, 2 * (n + 1)}
}

func (m *Machine) runeInst(in *syntax.Inst, b Value) bool {
	if b.p == nil {
		r := rune(b.n)
		if r >= 0x80 {
			r = 0xfffd
		}
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return r != '\n'
		}
		return in.MatchRune(r)
	}
	t := b.p.(*Term)
	var rs [][2]int64
	for r := rune(0); r < 256; r++ {
		q := r
		if q >= 0x80 {
			q = 0xfffd
		}
		ok := false
		switch in.Op {
		case syntax.InstRuneAny:
			ok = true
		case syntax.InstRuneAnyNotNL:
			ok = q != '\n'
		default:
			ok = in.MatchRune(q)
		}
		if ok {
			if n := len(rs); n > 0 && rs[n-1][1] == int64(r)-1 {
				rs[n-1][1] = int64(r)
			} else {
				rs = append(rs, [2]int64{int64(r), int64(r)})
			}
		}
	}
	return m.branch(m.ctx.InRanges(t, rs))
}

// match returns the capture indices of the leftmost match, or nil.
func (m *Machine) reMatch(re *reVal, bs []Value) []int { return m.reMatchFrom(re, bs, 0) }

// reAll returns all matches that do not overlap, as FindAll does.
func (m *Machine) reAll(re *reVal, bs []Value, max int) (out [][]int) {
	prev := -1
	for pos := 0; pos <= len(bs) && (max < 0 || len(out) < max); {
		c := m.reMatchFrom(re, bs, pos)
		if c == nil {
			break
		}
		ok := true
		if c[1] == pos {
			ok = c[0] != prev
			// an empty match: go on behind the next character
			k := 1
			if pos < len(bs) {
				_, k = m.decodeRune(bs[pos:])
			}
			if k < 1 {
				k = 1
			}
			pos += k
		} else {
			pos = c[1]
		}
		prev = c[1]
		if ok {
			out = append(out, c)
		}
	}
	return out
}

func (m *Machine) reMatchFrom(re *reVal, bs []Value, from int) []int {
	caps := make([]int, re.ncap)
	type key struct {
		pc uint32
		i  int
	}
	for start := from; start <= len(bs); start++ {
		for i := range caps {
			caps[i] = -1
		}
		seen := map[key]bool{}
		var run func(pc uint32, i int) bool
		run = func(pc uint32, i int) bool {
			for {
				in := &re.prog.Inst[pc]
				switch in.Op {
				case syntax.InstFail:
					return false
				case syntax.InstMatch:
					caps[1] = i
					return true
				case syntax.InstNop:
					pc = in.Out
				case syntax.InstCapture:
					if int(in.Arg) < len(caps) {
						old := caps[in.Arg]
						caps[in.Arg] = i
						if run(in.Out, i) {
							return true
						}
						caps[in.Arg] = old
						return false
					}
					pc = in.Out
				case syntax.InstAlt, syntax.InstAltMatch:
					if seen[key{pc, i}] {
						return false
					}
					seen[key{pc, i}] = true
					if run(in.Out, i) {
						return true
					}
					pc = in.Arg
				case syntax.InstEmptyWidth:
					op := syntax.EmptyOp(in.Arg)
					if op&(syntax.EmptyBeginText) != 0 && i != 0 {
						return false
					}
					if op&(syntax.EmptyEndText) != 0 && i != len(bs) {
						return false
					}
					if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
						unsup("regexp assertion in %q", re.src)
					}
					pc = in.Out
				default:
					if i >= len(bs) || !m.runeInst(in, bs[i]) {
						return false
					}
					pc = in.Out
					i++
				}
			}
		}
		caps[0] = start
		if run(uint32(re.prog.Start), start) {
			return caps
		}
	}
	return nil
}

func reNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[name] = f }
	get := func(v Value) *reVal { return recv(v).p.(*reVal) }
	mk := func(g *G, _ fnT, a []Value) Value {
		v := Value{p: newRe(g.m.needStr(a[0]))}
		return Value{p: &v}
	}
	reg("regexp.MustCompile", mk)
	bytesOf := func(g *G, v Value) []Value {
		if _, ok := v.p.(*Slice); ok || v.p == nil {
			return sliceOf(v)
		}
		return g.m.strBytes(v)
	}
	ints := func(c []int) Value {
		if c == nil {
			return Value{}
		}
		vs := make([]Value, len(c))
		for i := range c {
			vs[i] = vint(c[i])
		}
		return Value{p: &Slice{vs}}
	}
	find := func(g *G, re *reVal, bs []Value) []int { return g.m.reMatch(re, bs) }
	reg("(*regexp.Regexp).FindSubmatchIndex", func(g *G, _ fnT, a []Value) Value {
		return ints(find(g, get(a[0]), bytesOf(g, a[1])))
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", n["(*regexp.Regexp).FindSubmatchIndex"])
	idx2 := func(g *G, _ fnT, a []Value) Value {
		c := find(g, get(a[0]), bytesOf(g, a[1]))
		if c == nil {
			return Value{}
		}
		return ints(c[:2])
	}
	reg("(*regexp.Regexp).FindIndex", idx2)
	reg("(*regexp.Regexp).FindStringIndex", idx2)
	reg("(*regexp.Regexp).Match", func(g *G, _ fnT, a []Value) Value {
		return vbool(find(g, get(a[0]), bytesOf(g, a[1])) != nil)
	})
	reg("(*regexp.Regexp).MatchString", n["(*regexp.Regexp).Match"])
	reg("(*regexp.Regexp).FindStringSubmatch", func(g *G, _ fnT, a []Value) Value {
		bs := g.m.strBytes(a[1])
		c := find(g, get(a[0]), bs)
		if c == nil {
			return Value{}
		}
		out := make([]Value, len(c)/2)
		for i := range out {
			out[i] = vstr("")
			if c[2*i] >= 0 {
				out[i] = bytesStr(bs[c[2*i]:c[2*i+1]])
			}
		}
		return Value{p: &Slice{out}}
	})
	reg("(*regexp.Regexp).FindSubmatch", func(g *G, _ fnT, a []Value) Value {
		bs := bytesOf(g, a[1])
		c := find(g, get(a[0]), bs)
		if c == nil {
			return Value{}
		}
		out := make([]Value, len(c)/2)
		for i := range out {
			if c[2*i] >= 0 {
				out[i] = Value{p: &Slice{bs[c[2*i]:c[2*i+1]:c[2*i+1]]}}
			}
		}
		return Value{p: &Slice{out}}
	})
	reg("(*regexp.Regexp).String", func(g *G, _ fnT, a []Value) Value { return vstr(get(a[0]).src) })
	reg("regexp.Compile", func(g *G, fn fnT, a []Value) Value {
		src := g.m.needStr(a[0])
		if _, err := syntax.Parse(src, syntax.Perl); err != nil {
			return tuple(Value{}, g.m.errorValue(err.Error()))
		}
		return tuple(mk(g, fn, a), Value{})
	})
	reg("regexp.MatchString", func(g *G, fn fnT, a []Value) Value {
		return tuple(vbool(find(g, get(mk(g, fn, a[:1])), bytesOf(g, a[1])) != nil), Value{})
	})
	reg("(*regexp.Regexp).NumSubexp", func(g *G, _ fnT, a []Value) Value { return vint(get(a[0]).ncap/2 - 1) })
	reg("(*regexp.Regexp).FindString", func(g *G, _ fnT, a []Value) Value {
		bs := bytesOf(g, a[1])
		if c := find(g, get(a[0]), bs); c != nil {
			return bytesStr(bs[c[0]:c[1]])
		}
		return vstr("")
	})
	reg("(*regexp.Regexp).Find", func(g *G, _ fnT, a []Value) Value {
		bs := bytesOf(g, a[1])
		if c := find(g, get(a[0]), bs); c != nil {
			return Value{p: &Slice{bs[c[0]:c[1]:c[1]]}}
		}
		return Value{}
	})
	all := func(each func(bs []Value, c []int) Value) nf {
		return func(g *G, _ fnT, a []Value) Value {
			bs := bytesOf(g, a[1])
			var out []Value
			for _, c := range g.m.reAll(get(a[0]), bs, g.m.idx(a[2])) {
				out = append(out, each(bs, c))
			}
			if out == nil {
				return Value{}
			}
			return Value{p: &Slice{out}}
		}
	}
	allIndex := all(func(_ []Value, c []int) Value { return ints(c[:2]) })
	reg("(*regexp.Regexp).FindAllIndex", allIndex)
	reg("(*regexp.Regexp).FindAllStringIndex", allIndex)
	allSub := all(func(_ []Value, c []int) Value { return ints(c) })
	reg("(*regexp.Regexp).FindAllSubmatchIndex", allSub)
	reg("(*regexp.Regexp).FindAllStringSubmatchIndex", allSub)
	reg("(*regexp.Regexp).FindAllString", all(func(bs []Value, c []int) Value { return bytesStr(bs[c[0]:c[1]]) }))
	reg("(*regexp.Regexp).FindAllStringSubmatch", all(func(bs []Value, c []int) Value {
		out := make([]Value, len(c)/2)
		for i := range out {
			out[i] = vstr("")
			if c[2*i] >= 0 {
				out[i] = bytesStr(bs[c[2*i]:c[2*i+1]])
			}
		}
		return Value{p: &Slice{out}}
	}))
	replace := func(g *G, re *reVal, bs []Value, by func(bs []Value, c []int) Value) Value {
		out, at := vstr(""), 0
		for _, c := range g.m.reAll(re, bs, -1) {
			out = strCat(strCat(out, bytesStr(bs[at:c[0]])), by(bs, c))
			at = c[1]
		}
		return strCat(out, bytesStr(bs[at:]))
	}
	literal := func(g *G, v Value, dollar bool) func([]Value, []int) Value {
		s := g.m.needStr(v)
		if dollar && strings.Contains(s, "$") {
			unsup("regexp replacement %q", s)
		}
		return func([]Value, []int) Value { return vstr(s) }
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(g *G, _ fnT, a []Value) Value {
		return replace(g, get(a[0]), bytesOf(g, a[1]), literal(g, a[2], true))
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(g *G, _ fnT, a []Value) Value {
		return replace(g, get(a[0]), bytesOf(g, a[1]), literal(g, a[2], false))
	})
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(g *G, _ fnT, a []Value) Value {
		return replace(g, get(a[0]), bytesOf(g, a[1]), func(bs []Value, c []int) Value {
			return g.callClosure(a[2].p.(*Closure), []Value{bytesStr(bs[c[0]:c[1]])})
		})
	})
	reg("(*regexp.Regexp).ReplaceAll", func(g *G, _ fnT, a []Value) Value {
		return Value{p: &Slice{g.m.strBytes(replace(g, get(a[0]), bytesOf(g, a[1]), literal(g, bytesStr(sliceOf(a[2])), true)))}}
	})
	// anything else of a compiled expression is not modelled
}
