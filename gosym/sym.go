package main

import (
	"fmt"
	"go/types"
)

const symPkg = "github.com/metafates/bento/internal/zzsym"

func (p *Path) addDraw(name, kind string, v Value) {
	p.draws = append(p.draws, draw{Name: name, Kind: kind, v: v})
}

// drawRune makes a symbolic rune of a domain.
func (m *Machine) drawRune(name string, dom *Domain) *Term {
	p := m.path
	nm := p.fresh(name)
	lo, hi := dom.rs[0][0], dom.rs[len(dom.rs)-1][1]
	v := m.ctx.VarInt(nm, lo, hi, dom)
	if !v.isConst() {
		p.noteVar(v)
	}
	p.addDraw(nm, "int", vterm(v))
	return v
}

func symNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[symPkg+"."+name] = f }
	conc := func(v Value) string {
		s, ok := concStr(v)
		if !ok {
			panic("engine: symbolic name")
		}
		return s
	}
	reg("Symbolic", func(g *G, _ fnT, a []Value) Value { return vbool(true) })
	reg("Int", func(g *G, _ fnT, a []Value) Value {
		p := g.m.path
		nm := p.fresh(conc(a[0]))
		lo, hi := int64(a[1].n), int64(a[2].n)
		if a[1].p != nil || a[2].p != nil {
			lo, hi = int64(g.m.idx(a[1])), int64(g.m.idx(a[2]))
		}
		if lo > hi {
			panic(abandon{})
		}
		v := g.m.ctx.VarInt(nm, lo, hi, nil)
		if !v.isConst() {
			p.noteVar(v)
		}
		p.addDraw(nm, "int", vterm(v))
		return vterm(v)
	})
	reg("Byte", func(g *G, _ fnT, a []Value) Value {
		p := g.m.path
		nm := p.fresh(conc(a[0]))
		v := g.m.ctx.VarInt(nm, 0, 255, nil)
		p.noteVar(v)
		p.addDraw(nm, "int", vterm(v))
		return vterm(v)
	})
	reg("Bool", func(g *G, _ fnT, a []Value) Value {
		p := g.m.path
		nm := p.fresh(conc(a[0]))
		v := g.m.ctx.VarInt(nm, 0, 1, nil)
		p.noteVar(v)
		p.addDraw(nm, "int", vterm(v))
		return vterm(g.m.ctx.Eq(v, g.m.ctx.Int(1)))
	})
	reg("Rune", func(g *G, _ fnT, a []Value) Value {
		return vterm(g.m.drawRune(conc(a[0]), getDomain(conc(a[1]))))
	})
	reg("Str", func(g *G, _ fnT, a []Value) Value {
		k := g.m.idx(a[1])
		dom := getDomain(conc(a[2]))
		us := make([]unit, k)
		for i := range us {
			us[i] = unit{k: 2, t: g.m.drawRune(conc(a[0]), dom)}
		}
		return strVal(us)
	})
	reg("Bytes", func(g *G, _ fnT, a []Value) Value {
		k := g.m.idx(a[1])
		vs := make([]Value, k)
		p := g.m.path
		for i := range vs {
			nm := p.fresh(conc(a[0]))
			v := g.m.ctx.VarInt(nm, 0, 255, nil)
			p.noteVar(v)
			p.addDraw(nm, "int", vterm(v))
			vs[i] = vterm(v)
		}
		return Value{p: &Slice{vs}}
	})
	reg("Float", func(g *G, _ fnT, a []Value) Value {
		p := g.m.path
		nm := p.fresh(conc(a[0]))
		v := g.m.ctx.VarFloat(nm)
		p.noteVar(v)
		p.addDraw(nm, "float", vterm(v))
		return vterm(v)
	})
	reg("Choice", func(g *G, _ fnT, a []Value) Value {
		m := g.m
		nm := conc(a[0])
		k := m.idx(a[1])
		if k <= 0 {
			panic(abandon{})
		}
		full := nm
		if c := m.path.names["!"+nm]; c > 0 {
			full = fmt.Sprintf("%s#%d", nm, c)
		}
		if k == 1 {
			m.path.names["!"+nm]++
		}
		r := m.choose(nm, k)
		m.path.addDraw("!"+full, "int", vint(r))
		return vint(r)
	})
	reg("Assume", func(g *G, _ fnT, a []Value) Value {
		g.m.assume(g.m.term(a[0], kBool))
		return Value{}
	})
	reg("Assert", func(g *G, _ fnT, a []Value) Value {
		g.m.assert(g.m.term(a[0], kBool), g.m.needStr(a[1]))
		return Value{}
	})
	reg("Fail", func(g *G, _ fnT, a []Value) Value {
		msg := g.m.needStr(a[0])
		g.m.violation("assert", msg)
		panic(&endPath{"violation", msg})
	})
	reg("Cover", func(g *G, _ fnT, a []Value) Value {
		g.m.path.covers[conc(a[0])] = true
		return Value{}
	})
	reg("ObserveInt", func(g *G, _ fnT, a []Value) Value {
		g.m.path.observe(conc(a[0]), a[1], kInt)
		return Value{}
	})
	reg("ObserveBool", func(g *G, _ fnT, a []Value) Value {
		g.m.path.observe(conc(a[0]), a[1], kBool)
		return Value{}
	})
	reg("ObserveStr", func(g *G, _ fnT, a []Value) Value {
		g.m.path.observe(conc(a[0]), a[1], kString)
		return Value{}
	})
	reg("Bound", func(g *G, _ fnT, a []Value) Value {
		nm := conc(a[0])
		v := a[1]
		if g.m.e.opts.Tier == "thorough" {
			v = a[2]
		}
		if x, ok := g.m.e.opts.Bounds[nm]; ok {
			v = vint(x)
		}
		g.m.e.run.mu.Lock()
		if g.m.e.run.bounds == nil {
			g.m.e.run.bounds = map[string]int{}
		}
		g.m.e.run.bounds[nm] = int(v.n)
		g.m.e.run.mu.Unlock()
		return v
	})
	reg("MapOrder", func(g *G, _ fnT, a []Value) Value {
		g.m.mapMode = g.m.idx(a[0])
		return Value{}
	})
	reg("Steps", func(g *G, _ fnT, a []Value) Value {
		g.m.path.stepLimit = g.m.path.steps + int64(g.m.idx(a[0]))
		return Value{}
	})
	reg("Preempt", func(g *G, _ fnT, a []Value) Value {
		return Value{}
	})
	reg("Yield", func(g *G, _ fnT, a []Value) Value {
		return Value{}
	})
	reg("Concrete", func(g *G, _ fnT, a []Value) Value { return vint(g.m.idx(a[0])) })
	// SetField(ptr, v) sets the field of *ptr that has v's type.
	reg("SetField", func(g *G, _ fnT, a []Value) Value {
		p, x := a[0].p.(*Iface), a[1].p.(*Iface)
		st := p.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), x.t) {
				g.m.store(fieldp(p.v, i), x.v)
				return vbool(true)
			}
		}
		return vbool(false)
	})
	reg("Quiesced", func(g *G, _ fnT, a []Value) Value {
		// number of other goroutines that have not finished
		k := 0
		for _, x := range g.m.gs {
			if x != g && !x.done {
				k++
			}
		}
		return vint(k)
	})
	reg("Winch", func(g *G, _ fnT, a []Value) Value {
		g.m.op(g, foot{"signals", true})
		l, _ := g.m.extra["signals"].([]*Chan)
		for _, c := range l {
			g.m.op(g, foot{c, true})
			g.m.offer(c, zero(c.et))
		}
		return Value{}
	})
	reg("WaitIdle", func(g *G, _ fnT, a []Value) Value {
		// lets the other goroutines run until each is finished or blocked;
		// fires no timers
		if len(g.m.gs) > 1 {
			g.m.wait(g, &pendOp{what: "idle", idle: true})
		}
		return Value{}
	})
}

func (p *Path) observe(name string, v Value, k kind) {
	p.observed = append(p.observed, obs{p.fresh("obs:" + name)[4:], v, k})
}
