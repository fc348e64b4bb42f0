package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: two accesses of one variable by different goroutines, one of
// them a write, that are not ordered by what happened before them. A vector
// clock per goroutine and per synchronisation object decides the order; every
// operation on an object is taken to synchronise with all later ones on it,
// which finds fewer races but no false ones. Accesses are watched in the
// functions of the repository.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(w vclock) {
	for len(*v) < len(w) {
		*v = append(*v, 0)
	}
	for i, x := range w {
		(*v)[i] = max((*v)[i], x)
	}
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// access of a variable; n is the clock of the goroutine.
type access struct {
	g    *G
	n    uint32
	site string
}

type shadow struct {
	w  access
	rs []access
}

type raceState struct {
	clocks map[any]*vclock
	vars   map[any]*shadow
}

// syncWith orders what g did before and does next with the other operations
// on the objects.
func (m *Machine) syncWith(gs []*G, fs []foot) {
	if m.clocks == nil {
		m.clocks = map[any]*vclock{}
	}
	var all vclock
	for _, g := range gs {
		all.join(g.vc)
	}
	for _, f := range fs {
		if c := m.clocks[f.obj]; c != nil {
			all.join(*c)
		}
	}
	for _, f := range fs {
		c := m.clocks[f.obj]
		if c == nil {
			c = new(vclock)
			m.clocks[f.obj] = c
		}
		c.join(all)
	}
	for _, g := range gs {
		g.vc.join(all)
		g.tick()
	}
}

// accessed notes an access of a variable and looks for a race with an earlier one.
func (fr *frame) accessed(p any, write bool) {
	m, g := fr.m, fr.g
	if len(m.gs) < 2 || p == nil {
		return
	}
	if m.vars == nil {
		m.vars = map[any]*shadow{}
	}
	s := m.vars[p]
	if s == nil {
		s = &shadow{}
		m.vars[p] = s
	}
	if len(g.vc) <= g.id {
		g.tick()
	}
	clash := func(a access) bool { return a.g != nil && a.g != g && a.n > g.vc.at(a.g.id) }
	report := func(a access) {
		kind := "reads"
		if write {
			kind = "writes"
		}
		panic(&endPath{"race", fmt.Sprintf("data race: a goroutine %s at %s what another accesses at %s", kind, m.site(), a.site)})
	}
	if clash(s.w) {
		report(s.w)
	}
	if write {
		for _, a := range s.rs {
			if clash(a) {
				report(a)
			}
		}
		s.rs = s.rs[:0]
		if s.w.g != g || s.w.n != g.vc[g.id] {
			s.w = access{g, g.vc[g.id], m.site()}
		}
		return
	}
	for i := range s.rs {
		if s.rs[i].g == g {
			if s.rs[i].n != g.vc[g.id] {
				s.rs[i] = access{g, g.vc[g.id], m.site()}
			}
			return
		}
	}
	s.rs = append(s.rs, access{g, g.vc[g.id], m.site()})
}

// accessedAll does so for all parts of a variable.
func (fr *frame) accessedAll(p *Value, write bool) {
	if a, ok := p.p.(*Agg); ok {
		for i := range a.v {
			fr.accessedAll(&a.v[i], write)
		}
		return
	}
	fr.accessed(p, write)
}

// accessedMap notes an access of a map.
func (fr *frame) accessedMap(v Value, write bool) {
	if m, ok := v.p.(*Map); ok {
		fr.accessed(m, write)
	}
}

// accessedBy notes what a builtin function accesses.
func (fr *frame) accessedBy(name string, vs []Value) {
	if len(fr.m.gs) < 2 {
		return
	}
	each := func(s []Value, write bool) {
		for i := range s {
			fr.accessedAll(&s[i], write)
		}
	}
	slice := func(v Value) []Value {
		if s, ok := v.p.(*Slice); ok {
			return s.a
		}
		return nil
	}
	switch name {
	case "append":
		if len(vs) < 2 {
			return
		}
		s, add := slice(vs[0]), slice(vs[1])
		each(add, false)
		if n := len(s) + len(add); n <= cap(s) {
			each(s[len(s):n], true)
		} else {
			each(s, false)
		}
	case "copy":
		dst, src := slice(vs[0]), slice(vs[1])
		n := len(dst)
		if src != nil {
			n = min(n, len(src))
			each(src[:n], false)
		}
		if src != nil || vs[1].p == nil {
			each(dst[:n], true)
		}
	case "clear":
		fr.accessedMap(vs[0], true)
		each(slice(vs[0]), true)
	case "delete":
		fr.accessedMap(vs[0], true)
	case "len":
		fr.accessedMap(vs[0], false)
	}
}

// watch: are the accesses of the function watched?
func (c *compiler) watch() bool {
	fn := c.cf.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return c.cf.inRepo && !strings.HasPrefix(filepath.Base(c.e.fset.Position(fn.Pos()).Filename), "zz") && !strings.Contains(c.cf.name, "/internal/zz")
}

// watched: may what addr points to be known to several goroutines?
func (c *compiler) watched(addr ssa.Value) bool {
	if a, ok := addr.(*ssa.Alloc); ok && !a.Heap {
		return false
	}
	return c.cf.watch
}
