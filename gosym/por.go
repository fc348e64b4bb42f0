package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"sync"
)

// Dynamic partial order reduction.
//
// Of the steps that can be taken at a point of a schedule one is explored
// first. Another is explored as well when a step that was taken turns out to
// be in a race with an operation that some goroutine gets to later on: the
// two are not ordered by what happened before and the order of the two may
// matter. When nothing can be said about which step at the point in question
// leads there, all are explored. Sleep sets keep equivalent schedules from
// being explored twice.

type por struct {
	// sleep holds the steps that were explored in a sibling path and have not
	// been affected since
	sleep []*step
	trace []taken
	// released holds what happened before an object was last released
	released map[any]stepSet
}

type taken struct {
	*step
	sn    *schedNode // nil: there was no choice
	cands []*step
	past  stepSet // the steps that happened before
}

// schedNode is a choice of a step, shared by the paths that run through it.
type schedNode struct {
	mu     sync.Mutex
	parent *decNode
	model  map[string]uint64
	vname  string
	tried  []int
}

type stepSet []uint64

func (b stepSet) has(i int) bool { return i/64 < len(b) && b[i/64]>>(i%64)&1 != 0 }

// or and with return new sets.
func (b stepSet) or(c stepSet) stepSet {
	if len(b) < len(c) {
		b, c = c, b
	}
	o := append(stepSet(nil), b...)
	for i, x := range c {
		o[i] |= x
	}
	return o
}

func (b stepSet) with(i int) stepSet {
	o := make(stepSet, max(len(b), i/64+1))
	copy(o, b)
	o[i/64] |= 1 << (i % 64)
	return o
}

func (m *Machine) release(g *G, obj any) {
	if len(m.gs) < 2 {
		return
	}
	if m.released == nil {
		m.released = map[any]stepSet{}
	}
	m.released[obj] = m.released[obj].or(g.past)
	m.syncWith([]*G{g}, []foot{{obj, true}})
}

// barrier: all that was done happened before all that follows.
func (m *Machine) barrier() {
	m.sleep = nil
	var all stepSet
	if n := len(m.trace); n > 0 {
		all = make(stepSet, (n+63)/64)
		for i := 0; i < n; i++ {
			all[i/64] |= 1 << (i % 64)
		}
	}
	for _, g := range m.gs {
		g.past = all
	}
	m.syncWith(m.gs, nil)
}

// record appends s to the trace and forgets the sleepers that depend on it.
func (m *Machine) record(s *step, sn *schedNode, cands []*step) {
	var keep []*step
	for _, u := range m.sleep {
		if !dependent(u.fs, s.fs) {
			keep = append(keep, u)
		}
	}
	m.sleep = keep
	past := s.g.past
	if s.with != nil {
		past = past.or(s.with.past)
	}
	for i := range m.trace {
		t := &m.trace[i]
		if !past.has(i) && dependent(t.fs, s.fs) {
			past = past.or(t.past).with(i)
		}
	}
	for _, f := range s.fs {
		if r, ok := m.released[f.obj]; ok {
			past = past.or(r)
		}
	}
	i := len(m.trace)
	m.trace = append(m.trace, taken{s, sn, cands, past})
	if s.with != nil {
		m.syncWith([]*G{s.g, s.with}, s.fs)
	} else {
		m.syncWith([]*G{s.g}, s.fs)
	}
	past = past.with(i)
	s.g.past = past
	if s.with != nil {
		s.with.past = past
	}
}

// mayRace tells whether the order of t and an operation that is about to be
// carried out by another goroutine may matter.
func mayRace(t *taken, o *pendOp) bool {
	if o.cases == nil {
		if dependent(t.fs, o.fs) {
			return true
		}
		// closing a channel gives others another case to take
		for _, f := range o.fs {
			c, ok := f.obj.(*Chan)
			if ok && (uses(t.op, c) || uses(t.withs, c)) {
				return true
			}
		}
		return false
	}
	for _, c := range o.cases {
		if c.ch == nil {
			continue
		}
		// An unbuffered channel: a default depends on others closing it;
		// receiving does not, because it could not be done before that.
		if (o.def || c.ch.size > 0) && dependent(t.fs, []foot{{c.ch, c.ch.size > 0}}) {
			return true
		}
		for _, u := range []*pendOp{t.op, t.withs} {
			if u == nil {
				continue
			}
			for _, d := range u.cases {
				if d.ch == c.ch && (d.send != c.send || d.ch.size > 0) {
					return true
				}
			}
		}
	}
	return false
}

func uses(o *pendOp, c *Chan) bool {
	if o != nil {
		for _, d := range o.cases {
			if d.ch == c {
				return true
			}
		}
	}
	return false
}

// races looks for races between the steps taken and the operations that the
// goroutines are at.
func (m *Machine) races() {
	for _, g := range m.gs {
		o := g.op
		if g.done || o == nil || o.idle {
			continue
		}
		if g.seenOp != o {
			g.seenOp, g.seen = o, 0
		}
		for i := g.seen; i < len(m.trace); i++ {
			t := &m.trace[i]
			if t.sn == nil || g.past.has(i) || !mayRace(t, o) {
				continue
			}
			m.reverse(i, g)
		}
		g.seen = len(m.trace)
	}
}

// reverse makes sure that a schedule is explored that agrees with the trace
// up to step i and in which g gets to its operation before that step.
func (m *Machine) reverse(i int, g *G) {
	t := &m.trace[i]
	first := -1
	for j := i + 1; j < len(m.trace); j++ {
		if !g.past.has(j) {
			continue
		}
		// a step on the way to g's operation: could it be the next one?
		u := &m.trace[j]
		ok := !u.past.has(i)
		for k := i + 1; k < j && ok; k++ {
			ok = !u.past.has(k)
		}
		if !ok {
			continue
		}
		for k, c := range t.cands {
			if c.same(u.step) {
				if m.isTried(t.sn, k) {
					return
				}
				if first < 0 {
					first = k
				}
			}
		}
	}
	if first >= 0 {
		m.tryStep(t, first)
		return
	}
	found := false
	for k, c := range t.cands {
		if c.op == g.op || c.withs == g.op {
			m.tryStep(t, k)
			found = true
		}
	}
	if !found {
		for k := range t.cands {
			m.tryStep(t, k)
		}
	}
}

func (m *Machine) isTried(sn *schedNode, k int) bool {
	sn.mu.Lock()
	defer sn.mu.Unlock()
	for _, x := range sn.tried {
		if x == k {
			return true
		}
	}
	return false
}

func (m *Machine) tryStep(t *taken, k int) { m.tryAt(t.sn, k) }

func (m *Machine) tryAt(sn *schedNode, k int) {
	sn.mu.Lock()
	for _, x := range sn.tried {
		if x == k {
			sn.mu.Unlock()
			return
		}
	}
	ord := len(sn.tried)
	sn.tried = append(sn.tried, k)
	sn.mu.Unlock()
	mod := make(map[string]uint64, len(sn.model)+1)
	for n, x := range sn.model {
		mod[n] = x
	}
	mod[sn.vname] = uint64(k)
	n := 1
	if sn.parent != nil {
		n = sn.parent.n + 1
	}
	m.path.forks++
	m.e.run.push(&item{leaf: &decNode{sn.parent, dec{kind: 2, val: uint64(k), sched: sn, ord: ord}, n}, model: mod})
}

// drain lets the other goroutines run on after the end of the main one: what
// they get to may race with what was done before.
func (m *Machine) drain(main *G) {
	main.done = true
	if n := m.pick(nil); n != nil {
		m.transfer(main, n)
	}
}

// porDebug explores every alternative (up to sleep sets) and porPrint
// collects the classes of schedules that end differently.
var porDebug, porPrint = os.Getenv("GOSYM_POR") == "naive", os.Getenv("GOSYM_POR") != ""

// fingerprint identifies what happened before the end of the main goroutine.
func (m *Machine) fingerprint() uint64 {
	hs := make([]uint64, len(m.trace))
	sum := func(past stepSet) (x uint64) {
		for i := range hs {
			if past.has(i) {
				x += hs[i]
			}
		}
		return x
	}
	for i, t := range m.trace {
		h := fnv.New64a()
		n := ""
		if t.with != nil {
			n = t.with.name
		}
		fmt.Fprint(h, t.g.name, n, t.idx, t.widx, t.op.what, sum(t.past))
		hs[i] = h.Sum64()
	}
	j, _ := json.Marshal(m.vector())
	h := fnv.New64a()
	h.Write(j)
	fmt.Fprint(h, sum(m.gs[0].past))
	if f := os.Getenv("GOSYM_TRACES"); f != "" {
		var b strings.Builder
		fmt.Fprintf(&b, "%x %s ", h.Sum64(), j)
		for _, t := range m.trace {
			n := ""
			if t.with != nil {
				n = t.with.name
			}
			fmt.Fprintf(&b, " %s/%d/%s/%d(%s)", t.g.name, t.idx, n, t.widx, t.op.what)
		}
		b.WriteByte('\n')
		o, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		o.WriteString(b.String())
		o.Close()
	}
	return h.Sum64()
}

// chooseStep picks one of the steps that can be taken.
func (m *Machine) chooseStep(cands []*step) (*step, *schedNode) {
	if len(cands) == 1 {
		return cands[0], nil
	}
	p := m.path
	c := m.ctx
	v := p.freshInt("!sched", 0, int64(len(cands)-1), nil)
	var d dec
	if p.pos < len(p.prefix) {
		d = p.prefix[p.pos]
		p.pos++
		if d.kind != 2 || d.sched == nil || int(d.val) >= len(cands) {
			panic("engine: replay diverged (sched)")
		}
		p.node(d)
	} else {
		p.decisions++
		sn := &schedNode{parent: p.leaf, model: p.model, vname: v.name, tried: []int{0}}
		d = dec{kind: 2, sched: sn}
		p.node(d)
		nm := make(map[string]uint64, len(p.model)+1)
		for k, x := range p.model {
			nm[k] = x
		}
		nm[v.name] = 0
		p.model = nm
		c.SetModel(nm)
	}
	p.addCond(c.Eq(v, c.Int(int64(d.val))))
	s := cands[d.val]
	d.sched.mu.Lock()
	before := d.sched.tried[:d.ord]
	d.sched.mu.Unlock()
	m.sleep = m.sleep[:len(m.sleep):len(m.sleep)]
	for _, k := range before {
		m.sleep = append(m.sleep, cands[k])
	}
	if porDebug {
		for k := range cands {
			m.tryAt(d.sched, k)
		}
	}
	// what else the same operation can do is seen in no later step
	for k, x := range cands {
		if x != s && (x.op == s.op || x.op == s.withs || x.withs != nil && (x.withs == s.op || x.withs == s.withs)) {
			m.tryAt(d.sched, k)
		}
	}
	return s, d.sched
}
