package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A decision taken at a symbolic branch, concretisation or choice point.
type dec struct {
	kind  uint8 // 0 branch, 1 value, 2 choice
	taken bool  // branch direction; value: equal (true) or excluded (false)
	impl  bool  // implied: no alternative exists
	val   uint64
	sched *schedNode
	ord   int // position among the steps tried at sched
}

type decNode struct {
	parent *decNode
	d      dec
	n      int
}

type item struct {
	leaf  *decNode
	model map[string]uint64
}

type draw struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // int, float, string
	v    Value
	Int  int64  `json:"int"`
	Str  string `json:"str,omitempty"`
}

type assertRec struct {
	cond *Term
	msg  string
}

type obs struct {
	name string
	v    Value
	k    kind
}

type Path struct {
	m          *Machine
	prefix     []dec
	pos        int
	leaf       *decNode
	model      map[string]uint64
	conds      []*Term
	sent       [2]int
	nbv        int // conditions beyond linear integers
	vars       []*Term
	varsSent   [2]int
	seenVar    map[*Term]bool
	names      map[string]int
	draws      []draw
	asserts    []assertRec
	nAsserts   int64
	known      map[*Term]bool
	covers     map[string]bool
	observed   []obs
	steps      int64
	stepLimit  int64
	forks      int64
	outcome    *endPath
	crash      *targetPanic
	hostPanic  any
	bnd        map[*Term]ival
	pinned     uint64 // variables with a fixed value
	multi      int
	nchan      int
	begun      [2]bool
	allowPanic bool
	decisions  int64
}

// abandon ends a path silently (assumption false).
type abandon struct{}

func (p *Path) node(d dec) {
	n := 1
	if p.leaf != nil {
		n = p.leaf.n + 1
	}
	p.leaf = &decNode{p.leaf, d, n}
}

func (p *Path) addCond(c *Term) {
	if c == p.m.ctx.True {
		return
	}
	p.conds = append(p.conds, c)
	if needBV(c) {
		p.nbv++
	}
	p.known[c] = true
	p.known[p.m.ctx.Not(c)] = false
	p.learn(c)
}

func (p *Path) noteVar(v *Term) {
	if !p.seenVar[v] {
		p.seenVar[v] = true
		p.vars = append(p.vars, v)
	}
}

// flush sends pending declarations and conditions to the solver.
func (p *Path) flush(i int) {
	s := p.m.sols[i]
	if !p.begun[i] {
		s.Push()
		p.begun[i] = true
	}
	for ; p.varsSent[i] < len(p.vars); p.varsSent[i]++ {
		if i == 0 && p.vars[p.varsSent[i]].sort == SFloat {
			continue
		}
		s.AssertRange(p.vars[p.varsSent[i]])
	}
	for ; p.sent[i] < len(p.conds); p.sent[i]++ {
		s.Assert(p.conds[p.sent[i]])
	}
}

// query asks whether the path condition and c are satisfiable together.
func (p *Path) query(c *Term) (SatResult, map[string]uint64) {
	if c == p.m.ctx.False {
		return Unsat, nil
	}
	if p.nbv == 0 && !needBV(c) {
		if r, mod := p.queryIn(0, c); r != Unknown {
			return r, mod
		}
	}
	return p.queryIn(1, c)
}

func (p *Path) queryIn(i int, c *Term) (SatResult, map[string]uint64) {
	p.flush(i)
	s := p.m.sols[i]
	s.Push()
	s.Assert(c)
	r := s.Check()
	var mod map[string]uint64
	if r == Sat {
		vars := p.vars
		if i == 0 {
			vars = nil
			for _, v := range p.vars {
				if v.sort != SFloat {
					vars = append(vars, v)
				}
			}
		}
		mod = s.Values(vars)
		if len(vars) < len(p.vars) {
			for _, v := range p.vars {
				if v.sort == SFloat {
					if x, ok := p.model[v.name]; ok {
						mod[v.name] = x
					}
				}
			}
		}
	}
	s.Pop()
	return r, mod
}

func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.n != 0
	}
	p := m.path
	if v, ok := p.known[c]; ok {
		return v
	}
	if r := p.decide(c, 0); r != 0 {
		return r == 1
	}
	p.decisions++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != 0 {
			panic(fmt.Sprintf("engine: replay diverged (branch vs kind %d)", d.kind))
		}
		p.node(d)
		if !d.impl {
			if d.taken {
				p.addCond(c)
			} else {
				p.addCond(m.ctx.Not(c))
			}
		} else {
			p.known[c] = d.taken
			p.known[m.ctx.Not(c)] = !d.taken
		}
		return d.taken
	}
	taken := m.ctx.Eval(c) != 0
	this, other := c, m.ctx.Not(c)
	if !taken {
		this, other = other, this
	}
	r, mod := p.query(other)
	d := dec{kind: 0, taken: taken}
	switch r {
	case Sat:
		m.fork(dec{kind: 0, taken: !taken}, mod)
	case Unsat:
		d.impl = true
	default:
		m.e.run.unknowns.Add(1)
	}
	p.node(d)
	if d.impl {
		p.known[this] = true
		p.known[other] = false
	} else {
		p.addCond(this)
	}
	return taken
}

// fork queues the alternative decision d at the current point.
func (m *Machine) fork(d dec, model map[string]uint64) {
	p := m.path
	n := 1
	if p.leaf != nil {
		n = p.leaf.n + 1
	}
	p.forks++
	m.e.run.push(&item{&decNode{p.leaf, d, n}, model})
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.n
	}
	p := m.path
	c := m.ctx
	if lo, hi := p.bounds(t, 0); lo == hi && t.sort == SInt {
		m.pin(t)
		return uint64(lo)
	}
	for {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			if d.kind != 1 {
				panic(fmt.Sprintf("engine: replay diverged (value vs kind %d)", d.kind))
			}
			p.node(d)
			eq := c.Eq(t, c.Int(int64(d.val)))
			if d.taken {
				if !d.impl {
					p.addCond(eq)
				}
				m.pin(t)
				return d.val
			}
			p.addCond(c.Not(eq))
			continue
		}
		p.decisions++
		v := c.Eval(t)
		eq := c.Eq(t, c.Int(int64(v)))
		d := dec{kind: 1, taken: true, val: v}
		if kv, ok := p.known[eq]; ok && kv {
			d.impl = true
			p.node(d)
			m.pin(t)
			return v
		}
		r, mod := p.query(c.Not(eq))
		switch r {
		case Sat:
			m.fork(dec{kind: 1, taken: false, val: v}, mod)
		case Unsat:
			d.impl = true
		default:
			m.e.run.unknowns.Add(1)
		}
		p.node(d)
		if !d.impl {
			p.addCond(eq)
		}
		m.pin(t)
		return v
	}
}

// choose is a free choice among n alternatives (scheduling, fault or data
// choice): a fresh symbolic variable whose every value is explored.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	p := m.path
	v := p.freshInt("!"+name, 0, int64(n-1), nil)
	c := m.ctx
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != 2 {
			panic(fmt.Sprintf("engine: replay diverged (choice %s vs kind %d)", name, d.kind))
		}
		p.node(d)
		p.addCond(c.Eq(v, c.Int(int64(d.val))))
		return int(d.val)
	}
	p.decisions++
	first := 0
	for i := n - 1; i > 0; i-- {
		mod := make(map[string]uint64, len(p.model)+1)
		for k, x := range p.model {
			mod[k] = x
		}
		mod[v.name] = uint64(i)
		m.fork(dec{kind: 2, val: uint64(i)}, mod)
	}
	p.node(dec{kind: 2, val: uint64(first)})
	nm := make(map[string]uint64, len(p.model)+1)
	for k, x := range p.model {
		nm[k] = x
	}
	nm[v.name] = uint64(first)
	p.model = nm
	c.SetModel(nm)
	p.addCond(c.Eq(v, c.Int(int64(first))))
	return first
}

func (p *Path) fresh(name string) string {
	k := p.names[name]
	p.names[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (p *Path) freshInt(name string, lo, hi int64, dom *Domain) *Term {
	v := p.m.ctx.VarInt(p.fresh(name), lo, hi, dom)
	if !v.isConst() {
		p.noteVar(v)
	}
	return v
}

func (m *Machine) assume(c *Term) {
	if c == m.ctx.True {
		return
	}
	p := m.path
	if c == m.ctx.False {
		panic(abandon{})
	}
	if v, ok := p.known[c]; ok {
		if v {
			return
		}
		panic(abandon{})
	}
	if m.ctx.Eval(c) == 0 {
		r, mod := p.query(c)
		if r != Sat {
			if r == Unknown {
				m.e.run.unknowns.Add(1)
			}
			panic(abandon{})
		}
		p.model = mod
		m.ctx.SetModel(mod)
	}
	p.addCond(c)
}

func (m *Machine) assert(c *Term, msg string) {
	p := m.path
	p.nAsserts++
	if c == m.ctx.True {
		return
	}
	if v, ok := p.known[c]; ok && v {
		return
	}
	if m.ctx.Eval(c) == 0 {
		m.violation("assert", msg)
		panic(&endPath{"violation", msg})
	}
	p.asserts = append(p.asserts, assertRec{c, msg})
}

// discharge asks the solver for a counterexample to the path's assertions.
func (m *Machine) discharge() {
	p := m.path
	if len(p.asserts) == 0 {
		return
	}
	left := p.asserts
	for len(left) > 0 {
		bad := m.ctx.False
		for _, a := range left {
			bad = m.ctx.BOr(bad, m.ctx.Not(a.cond))
		}
		r, mod := p.query(bad)
		if r == Unknown {
			m.e.run.unknowns.Add(1)
		}
		if r != Sat {
			return
		}
		m.ctx.SetModel(mod)
		msg, found := "", false
		for _, a := range left {
			if m.ctx.Eval(a.cond) == 0 {
				m.violation("assert", a.msg)
				msg, found = a.msg, true
				break
			}
		}
		m.ctx.SetModel(p.model)
		if !found {
			panic("engine: model satisfies the assertions")
		}
		var rest []assertRec
		for _, a := range left {
			if a.msg != msg {
				rest = append(rest, a)
			}
		}
		left = rest
	}
}

// Violation is a counterexample found by the engine.
type Violation struct {
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Site    string   `json:"site"`
	Stack   []string `json:"stack,omitempty"`
	Vector  []draw   `json:"vector"`
	Harness string   `json:"harness"`
	Replay  string   `json:"-"`
	Conf    bool     `json:"confirmed"`
	Sched   []string `json:"schedule,omitempty"`
	Native  string   `json:"native"`
}

// schedule lists the steps taken where there was a choice.
func (m *Machine) schedule() (out []string) {
	for _, t := range m.trace {
		if t.sn == nil {
			continue
		}
		what := t.op.what
		if what == "" {
			what = "goes on"
		}
		out = append(out, fmt.Sprintf("goroutine %d (%s): %s", t.g.id, t.g.site, what))
	}
	return out
}

func (m *Machine) vector() []draw {
	p := m.path
	out := make([]draw, len(p.draws))
	for i, d := range p.draws {
		switch d.Kind {
		case "int", "float":
			d.Int = int64(m.evalVal(d.v))
		case "str":
			d.Str = m.evalStr(d.v)
		}
		out[i] = d
	}
	return out
}

func (m *Machine) violation(kind, msg string) {
	for i, c := range m.path.conds {
		if m.ctx.Eval(c) == 0 {
			m.e.run.issue(fmt.Sprintf("engine: condition %d of the path is false under its model", i))
			if m.e.opts.Debug {
				fmt.Println("  FALSE", dump(c, 12), m.ctx.model)
			}
		}
	}
	for _, v := range m.path.vars {
		if v.sort == SInt {
			if x := int64(m.ctx.Eval(v)); x < v.lo || x > v.hi || v.dom != nil && !v.dom.has(x) {
				m.e.run.issue("engine: variable " + v.name + " out of its domain")
			}
		}
	}
	v := &Violation{Kind: kind, Msg: msg, Site: m.site(), Stack: m.stack(12), Vector: m.vector(), Harness: m.e.run.harness, Sched: m.schedule()}
	m.e.run.addViolation(v)
}

func (m *Machine) outOfSteps() {
	panic(&endPath{"steps", fmt.Sprintf("more than %d steps at %s", m.path.stepLimit, m.site())})
}

// Run is one exploration of one harness.
type Run struct {
	e        *Engine
	harness  string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*item
	active   int
	stop     bool
	deadline time.Time
	pops     int
	rng      uint64

	paths, abandoned, steps, forks, unknowns, asserts, decisions atomic.Int64
	violations                                                   []*Violation
	vioKeys                                                      map[string]int
	issues                                                       map[string]int
	covers                                                       map[string]int
	samples                                                      []sample
	cuts                                                         [][]draw // models of the paths that met an unsupported construct
	cutN                                                         uint64
	sampleN                                                      int
	maxDepth                                                     int
	timedOut                                                     bool
	errored                                                      string
	wantSamples                                                  int
	maxVio                                                       int
	pathLimit                                                    int64
	funcs                                                        sync.Map
	bounds                                                       map[string]int
	knownHits                                                    map[string]int
	prints                                                       map[uint64]int
	filter                                                       func(v *Violation) string
}

type sample struct {
	Vector  []draw            `json:"vector"`
	Observe map[string]string `json:"observe"`
	Order   []string          `json:"-"`
	hash    uint64
}

func (r *Run) push(it *item) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() *item {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if n := len(r.stack); n > 0 {
			// Depth first, but every few paths take an early alternative, so
			// that a run that is cut by its budget has been everywhere.
			i := n - 1
			r.pops++
			if r.pops%6 == 0 && n > 1 {
				i = min(r.rand(n), r.rand(n), r.rand(n))
			}
			it := r.stack[i]
			copy(r.stack[i:], r.stack[i+1:])
			r.stack = r.stack[:n-1]
			r.active++
			return it
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) rand(n int) int {
	r.rng = r.rng*6364136223846793005 + 1442695040888963407
	return int((r.rng >> 33) % uint64(n))
}

func (r *Run) finish() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) halt() {
	r.mu.Lock()
	r.stop = true
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Run) addViolation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.filter != nil {
		if w := r.filter(v); w != "" {
			r.knownHits[w]++
			return
		}
	}
	k := v.Kind + "|" + v.Msg + "|" + v.Site
	if r.vioKeys[k] < 3 {
		r.violations = append(r.violations, v)
	}
	r.vioKeys[k]++
	if len(r.violations) >= r.maxVio {
		r.stop = true
		go r.cond.Broadcast()
	}
}

func (r *Run) issue(s string) {
	r.mu.Lock()
	r.issues[s]++
	r.mu.Unlock()
}

// runPath executes one path.
func (m *Machine) runPath(it *item, entry *cfunc, args []Value) {
	r := m.e.run
	p := &Path{m: m, nchan: m.initChans, model: it.model, seenVar: map[*Term]bool{}, names: map[string]int{}, known: map[*Term]bool{},
		covers: map[string]bool{}, stepLimit: m.e.opts.StepLimit}
	if it.leaf != nil {
		p.prefix = make([]dec, it.leaf.n)
		for n := it.leaf; n != nil; n = n.parent {
			p.prefix[n.n-1] = n.d
		}
	}
	if p.model == nil {
		p.model = map[string]uint64{}
	}
	m.path = p
	m.ctx.SetModel(p.model)
	m.logging = true
	m.now, m.timers, m.dead, m.mapMode = 0, nil, false, 0
	m.por, m.raceState, m.whole = por{}, raceState{}, 0
	m.extra = map[string]any{}
	main := &G{m: m, id: 0, wake: make(chan bool), site: "main"}
	m.gs = []*G{main}
	m.cur = main
	m.doneCh = make(chan *G, 4096)

	ended := "ok"
	drained, print := false, uint64(0)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(killPath); ok {
					// another goroutine ended the path
					if p.crash != nil {
						x = p.crash
					} else if p.hostPanic != nil {
						x = p.hostPanic
					} else if p.outcome != nil {
						if p.outcome.kind == "unsupported" {
							x = unsupported{p.outcome.msg}
						} else {
							x = p.outcome
						}
					}
				}
				switch y := x.(type) {
				case abandon:
					if !drained {
						ended = "abandoned"
					}
				case unsupported:
					ended = "unsupported"
					r.issue("unsupported: " + y.msg + " [" + strings.Join(m.stack(4), " < ") + "]")
				case *targetPanic:
					ended = "panic"
					if y.site == "" {
						y.site = m.site()
					}
					m.violationAt("panic", y.what, y.site)
				case *endPath:
					if drained && (y.kind == "abandoned" || y.kind == "deadlock" || y.kind == "steps") {
						return
					}
					ended = y.kind
					switch y.kind {
					case "violation", "abandoned":
					case "deadlock", "steps", "race":
						m.violationAt(y.kind, y.msg, m.site())
					default:
						r.issue(y.kind + ": " + y.msg)
					}
				case solverDied:
					ended = "solver"
					r.issue("solver error: " + y.msg)
					r.unknowns.Add(1)
					p.begun = [2]bool{}
					m.sols[0].Restart()
					m.sols[1].Restart()
				case killPath:
					ended = "killed"
					r.issue("killed path")
				default:
					if m.e.opts.Debug {
						panic(x)
					}
					ended = "engine"
					r.issue(fmt.Sprintf("engine error: %v [%s]", x, strings.Join(m.stack(6), " < ")))
				}
			}
		}()
		main.call(entry, args, nil)
		m.discharge()
		if porPrint {
			print = m.fingerprint()
		}
		if len(m.gs) > 1 && !porDebug {
			drained = true
			m.drain(main)
		}
	}()
	// assertions made before a panic or other end still count
	if ended == "panic" || ended == "violation" || ended == "deadlock" || ended == "race" || ended == "unsupported" {
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.issue(fmt.Sprint("discharge: ", x))
				}
			}()
			m.discharge()
		}()
	}
	if ended == "unsupported" {
		r.mu.Lock()
		r.cutN++
		slot := uint64(len(r.cuts))
		if slot == maxCuts {
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%d", m.e.opts.Seed, r.cutN)
			slot = h.Sum64() % r.cutN
		} else {
			r.cuts = append(r.cuts, nil)
		}
		r.mu.Unlock()
		if slot < maxCuts {
			v := m.vector()
			r.mu.Lock()
			r.cuts[slot] = v
			r.mu.Unlock()
		}
	}
	// end the remaining goroutines
	if len(m.gs) > 1 {
		m.dead = true
		for _, g := range m.gs[1:] {
			if !g.done {
				g.wake <- false
			}
		}
		for range m.gs[1:] {
			<-m.doneCh
		}
	}
	r.steps.Add(p.steps)
	r.forks.Add(p.forks)
	r.asserts.Add(p.nAsserts)
	r.decisions.Add(p.decisions)
	if ended == "abandoned" {
		r.abandoned.Add(1)
	} else {
		r.paths.Add(1)
	}
	if porPrint && ended != "abandoned" {
		r.mu.Lock()
		if r.prints == nil {
			r.prints = map[uint64]int{}
		}
		if print == 0 {
			print = m.fingerprint()
		}
		r.prints[print]++
		r.mu.Unlock()
	}
	if ended == "ok" {
		r.mu.Lock()
		for c := range p.covers {
			r.covers[c]++
		}
		if p.leaf != nil && p.leaf.n > r.maxDepth {
			r.maxDepth = p.leaf.n
		}
		r.sampleN++
		n := r.sampleN
		take := len(r.samples) < r.wantSamples
		slot := len(r.samples)
		if !take && r.wantSamples > 0 {
			// reservoir, deterministic in the seed
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%d", m.e.opts.Seed, n)
			if k := int(h.Sum64() % uint64(n)); k < r.wantSamples {
				take, slot = true, k
			}
		}
		r.mu.Unlock()
		if take {
			s := m.makeSample()
			r.mu.Lock()
			if slot < len(r.samples) {
				r.samples[slot] = s
			} else {
				r.samples = append(r.samples, s)
			}
			r.mu.Unlock()
		}
	}
	for i, b := range p.begun {
		if b {
			m.sols[i].Pop()
		}
	}
	m.logging = false
	m.rollback()
	if m.sols[0].nDefs+m.sols[1].nDefs > 150000 || m.ctx.next > 3000000 {
		m.ctx.tab = map[termKey]*Term{}
		m.ctx.affMemo = nil
		m.ctx.next = 0
		m.ctx.True = m.ctx.mk(&Term{op: OConst, sort: SBool, n: 1}, "")
		m.ctx.False = m.ctx.mk(&Term{op: OConst, sort: SBool, n: 0}, "")
		m.sols[0].Restart()
		m.sols[1].Restart()
	}
}

// maxCuts is how many paths that the engine cannot finish are finished by the
// compiled code.
const maxCuts = 64

func (m *Machine) violationAt(kind, msg, site string) {
	v := &Violation{Kind: kind, Msg: msg, Site: site, Stack: m.stack(12), Vector: m.vector(), Harness: m.e.run.harness, Sched: m.schedule()}
	m.e.run.addViolation(v)
}

func (m *Machine) makeSample() sample {
	p := m.path
	s := sample{Vector: m.vector(), Observe: map[string]string{}}
	for _, o := range p.observed {
		s.Observe[o.name] = m.obsText(o)
		s.Order = append(s.Order, o.name)
	}
	return s
}

func (m *Machine) obsText(o obs) string {
	switch o.k {
	case kString:
		return fmt.Sprintf("%q", m.evalStr(o.v))
	case kBool:
		return fmt.Sprint(m.evalVal(o.v) != 0)
	case kFloat:
		return fmt.Sprintf("%x", m.evalVal(o.v))
	}
	return fmt.Sprint(int64(m.evalVal(o.v)))
}

func fbits(n uint64) float64 { return math.Float64frombits(n) }

func (m *Machine) orderMap(es []*entry) {
	switch m.mapMode {
	case 0:
	case 1:
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	default:
		h := make([]uint64, len(es))
		x := uint64(m.mapMode)*0x9e3779b97f4a7c15 + uint64(len(es))
		for i := range h {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			h[i] = x
		}
		idx := make([]int, len(es))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return h[idx[a]] < h[idx[b]] })
		out := make([]*entry, len(es))
		for i, k := range idx {
			out[i] = es[k]
		}
		copy(es, out)
	}
}
