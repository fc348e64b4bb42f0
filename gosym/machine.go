package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Machine executes paths for one worker.
type Machine struct {
	e       *Engine
	ctx     *Ctx
	sols    [2]*Solver // linear integers, bit vectors
	globals []*Value
	undo    []undoRec
	undoFns []func()
	logging bool
	path    *Path
	gs      []*G
	cur     *G
	killed  chan struct{}
	dead    bool
	settled int
	now     int64 // virtual nanoseconds
	timers  []*vtimer
	mapMode int
	baseEs  []*Map
	late    map[string]Value
	extra   map[string]any // per path engine state
	por
	raceState
	whole   int
	preempt int
	schedN  int
	doneCh  chan *G
	initFor *ssa.Package

	initChans int // channels made by the package initialisers
}

type undoRec struct {
	p *Value
	v Value
}

func (m *Machine) set(p *Value, v Value) {
	if m.logging {
		m.undo = append(m.undo, undoRec{p, *p})
	}
	*p = v
}

func (m *Machine) store(p *Value, v Value) {
	if src, ok := v.p.(*Agg); ok {
		dst, ok := p.p.(*Agg)
		if !ok {
			m.set(p, copyVal(v))
			return
		}
		for i := range src.v {
			m.store(&dst.v[i], src.v[i])
		}
		return
	}
	m.set(p, v)
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].v
	}
	m.undo = m.undo[:0]
	if cap(m.undo) > 1<<20 {
		m.undo = nil
	}
	for i := len(m.undoFns) - 1; i >= 0; i-- {
		m.undoFns[i]()
	}
	m.undoFns = m.undoFns[:0]
}

func (m *Machine) global(i int) *Value {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		v := zero(m.e.globalType(i))
		m.globals[i] = &v
	}
	return m.globals[i]
}

func (m *Machine) lateGlobal(name string) (Value, bool) {
	v, ok := m.late[name]
	if !ok {
		switch name {
		case "os.Stdin", "os.Stdout", "os.Stderr":
			z := zero(m.e.lookupType("os", "File"))
			v = Value{p: &z}
			m.late[name] = v
			return v, true
		}
	}
	return v, ok
}

func (m *Machine) ptr(v Value, fr *frame, pos token.Pos) *Value {
	p, _ := v.p.(*Value)
	if p == nil {
		if v.p != nil {
			unsup("pointer of kind %T in %s", v.p, fr.cf.fn)
		}
		fr.pos = pos
		m.nilPanic()
	}
	return p
}

func (m *Machine) nilPanic() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

// rtPanic raises a Go run-time error in the code under test.
func (m *Machine) rtPanic(msg string) {
	full := "runtime error: " + msg
	panic(&targetPanic{v: m.errorValue(full), what: full, site: m.site()})
}

func (m *Machine) errorValue(msg string) Value {
	t := m.e.errorStringType()
	v := Value{p: &Agg{[]Value{vstr(msg)}}}
	return Value{p: &Iface{t, Value{p: &v}}}
}

// site is the innermost position in the code under test.
func (m *Machine) site() string {
	if m.cur == nil {
		return ""
	}
	for fr := m.cur.fr; fr != nil; fr = fr.caller {
		if fr.cf.inRepo && fr.pos.IsValid() {
			return m.e.pos(fr.pos)
		}
	}
	return ""
}

func (m *Machine) stack(n int) []string {
	var out []string
	if m.cur == nil {
		return nil
	}
	for fr := m.cur.fr; fr != nil && len(out) < n; fr = fr.caller {
		out = append(out, fr.cf.name+" "+m.e.pos(fr.pos))
	}
	return out
}

func (m *Machine) panicText(v Value) string {
	i, _ := v.p.(*Iface)
	if i == nil {
		return "nil"
	}
	switch infoOf(i.t).k {
	case kString:
		return m.evalStr(i.v)
	case kInt:
		return fmt.Sprint(int64(m.evalVal(i.v)))
	}
	if p, ok := i.v.p.(*Value); ok && p != nil {
		if a, ok := p.p.(*Agg); ok && len(a.v) > 0 {
			switch a.v[0].p.(type) {
			case string, *SymStr:
				return m.evalStr(a.v[0])
			}
		}
	}
	if a, ok := i.v.p.(*Agg); ok && len(a.v) > 0 {
		switch a.v[0].p.(type) {
		case string, *SymStr:
			return m.evalStr(a.v[0])
		}
	}
	return i.t.String()
}

func (m *Machine) evalVal(v Value) uint64 {
	if t, ok := v.p.(*Term); ok {
		return m.ctx.Eval(t)
	}
	return v.n
}

// idx makes an integer concrete.
func (m *Machine) idx(v Value) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	return int(int64(m.concretize(v.p.(*Term))))
}

// idxIn makes a slice bound concrete, treating all out-of-range values alike.
func (m *Machine) idxIn(v Value, hi int) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	t := v.p.(*Term)
	c := m.ctx
	if m.branch(c.BOr(c.Lt(t, c.Int(0)), c.Lt(c.Int(int64(hi)), t))) {
		return -1
	}
	return int(int64(m.concretize(t)))
}

func (m *Machine) bound(v Value, n int, fr *frame, pos token.Pos) int {
	if v.p == nil {
		i := int64(v.n)
		if i < 0 || i >= int64(n) {
			fr.pos = pos
			m.cur.fr = fr
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	t := v.p.(*Term)
	c := m.ctx
	fr.pos = pos
	if m.branch(c.BOr(c.Lt(t, c.Int(0)), c.Not(c.Lt(t, c.Int(int64(n)))))) {
		m.cur.fr = fr
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(int64(m.concretize(t)))
}

// ---- execution

type G struct {
	m       *Machine
	id      int
	fr      *frame
	depth   int
	wake    chan bool
	op      *pendOp // nil: it runs or can run on by itself
	past    stepSet // the steps that happened before its next one
	vc      vclock  // what happened before it goes on
	seen    int     // steps that its operation was compared with
	seenOp  *pendOp
	name    string // the same in all schedules
	kids    int
	done    bool
	site    string
	paniced *targetPanic
	daemon  bool
	panicFr []*frame
}

func (g *G) callClosure(cl *Closure, args []Value) Value {
	if cl.native != nil {
		return cl.native(g, args)
	}
	return g.call(g.m.e.cfunc(cl.fn), args, cl.env)
}

func (g *G) call(cf *cfunc, args, env []Value) Value {
	if cf.native != nil {
		return cf.native(g, cf.fn, args)
	}
	cf.once.Do(func() { g.m.e.compile(cf) })
	if cf.inRepo && g.m.logging && !cf.hit.Load() {
		cf.hit.Store(true)
	}
	if cf.blocks == nil {
		unsup("no body for %s", cf.fn)
	}
	if g.depth > 4000 {
		unsup("call depth in %s", cf.fn)
	}
	fr := &frame{m: g.m, g: g, cf: cf, caller: g.fr}
	fr.regs = make([]Value, cf.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	g.fr = fr
	g.depth++
	if cf.whole {
		g.m.whole++
	}
	if cf.hasDef {
		fr.runWithDefers()
	} else {
		fr.run(0, -1)
	}
	if cf.whole {
		g.m.whole--
	}
	g.depth--
	g.fr = fr.caller
	return fr.result
}

func (fr *frame) run(bi, prev int) {
	m := fr.m
	blocks := fr.cf.blocks
	for {
		b := &blocks[bi]
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edge[e].get(fr)
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range b.phis {
					tmp = append(tmp, b.phis[i].edge[e].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		m.path.steps += int64(b.n)
		if m.path.steps > m.path.stepLimit {
			m.outOfSteps()
		}
		for _, op := range b.ops {
			op(fr)
		}
		next := b.term(fr)
		if next < 0 {
			return
		}
		prev, bi = bi, next
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.g.fr = fr
		d.fn(fr.g)
		fr.g.fr = fr
	}
}

// runWithDefers runs the body, and on a Go panic the deferred calls.
func (fr *frame) runWithDefers() {
	depth := fr.g.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panic = tp
		for {
			again := func() (again bool) {
				defer func() {
					if r := recover(); r != nil {
						if tp2, ok := r.(*targetPanic); ok {
							fr.panic = tp2
							fr.g.depth = depth
							again = true
							return
						}
						panic(r)
					}
				}()
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					fr.g.fr = fr
					fr.g.panicFr = append(fr.g.panicFr, fr)
					func() {
						defer func() { fr.g.panicFr = fr.g.panicFr[:len(fr.g.panicFr)-1] }()
						d.fn(fr.g)
					}()
				}
				return false
			}()
			if !again {
				break
			}
		}
		fr.g.fr = fr
		if fr.panic != nil {
			panic(fr.panic)
		}
		if fr.cf.recov >= 0 {
			fr.run(fr.cf.recov, -1)
		}
	}()
	fr.run(0, -1)
}

// recoverBuiltin implements recover(): it stops the innermost panicking frame
// whose deferred function is calling it.
func (g *G) recoverBuiltin(caller *frame) Value {
	if len(g.panicFr) == 0 {
		return Value{}
	}
	fr := g.panicFr[len(g.panicFr)-1]
	if fr.panic == nil || caller.caller != fr {
		return Value{}
	}
	v := fr.panic.v
	fr.panic = nil
	if v.p == nil {
		return g.m.errorValue("panic called with nil argument")
	}
	return v
}

func roundupsize(n int) int {
	if n <= 0 {
		return 0
	}
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need, elem int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if elem == 0 {
		return need
	}
	return roundupsize(nc*elem) / elem
}

func (m *Machine) appendVals(s []Value, add []Value, et types.Type) []Value {
	n := len(s) + len(add)
	if n <= cap(s) {
		full := s[:n]
		for i, v := range add {
			m.store(&full[len(s)+i], v)
		}
		return full
	}
	k := growCap(cap(s), n, int(m.e.sizes.Sizeof(et)))
	if k < n {
		k = n
	}
	ns := make([]Value, k)
	copyInto(ns, s)
	copyInto(ns[len(s):], add)
	if isAggType(et) {
		for i := n; i < k; i++ {
			ns[i] = zero(et)
		}
	}
	return ns[:n]
}

func copyInto(dst, src []Value) {
	for i, v := range src {
		dst[i] = copyVal(v)
	}
}

func (g *G) builtin(name string, vs []Value, ats []types.Type, fr *frame) Value {
	m := g.m
	if fr != nil && fr.cf.watch {
		fr.accessedBy(name, vs)
	}
	switch name {
	case "len":
		switch infoOf(ats[0]).k {
		case kString:
			return m.strLen(vs[0])
		case kSlice:
			return vint(len(sliceOf(vs[0])))
		case kMap:
			if vs[0].p == nil {
				return Value{}
			}
			return vint(vs[0].p.(*Map).live)
		case kChan:
			if vs[0].p == nil {
				return Value{}
			}
			return vint(len(vs[0].p.(*Chan).buf))
		case kArray:
			return vint(len(vs[0].p.(*Agg).v))
		case kPtr:
			return vint(int(ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch infoOf(ats[0]).k {
		case kSlice:
			return vint(cap(sliceOf(vs[0])))
		case kChan:
			if vs[0].p == nil {
				return Value{}
			}
			return vint(vs[0].p.(*Chan).size)
		case kArray:
			return vint(len(vs[0].p.(*Agg).v))
		case kPtr:
			return vint(int(ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		if len(vs) == 1 {
			return vs[0]
		}
		et := ats[0].Underlying().(*types.Slice).Elem()
		var add []Value
		if infoOf(ats[1]).k == kString {
			add = m.strBytes(vs[1])
		} else {
			add = sliceOf(vs[1])
		}
		if len(add) == 0 {
			return vs[0]
		}
		// the source may alias the destination
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		return Value{p: &Slice{m.appendVals(sliceOf(vs[0]), tmp, et)}}
	case "copy":
		dst := sliceOf(vs[0])
		var src []Value
		if infoOf(ats[1]).k == kString {
			src = m.strBytes(vs[1])
		} else {
			src = sliceOf(vs[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], tmp[i])
		}
		return vint(n)
	case "clear":
		switch infoOf(ats[0]).k {
		case kSlice:
			et := ats[0].Underlying().(*types.Slice).Elem()
			s := sliceOf(vs[0])
			for i := range s {
				m.store(&s[i], zero(et))
			}
		case kMap:
			if vs[0].p != nil {
				mp := vs[0].p.(*Map)
				m.mapTouch(mp)
				mp.es, mp.idx, mp.nsym, mp.live = nil, map[any]*entry{}, 0, 0
			}
		}
		return Value{}
	case "delete":
		if vs[0].p != nil {
			m.mapDelete(vs[0].p.(*Map), vs[1])
		}
		return Value{}
	case "min", "max":
		r := vs[0]
		inf := infoOf(ats[0])
		for _, v := range vs[1:] {
			r = m.minmax(name == "min", r, v, inf)
		}
		return r
	case "panic":
		panic(&targetPanic{v: vs[0], what: m.panicText(vs[0]), site: m.site()})
	case "recover":
		return g.recoverBuiltin(fr)
	case "print", "println":
		return Value{}
	case "close":
		m.chanClose(g, vs[0])
		return Value{}
	case "ssa:wrapnilchk":
		if vs[0].p == nil {
			m.nilPanic()
		}
		return vs[0]
	case "Sizeof":
		return vint(int(types.SizesFor("gc", "amd64").Sizeof(ats[0])))
	case "String": // unsafe.String(ptr, len)
		unsup("unsafe.String")
	}
	unsup("builtin %s on %v", name, ats)
	return Value{}
}

func (m *Machine) minmax(isMin bool, a, b Value, inf tinfo) Value {
	c := m.ctx
	switch inf.k {
	case kInt:
		if a.p == nil && b.p == nil {
			less := int64(a.n) < int64(b.n)
			if !inf.signed {
				less = a.n < b.n
			}
			if less == isMin {
				return a
			}
			return b
		}
		p, q := m.term(a, kInt), m.term(b, kInt)
		if !inf.signed && !(p.nonneg() && q.nonneg()) {
			l := c.ULt(p, q)
			if isMin {
				return vterm(c.Ite(l, p, q))
			}
			return vterm(c.Ite(l, q, p))
		}
		if isMin {
			return vterm(c.Min(p, q))
		}
		return vterm(c.Max(p, q))
	case kFloat:
		if a.p == nil && b.p == nil {
			x, y := fbits(a.n), fbits(b.n)
			if isMin {
				return vf(min(x, y))
			}
			return vf(max(x, y))
		}
		p, q := m.term(a, kFloat), m.term(b, kFloat)
		// NaN and signed zero are handled by forking
		if m.branch(c.BOr(c.Not(m.fcmp(OFEq, p, p)), c.Not(m.fcmp(OFEq, q, q)))) {
			unsup("min/max with NaN")
		}
		l := m.fcmp(OFLt, p, q)
		if !isMin {
			p, q = q, p
		}
		if r := c.dyIte(l, p, q); r != nil {
			return vterm(r)
		}
		if m.branch(l) {
			return vterm(p)
		}
		return vterm(q)
	case kString:
		x, ok := concStr(a)
		y, ok2 := concStr(b)
		if ok && ok2 {
			if isMin {
				return vstr(min(x, y))
			}
			return vstr(max(x, y))
		}
	}
	unsup("min/max")
	return Value{}
}

// ---- goroutines, channels

type vtimer struct {
	at   int64
	fire func()
	off  bool
	seq  int
}

type killPath struct{}

// endPath stops the whole path with an outcome; it does not return.
type endPath struct {
	kind string
	msg  string
}

func (m *Machine) spawn(f func(g *G), site string) {
	g := &G{m: m, id: len(m.gs), wake: make(chan bool), site: site}
	if m.path.multi == 0 {
		m.path.multi = 1
	}
	m.gs = append(m.gs, g)
	if m.cur != nil {
		g.past = m.cur.past
		g.vc = append(vclock(nil), m.cur.vc...)
		m.cur.tick()
		m.cur.kids++
		g.name = fmt.Sprint(m.cur.name, ".", m.cur.kids)
	}
	go func() {
		if ok := <-g.wake; !ok {
			m.doneCh <- g
			return
		}
		m.runG(g, f)
	}()
}

// runG runs the body of a non-main goroutine on its host goroutine.
func (m *Machine) runG(g *G, f func(g *G)) {
	defer func() {
		g.done = true
		if r := recover(); r != nil {
			switch x := r.(type) {
			case killPath:
				m.doneCh <- g
				return
			case *targetPanic:
				m.path.outcome = &endPath{"panic", x.what + " @ " + x.site}
				m.path.crash = x
			case *endPath:
				m.path.outcome = x
			case abandon:
				m.path.outcome = &endPath{"abandoned", ""}
			case unsupported:
				m.path.outcome = &endPath{"unsupported", x.msg}
			default:
				m.path.hostPanic = r
				m.path.outcome = &endPath{"host", fmt.Sprint(r)}
			}
			// hand control to the main goroutine, which ends the path
			m.dead = true
			main := m.gs[0]
			m.cur = main
			main.wake <- true
			m.doneCh <- g
			return
		}
		m.switchFrom(g)
		m.doneCh <- g
	}()
	f(g)
}

// foot is an object that a step touches.
type foot struct {
	obj   any
	write bool
}

func dependent(a, b []foot) bool {
	for _, x := range a {
		for _, y := range b {
			if x.obj == y.obj && (x.write || y.write) {
				return true
			}
		}
	}
	return false
}

// pendOp is the operation that a goroutine is about to carry out.
type pendOp struct {
	what string
	cond func() bool // when it can
	fs   []foot      // what it touches; nothing: a local step
	idle bool        // only when no one else can do anything

	// communication: one of the cases, or the default
	cases []commCase
	def   bool
	idx   int // the case taken, -1: default
	val   Value
	ok    bool
	bad   bool // sent on a closed channel
}

type commCase struct {
	ch   *Chan
	send bool
	val  Value
}

// step is an operation of one goroutine, or a communication of two, that can
// be taken now.
type step struct {
	g, with   *G
	op, withs *pendOp
	idx, widx int
	fs        []foot
}

func (a *step) same(b *step) bool {
	return a.op == b.op && a.withs == b.withs && a.idx == b.idx && a.widx == b.widx
}

// steps lists what can be done next by goroutines that are at an operation.
//
// A goroutine that is about to send on an unbuffered channel and one that is
// about to receive from it can communicate: whether they have arrived there
// already is up to the scheduler and seen by no one, so that the order of
// arrival needs no steps of its own. For the same reason a select with a
// default may take it although a partner is about to arrive.
func (m *Machine) steps() (out []*step) {
	for _, g := range m.gs {
		o := g.op
		if g.done || o == nil || o.idle {
			continue
		}
		if o.cases == nil {
			if o.cond == nil || o.cond() {
				out = append(out, &step{g: g, op: o, fs: append([]foot{{g, true}}, o.fs...)})
			}
			continue
		}
		sure := false
		add := func(i int, w *G, j int, fs ...foot) {
			s := &step{g: g, op: o, idx: i, with: w, widx: j, fs: append(fs, foot{g, true})}
			if w != nil {
				s.withs = w.op
				s.fs = append(s.fs, foot{w, true})
			}
			out = append(out, s)
		}
		for i, c := range o.cases {
			switch {
			case c.ch == nil:
			case c.ch.closed && (c.send || len(c.ch.buf) == 0):
				sure = true
				add(i, nil, 0, foot{c.ch, false})
			case c.ch.size > 0:
				if c.send && len(c.ch.buf) < c.ch.size || !c.send && len(c.ch.buf) > 0 {
					sure = true
					add(i, nil, 0, foot{c.ch, true})
				}
			default:
				for _, w := range m.gs {
					if w == g || w.done || w.op == nil || w.op.def && o.def {
						continue
					}
					for j, d := range w.op.cases {
						// counted once, from the sender's side
						if d.ch == c.ch && c.send && !d.send {
							add(i, w, j, foot{c.ch, false})
						}
					}
				}
			}
		}
		if o.def && !sure {
			var fs []foot
			for _, c := range o.cases {
				if c.ch != nil {
					fs = append(fs, foot{c.ch, false})
				}
			}
			add(-1, nil, 0, fs...)
		}
	}
	return out
}

// take carries out the communication of s.
func (m *Machine) take(s *step) {
	o := s.op
	s.g.op = nil
	if o.cases == nil {
		return
	}
	o.idx = s.idx
	if s.idx < 0 {
		return
	}
	c := o.cases[s.idx]
	switch {
	case s.with != nil:
		s.with.op = nil
		s.withs.idx, s.withs.val, s.withs.ok = s.widx, c.val, true
	case c.send && c.ch.closed:
		o.bad = true
	case c.send:
		m.touch(c.ch)
		c.ch.buf = append(append([]Value(nil), c.ch.buf...), c.val)
	case len(c.ch.buf) > 0:
		o.val, o.ok = c.ch.buf[0], true
		m.touch(c.ch)
		c.ch.buf = append([]Value(nil), c.ch.buf[1:]...)
	default:
		o.val = zero(c.ch.et)
	}
}

// pick chooses the goroutine to run next and takes its step; nil when none
// can ever do anything again.
//
// A goroutine runs from one operation on a shared synchronisation object to
// just before the next. All interleavings of such steps are explored up to
// the order of steps that touch different objects (dynamic partial order
// reduction with sleep sets, see por.go): what a goroutine does between two
// operations is taken to be free of data races.
func (m *Machine) pick(prefer *G) *G {
	for {
		// purely local steps commute with everything
		for _, g := range m.gs {
			if g.done {
				continue
			}
			if o := g.op; o == nil || o.cases == nil && len(o.fs) == 0 && !o.idle && (o.cond == nil || o.cond()) {
				g.op = nil
				return g
			}
		}
		m.races()
		ss := m.steps()
		if len(ss) == 0 {
			m.barrier()
			for _, g := range m.gs {
				if !g.done && g.op != nil && g.op.idle {
					g.op = nil
					return g
				}
			}
			if !m.fireTimer() {
				return nil
			}
			continue
		}
		var cands, rest []*step
		for _, s := range ss {
			if m.asleep(s) {
				continue
			}
			if s.g == prefer || s.with == prefer {
				cands = append(cands, s)
			} else {
				rest = append(rest, s)
			}
		}
		cands = append(cands, rest...)
		if len(cands) == 0 {
			// every continuation is equivalent to one explored elsewhere
			panic(&endPath{"abandoned", ""})
		}
		s, sn := m.chooseStep(cands)
		m.record(s, sn, cands)
		m.take(s)
		return s.g
	}
}

func (m *Machine) asleep(s *step) bool {
	for _, u := range m.sleep {
		if u.same(s) {
			return true
		}
	}
	return false
}

// fireTimer lets time pass until the next timers are due, all of them at once.
func (m *Machine) fireTimer() bool {
	due := int64(math.MaxInt64)
	for _, t := range m.timers {
		if !t.off {
			due = min(due, t.at)
		}
	}
	var now []*vtimer
	for _, t := range m.timers {
		if !t.off && t.at <= due {
			now = append(now, t)
		}
	}
	if len(now) == 0 {
		return false
	}
	m.now = max(m.now, due)
	for _, t := range now {
		if !t.off {
			t.off = true
			t.fire()
		}
	}
	return true
}

// op is the scheduling point before an operation on shared objects.
func (m *Machine) op(g *G, fs ...foot) { m.opWhen(g, "", nil, fs...) }

// opWhen waits until cond holds (nil: always) and then for its turn.
func (m *Machine) opWhen(g *G, what string, cond func() bool, fs ...foot) {
	if (len(m.gs) < 2 || m.whole > 0) && (cond == nil || cond()) {
		if len(m.gs) > 1 {
			m.syncWith([]*G{g}, fs)
		}
		return
	}
	m.wait(g, &pendOp{what: what, cond: cond, fs: fs})
}

// block suspends g until cond holds.
func (m *Machine) block(g *G, what string, cond func() bool) {
	if !cond() {
		m.wait(g, &pendOp{what: what, cond: cond})
	}
}

// wait suspends g until its operation is taken.
func (m *Machine) wait(g *G, o *pendOp) {
	if o.what != "" {
		o.what += " at " + m.site()
	}
	g.op = o
	n := m.pick(g)
	if n == nil {
		panic(&endPath{"deadlock", m.blockedText()})
	}
	if n != g {
		m.transfer(g, n)
	}
}

// transfer hands the baton to n and waits for it to come back to g.
func (m *Machine) transfer(g, n *G) {
	m.cur = n
	n.wake <- true
	if ok := <-g.wake; !ok {
		panic(killPath{})
	}
	m.cur = g
	if m.dead {
		panic(killPath{})
	}
}

// switchFrom passes control on from a finished goroutine.
func (m *Machine) switchFrom(g *G) {
	n := m.pickEnd()
	if n == nil {
		// everything else is blocked
		m.path.outcome = &endPath{"deadlock", m.blockedText()}
		m.dead = true
		n = m.gs[0]
	}
	m.cur = n
	n.wake <- true
}

func (m *Machine) pickEnd() (n *G) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *endPath:
				m.path.outcome = x
			case abandon:
				m.path.outcome = &endPath{"abandoned", ""}
			case unsupported:
				m.path.outcome = &endPath{"unsupported", x.msg}
			default:
				m.path.hostPanic = r
				m.path.outcome = &endPath{"host", fmt.Sprint(r)}
			}
			m.dead = true
			n = m.gs[0]
		}
	}()
	return m.pick(nil)
}

func (m *Machine) blockedText() string {
	var b strings.Builder
	for _, g := range m.gs {
		if !g.done && g.op != nil {
			fmt.Fprintf(&b, "g%d(%s) waits for %s; ", g.id, g.site, g.op.what)
		}
	}
	return b.String()
}

type Chan struct {
	id     int
	size   int
	buf    []Value
	closed bool
	et     types.Type

	made, saved *Path
}

// touch remembers the state of a channel made by the package initialisers, to
// go back to it after the path.
func (m *Machine) touch(c *Chan) {
	if c.made == m.path || c.saved == m.path {
		return
	}
	c.saved = m.path
	buf, closed := c.buf, c.closed
	m.undoFns = append(m.undoFns, func() { c.buf, c.closed, c.saved = buf, closed, nil })
}

func (m *Machine) newChan(n int, et types.Type) *Chan {
	m.path.nchan++
	return &Chan{size: n, et: et, id: m.path.nchan, made: m.path}
}

// offer puts a value into a buffered channel if it has room.
func (m *Machine) offer(c *Chan, v Value) {
	if !c.closed && len(c.buf) < c.size {
		m.touch(c)
		c.buf = append(append([]Value(nil), c.buf...), v)
	}
}

// communicate carries out one of the cases (with def: or none, index -1).
func (m *Machine) communicate(g *G, what string, def bool, cases ...commCase) (int, Value, bool) {
	o := &pendOp{what: what, cases: cases, def: def}
	if cases == nil {
		if def {
			return -1, Value{}, false
		}
		m.block(g, what, func() bool { return false })
	}
	m.wait(g, o)
	if o.bad {
		panic(&targetPanic{v: m.errorValue("send on closed channel"), what: "send on closed channel", site: m.site()})
	}
	return o.idx, o.val, o.ok
}

func (m *Machine) chanSend(g *G, cv, v Value) {
	c, _ := cv.p.(*Chan)
	m.communicate(g, "send", false, commCase{c, true, v})
}

func (m *Machine) chanRecv(g *G, cv Value) (Value, bool) {
	c, _ := cv.p.(*Chan)
	_, v, ok := m.communicate(g, "receive", false, commCase{ch: c})
	return v, ok
}

func (m *Machine) chanClose(g *G, cv Value) {
	c, _ := cv.p.(*Chan)
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	m.op(g, foot{c, true})
	if c.closed {
		panic(&targetPanic{v: m.errorValue("close of closed channel"), what: "close of closed channel", site: m.site()})
	}
	m.touch(c)
	c.closed = true
}

func (c *compiler) selectInstr(x *ssa.Select) func(fr *frame) {
	d := c.reg(x)
	pos := x.Pos()
	type st struct {
		ch, v opnd
		send  bool
	}
	var sts []st
	nrecv := 0
	var ets []types.Type
	for _, s := range x.States {
		y := st{ch: c.opnd(s.Chan), send: s.Dir == types.SendOnly}
		if y.send {
			y.v = c.opnd(s.Send)
		} else {
			nrecv++
			ets = append(ets, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		sts = append(sts, y)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		m := fr.m
		fr.pos = pos
		var cases []commCase
		for i := range sts {
			c := commCase{send: sts[i].send}
			c.ch, _ = sts[i].ch.get(fr).p.(*Chan)
			if sts[i].send {
				c.val = sts[i].v.get(fr)
			}
			cases = append(cases, c)
		}
		idx, rv, rok := m.communicate(fr.g, "select", !blocking, cases...)
		out := make([]Value, 2+nrecv)
		out[0] = vint(idx)
		out[1] = vbool(rok)
		k := 0
		for i := range sts {
			if !sts[i].send {
				if i == idx {
					out[2+k] = rv
				} else {
					out[2+k] = zero(ets[k])
				}
				k++
			}
		}
		fr.regs[d] = Value{p: &Agg{out}}
	}
}

func (m *Machine) addTimer(d int64, fire func()) *vtimer {
	t := &vtimer{at: m.now + max(d, 0), fire: fire, seq: len(m.timers)}
	m.timers = append(m.timers, t)
	return t
}

var _ = time.Now
