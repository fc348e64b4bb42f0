package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// cfunc is a function compiled to closures.
type cfunc struct {
	fn     *ssa.Function
	once   sync.Once
	nregs  int
	blocks []cblock
	hasDef bool
	native nativeFn
	name   string
	recov  int
	inRepo bool
	watch  bool // its accesses to shared variables are watched (race.go)
	whole  bool // its operations on shared objects are no scheduling points
	hit    atomic.Bool
}

type nativeFn = func(g *G, fn *ssa.Function, args []Value) Value
type fnT = *ssa.Function

type cblock struct {
	phis  []cphi
	ops   []func(fr *frame)
	term  func(fr *frame) int
	preds []int
	n     int
}

type cphi struct {
	dst  int
	edge []opnd
}

type opnd struct {
	reg int // -1: constant, -2: global
	v   Value
	gi  int
}

func (o *opnd) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -1 {
		return o.v
	}
	return Value{p: fr.m.global(o.gi)}
}

type frame struct {
	m      *Machine
	g      *G
	cf     *cfunc
	regs   []Value
	defers []deferred
	result Value
	prev   int
	panic  *targetPanic
	caller *frame
	pos    token.Pos
}

type deferred struct {
	fn func(g *G) Value
}

type compiler struct {
	e    *Engine
	cf   *cfunc
	regs map[ssa.Value]int
}

func (e *Engine) compile(cf *cfunc) {
	fn := cf.fn
	if fn.Blocks == nil {
		if p := fn.Package(); p != nil {
			e.buildMu.Lock()
			p.Build()
			e.buildMu.Unlock()
		}
	}
	if fn.Blocks == nil {
		return
	}
	c := &compiler{e: e, cf: cf, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	for _, p := range fn.FreeVars {
		c.reg(p)
	}
	cf.watch = c.watch()
	cf.blocks = make([]cblock, len(fn.Blocks))
	cf.recov = -1
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := cphi{dst: c.reg(x)}
				for _, ed := range x.Edges {
					ph.edge = append(ph.edge, c.opnd(ed))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump:
				t := b.Succs[0].Index
				cb.term = func(fr *frame) int { return t }
			case *ssa.If:
				cond := c.opnd(x.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				pos := x.Cond.Pos()
				cb.term = func(fr *frame) int {
					v := cond.get(fr)
					var taken bool
					if v.p == nil {
						taken = v.n != 0
					} else {
						fr.pos = pos
						taken = fr.m.branch(v.p.(*Term))
					}
					if taken {
						return t
					}
					return f
				}
			case *ssa.Return:
				cb.term = c.ret(x)
			case *ssa.Panic:
				o := c.opnd(x.X)
				pos := x.Pos()
				cb.term = func(fr *frame) int {
					fr.pos = pos
					panic(&targetPanic{v: o.get(fr), what: fr.m.panicText(o.get(fr)), site: fr.m.e.pos(pos)})
				}
			default:
				if op := c.instr(in); op != nil {
					cb.ops = append(cb.ops, op)
				}
			}
		}
		cb.n = len(cb.ops) + 1
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDef = true
			}
		}
	}
	cf.nregs = len(c.regs)
}

func (c *compiler) ret(x *ssa.Return) func(fr *frame) int {
	switch len(x.Results) {
	case 0:
		return func(fr *frame) int { return -1 }
	case 1:
		o := c.opnd(x.Results[0])
		return func(fr *frame) int { fr.result = o.get(fr); return -1 }
	}
	os := c.opnds(x.Results)
	return func(fr *frame) int {
		vs := make([]Value, len(os))
		for i := range os {
			vs[i] = os[i].get(fr)
		}
		fr.result = Value{p: &Agg{vs}}
		return -1
	}
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *compiler) opnds(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = c.opnd(v)
	}
	return out
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, v: constVal(x)}
	case *ssa.Function:
		return opnd{reg: -1, v: Value{p: &Closure{fn: x}}}
	case *ssa.Global:
		return opnd{reg: -2, gi: c.e.globalIndex(x)}
	case *ssa.Builtin:
		return opnd{reg: -1}
	}
	return opnd{reg: c.reg(v)}
}

func constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return zero(x.Type())
	}
	inf := infoOf(x.Type())
	switch inf.k {
	case kBool:
		return vbool(constant.BoolVal(x.Value))
	case kInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: wrapConst(uint64(i), inf.w, inf.signed)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if inf.w == 32 {
			f = float64(float32(f))
		}
		return vf(f)
	case kString:
		if x.Value.Kind() == constant.String {
			return vstr(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return vstr(string(rune(i)))
	}
	panic(fmt.Sprintf("const %s", x))
}

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	pos := in.Pos()
	switch in.(type) {
	case *ssa.UnOp, *ssa.Store:
	default:
		for _, o := range in.Operands(nil) {
			if g, ok := (*o).(*ssa.Global); ok && !c.e.globalOK(g) {
				return func(fr *frame) { unsup("global %s of a package that is not initialised", g.String()) }
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAggType(t) {
			return func(fr *frame) {
				v := zero(t)
				fr.regs[d] = Value{p: &v}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{p: new(Value)} }
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.Store:
		a, v := c.opnd(x.Addr), c.opnd(x.Val)
		if c.watched(x.Addr) {
			return func(fr *frame) {
				p := fr.m.ptr(a.get(fr), fr, pos)
				if len(fr.m.gs) > 1 {
					fr.pos = pos
					fr.accessedAll(p, true)
				}
				fr.m.store(p, v.get(fr))
			}
		}
		return func(fr *frame) {
			p := fr.m.ptr(a.get(fr), fr, pos)
			fr.m.store(p, v.get(fr))
		}
	case *ssa.FieldAddr:
		d, a, f := c.reg(x), c.opnd(x.X), x.Field
		return func(fr *frame) {
			p := fr.m.ptr(a.get(fr), fr, pos)
			fr.regs[d] = Value{p: &p.p.(*Agg).v[f]}
		}
	case *ssa.Field:
		d, a, f := c.reg(x), c.opnd(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = a.get(fr).p.(*Agg).v[f] }
	case *ssa.IndexAddr:
		d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
		_, isSlice := x.X.Type().Underlying().(*types.Slice)
		return func(fr *frame) {
			var arr []Value
			if isSlice {
				arr = sliceOf(a.get(fr))
			} else {
				arr = fr.m.ptr(a.get(fr), fr, pos).p.(*Agg).v
			}
			k := fr.m.bound(i.get(fr), len(arr), fr, pos)
			fr.regs[d] = Value{p: &arr[k]}
		}
	case *ssa.Index:
		d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
		if infoOf(x.X.Type()).k == kString {
			return func(fr *frame) { fr.pos = pos; fr.regs[d] = fr.m.strIndex(a.get(fr), i.get(fr)) }
		}
		return func(fr *frame) {
			arr := a.get(fr).p.(*Agg).v
			k := fr.m.bound(i.get(fr), len(arr), fr, pos)
			fr.regs[d] = arr[k]
		}
	case *ssa.Lookup:
		d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
		if infoOf(x.X.Type()).k == kString {
			return func(fr *frame) { fr.pos = pos; fr.regs[d] = fr.m.strIndex(a.get(fr), i.get(fr)) }
		}
		mt := x.X.Type().Underlying().(*types.Map)
		et := mt.Elem()
		comma := x.CommaOk
		watch := c.cf.watch
		return func(fr *frame) {
			fr.pos = pos
			mv := a.get(fr)
			if watch {
				fr.accessedMap(mv, false)
			}
			var v Value
			ok := false
			if mv.p != nil {
				v, ok = fr.m.mapGet(mv.p.(*Map), i.get(fr), et)
			} else {
				fr.m.key(mt.Key(), i.get(fr))
			}
			if !ok {
				v = zero(et)
			}
			if comma {
				v = tuple(v, vbool(ok))
			}
			fr.regs[d] = v
		}
	case *ssa.MapUpdate:
		a, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		watch := c.cf.watch
		return func(fr *frame) {
			fr.pos = pos
			mv := a.get(fr)
			if watch {
				fr.accessedMap(mv, true)
			}
			if mv.p == nil {
				fr.m.rtPanic("assignment to entry in nil map")
			}
			fr.m.mapSet(mv.p.(*Map), k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = Value{p: newMap(kt)} }
	case *ssa.MakeChan:
		d, sz := c.reg(x), c.opnd(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			n := fr.m.idx(sz.get(fr))
			if n < 0 {
				fr.m.rtPanic("makechan: size out of range")
			}
			fr.regs[d] = Value{p: fr.m.newChan(n, et)}
		}
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.opnd(x.Len), c.opnd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			fr.pos = pos
			n, k := fr.m.idx(l.get(fr)), fr.m.idx(cp.get(fr))
			if n < 0 || k < n {
				fr.m.rtPanic("makeslice: len out of range")
			}
			if k > 1<<22 {
				unsup("makeslice of %d", k)
			}
			fr.regs[d] = Value{p: &Slice{makeVals(k, et)[:n]}}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.MakeInterface:
		d, a, t := c.reg(x), c.opnd(x.X), x.X.Type()
		return func(fr *frame) { fr.regs[d] = Value{p: &Iface{t, a.get(fr)}} }
	case *ssa.ChangeInterface:
		d, a := c.reg(x), c.opnd(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case *ssa.ChangeType:
		d, a := c.reg(x), c.opnd(x.X)
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), c.reg(x), pos)
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), c.reg(x), pos)
	case *ssa.SliceToArrayPointer:
		d, a := c.reg(x), c.opnd(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := sliceOf(a.get(fr))
			if len(s) < n {
				fr.m.rtPanic("cannot convert slice to array pointer: length")
			}
			fr.regs[d] = Value{p: &Value{p: &Agg{s[:n:n]}}}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Extract:
		d, a, i := c.reg(x), c.opnd(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = a.get(fr).p.(*Agg).v[i] }
	case *ssa.MakeClosure:
		d := c.reg(x)
		fn := x.Fn.(*ssa.Function)
		bs := c.opnds(x.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = Value{p: &Closure{fn: fn, env: env}}
		}
	case *ssa.Call:
		d := c.reg(x)
		if fn, ok := x.Call.Value.(*ssa.Function); ok && !x.Call.IsInvoke() {
			cf := c.e.cfunc(fn)
			args := c.opnds(x.Call.Args)
			return func(fr *frame) {
				fr.pos = pos
				vs := make([]Value, len(args))
				for i := range args {
					vs[i] = args[i].get(fr)
				}
				fr.g.fr = fr
				fr.regs[d] = fr.g.call(cf, vs, nil)
			}
		}
		f := c.call(&x.Call, pos)
		return func(fr *frame) {
			fr.pos = pos
			fr.g.fr = fr
			fr.regs[d] = f(fr)(fr.g)
		}
	case *ssa.Defer:
		f := c.call(&x.Call, pos)
		return func(fr *frame) {
			fr.pos = pos
			fr.defers = append(fr.defers, deferred{f(fr)})
		}
	case *ssa.Go:
		f := c.call(&x.Call, pos)
		return func(fr *frame) {
			fr.pos = pos
			th := f(fr)
			fr.m.spawn(func(g *G) { th(g) }, fr.m.e.pos(pos))
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Send:
		ch, v := c.opnd(x.Chan), c.opnd(x.X)
		return func(fr *frame) {
			fr.pos = pos
			fr.m.chanSend(fr.g, ch.get(fr), v.get(fr))
		}
	case *ssa.Select:
		return c.selectInstr(x)
	case *ssa.Range:
		d, a := c.reg(x), c.opnd(x.X)
		if infoOf(x.X.Type()).k == kString {
			return func(fr *frame) {
				fr.regs[d] = Value{p: &strIter{us: unitsOf(a.get(fr)), off: fr.m.ctx.Int(0)}}
			}
		}
		watch := c.cf.watch
		return func(fr *frame) {
			mv := a.get(fr)
			if watch {
				fr.accessedMap(mv, false)
			}
			it := &mapIter{}
			if mv.p != nil {
				mp := mv.p.(*Map)
				for _, e := range mp.es {
					if !e.dead {
						it.es = append(it.es, e)
					}
				}
				fr.m.orderMap(it.es)
			}
			fr.regs[d] = Value{p: it}
		}
	case *ssa.Next:
		d, a := c.reg(x), c.opnd(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := a.get(fr).p.(*strIter)
				if it.i >= len(it.us) {
					fr.regs[d] = tuple(vbool(false), Value{}, Value{})
					return
				}
				off := it.off
				r, n, l := fr.m.decodeAt(it.us, it.i)
				it.i += n
				it.off = fr.m.ctx.Add(it.off, fr.m.term(l, kInt))
				fr.regs[d] = tuple(vbool(true), vterm(off), r)
			}
		}
		return func(fr *frame) {
			it := a.get(fr).p.(*mapIter)
			for it.i < len(it.es) && it.es[it.i].dead {
				it.i++
			}
			if it.i >= len(it.es) {
				fr.regs[d] = tuple(vbool(false), Value{}, Value{})
				return
			}
			e := it.es[it.i]
			it.i++
			fr.regs[d] = tuple(vbool(true), e.k, e.v)
		}
	}
	s := fmt.Sprintf("instruction %T in %s", in, c.cf.fn)
	return func(fr *frame) { unsup("%s", s) }
}

type strIter struct {
	us  []unit
	i   int
	off *Term
}
type mapIter struct {
	es []*entry
	i  int
}

func makeVals(n int, et types.Type) []Value {
	a := make([]Value, n)
	if isAggType(et) {
		for i := range a {
			a[i] = zero(et)
		}
	}
	return a
}

func (c *compiler) slice(x *ssa.Slice) func(fr *frame) {
	d, a := c.reg(x), c.opnd(x.X)
	pos := x.Pos()
	var lo, hi, mx *opnd
	if x.Low != nil {
		o := c.opnd(x.Low)
		lo = &o
	}
	if x.High != nil {
		o := c.opnd(x.High)
		hi = &o
	}
	if x.Max != nil {
		o := c.opnd(x.Max)
		mx = &o
	}
	if infoOf(x.X.Type()).k == kString {
		return func(fr *frame) {
			fr.pos = pos
			var l, h *Value
			if lo != nil {
				v := lo.get(fr)
				l = &v
			}
			if hi != nil {
				v := hi.get(fr)
				h = &v
			}
			fr.regs[d] = fr.m.strSlice(a.get(fr), l, h)
		}
	}
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		fr.pos = pos
		av := a.get(fr)
		var s []Value
		isNil := false
		if isPtr {
			s = fr.m.ptr(av, fr, pos).p.(*Agg).v
		} else {
			isNil = av.p == nil
			s = sliceOf(av)
		}
		l, h, k := 0, len(s), cap(s)
		if mx != nil {
			k = fr.m.idxIn(mx.get(fr), cap(s))
		}
		if hi != nil {
			h = fr.m.idxIn(hi.get(fr), k)
		}
		if lo != nil {
			l = fr.m.idxIn(lo.get(fr), h)
		}
		if k < 0 || k > cap(s) || h < 0 || h > k || l < 0 || l > h {
			fr.m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(s)))
		}
		if isNil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{p: &Slice{s[l:h:k]}}
	}
}

func (c *compiler) unop(x *ssa.UnOp) func(fr *frame) {
	d, a := c.reg(x), c.opnd(x.X)
	pos := x.Pos()
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && !c.e.globalOK(g) {
			nm := g.String()
			return func(fr *frame) {
				if v, ok := fr.m.lateGlobal(nm); ok {
					fr.regs[d] = v
					return
				}
				unsup("global %s of a package that is not initialised", nm)
			}
		}
		if c.watched(x.X) {
			return func(fr *frame) {
				p := fr.m.ptr(a.get(fr), fr, pos)
				if len(fr.m.gs) > 1 {
					fr.pos = pos
					fr.accessedAll(p, false)
				}
				fr.regs[d] = copyVal(*p)
			}
		}
		if !isAggType(x.Type()) {
			return func(fr *frame) {
				v := a.get(fr)
				p, _ := v.p.(*Value)
				if p == nil {
					p = fr.m.ptr(v, fr, pos)
				}
				fr.regs[d] = *p
			}
		}
		return func(fr *frame) {
			p := fr.m.ptr(a.get(fr), fr, pos)
			fr.regs[d] = copyVal(*p)
		}
	case token.ARROW:
		comma := x.CommaOk
		return func(fr *frame) {
			fr.pos = pos
			v, ok := fr.m.chanRecv(fr.g, a.get(fr))
			if comma {
				v = tuple(v, vbool(ok))
			}
			fr.regs[d] = v
		}
	case token.NOT:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[d] = Value{n: v.n ^ 1}
			} else {
				fr.regs[d] = vterm(fr.m.ctx.Not(v.p.(*Term)))
			}
		}
	case token.SUB:
		inf := infoOf(x.Type())
		if inf.k == kFloat {
			return func(fr *frame) {
				v := a.get(fr)
				if v.p == nil {
					fr.regs[d] = vf(-math.Float64frombits(v.n))
				} else {
					fr.regs[d] = vterm(fr.m.fold(fr.m.ctx.f1(OFNeg, 0, v.p.(*Term))))
				}
			}
		}
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[d] = Value{n: wrapConst(-v.n, inf.w, inf.signed)}
			} else {
				m := fr.m.ctx
				fr.regs[d] = vterm(m.Wrap(m.Neg(v.p.(*Term)), inf.w, inf.signed))
			}
		}
	case token.XOR:
		inf := infoOf(x.Type())
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[d] = Value{n: wrapConst(^v.n, inf.w, inf.signed)}
			} else {
				m := fr.m.ctx
				fr.regs[d] = vterm(m.Wrap(m.Xor(v.p.(*Term), m.Int(-1)), inf.w, inf.signed))
			}
		}
	}
	return func(fr *frame) { unsup("unop %s", x.Op) }
}

func (c *compiler) binop(x *ssa.BinOp) func(fr *frame) {
	d, a, b := c.reg(x), c.opnd(x.X), c.opnd(x.Y)
	pos := x.Pos()
	t := x.X.Type()
	inf := infoOf(t)
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if inf.k == kInt || inf.k == kBool {
			k := inf.k
			return func(fr *frame) {
				p, q := a.get(fr), b.get(fr)
				if p.p == nil && q.p == nil {
					fr.regs[d] = vbool((p.n == q.n) != neg)
					return
				}
				r := fr.m.ctx.Eq(fr.m.term(p, k), fr.m.term(q, k))
				if neg {
					r = fr.m.ctx.Not(r)
				}
				fr.regs[d] = vterm(r)
			}
		}
		yt := x.Y.Type()
		return func(fr *frame) {
			fr.pos = pos
			p, q := a.get(fr), b.get(fr)
			tt := t
			// mixed interface/concrete comparison
			if inf.k == kIface && infoOf(yt).k != kIface {
				q = Value{p: &Iface{yt, q}}
			} else if inf.k != kIface && infoOf(yt).k == kIface {
				p = Value{p: &Iface{t, p}}
				tt = yt
			}
			r := fr.m.eq(tt, p, q)
			if neg {
				r = fr.m.ctx.Not(r)
			}
			fr.regs[d] = vterm(r)
		}
	}
	switch inf.k {
	case kString:
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = strCat(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.regs[d] = vterm(fr.m.strLt(a.get(fr), b.get(fr))) }
		case token.GTR:
			return func(fr *frame) { fr.regs[d] = vterm(fr.m.strLt(b.get(fr), a.get(fr))) }
		case token.LEQ:
			return func(fr *frame) { fr.regs[d] = vterm(fr.m.ctx.Not(fr.m.strLt(b.get(fr), a.get(fr)))) }
		case token.GEQ:
			return func(fr *frame) { fr.regs[d] = vterm(fr.m.ctx.Not(fr.m.strLt(a.get(fr), b.get(fr)))) }
		}
	case kFloat:
		f32 := inf.w == 32
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.p == nil && q.p == nil {
				fr.regs[d] = floatOp(op, p.n, q.n, f32)
				return
			}
			if f32 {
				unsup("symbolic float32")
			}
			m := fr.m.ctx
			s, u := fr.m.term(p, kFloat), fr.m.term(q, kFloat)
			var r *Term
			switch op {
			case token.ADD:
				r = fr.m.fold(m.f2(OFAdd, s, u))
			case token.SUB:
				r = fr.m.fold(m.f2(OFSub, s, u))
			case token.MUL:
				r = fr.m.fold(m.f2(OFMul, s, u))
			case token.QUO:
				r = fr.m.fold(m.f2(OFDiv, s, u))
			case token.LSS:
				r = fr.m.fcmp(OFLt, s, u)
			case token.LEQ:
				r = fr.m.fcmp(OFLe, s, u)
			case token.GTR:
				r = fr.m.fcmp(OFLt, u, s)
			case token.GEQ:
				r = fr.m.fcmp(OFLe, u, s)
			}
			fr.regs[d] = vterm(r)
		}
	case kBool:
		return func(fr *frame) {
			m := fr.m.ctx
			p, q := fr.m.term(a.get(fr), kBool), fr.m.term(b.get(fr), kBool)
			switch op {
			case token.AND, token.LAND:
				fr.regs[d] = vterm(m.BAnd(p, q))
			case token.OR, token.LOR:
				fr.regs[d] = vterm(m.BOr(p, q))
			default:
				unsup("bool op %s", op)
			}
		}
	case kInt:
		w, sg := inf.w, inf.signed
		yInf := infoOf(x.Y.Type())
		var fast func(p, q uint64) uint64
		switch op {
		case token.ADD:
			fast = func(p, q uint64) uint64 { return wrapConst(p+q, w, sg) }
		case token.SUB:
			fast = func(p, q uint64) uint64 { return wrapConst(p-q, w, sg) }
		case token.MUL:
			fast = func(p, q uint64) uint64 { return wrapConst(p*q, w, sg) }
		case token.AND:
			fast = func(p, q uint64) uint64 { return p & q }
		case token.OR:
			fast = func(p, q uint64) uint64 { return p | q }
		case token.XOR:
			fast = func(p, q uint64) uint64 { return wrapConst(p^q, w, sg) }
		case token.AND_NOT:
			fast = func(p, q uint64) uint64 { return p &^ q }
		case token.LSS:
			if sg {
				fast = func(p, q uint64) uint64 { return b2u(int64(p) < int64(q)) }
			} else {
				fast = func(p, q uint64) uint64 { return b2u(p < q) }
			}
		case token.LEQ:
			if sg {
				fast = func(p, q uint64) uint64 { return b2u(int64(p) <= int64(q)) }
			} else {
				fast = func(p, q uint64) uint64 { return b2u(p <= q) }
			}
		case token.GTR:
			if sg {
				fast = func(p, q uint64) uint64 { return b2u(int64(p) > int64(q)) }
			} else {
				fast = func(p, q uint64) uint64 { return b2u(p > q) }
			}
		case token.GEQ:
			if sg {
				fast = func(p, q uint64) uint64 { return b2u(int64(p) >= int64(q)) }
			} else {
				fast = func(p, q uint64) uint64 { return b2u(p >= q) }
			}
		}
		slow := func(fr *frame, p, q Value) Value {
			fr.pos = pos
			return fr.m.intOp(op, p, q, inf, yInf)
		}
		if fast == nil {
			return func(fr *frame) { fr.regs[d] = slow(fr, a.get(fr), b.get(fr)) }
		}
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.p == nil && q.p == nil {
				fr.regs[d] = Value{n: fast(p.n, q.n)}
				return
			}
			fr.regs[d] = slow(fr, p, q)
		}
	}
	return func(fr *frame) { unsup("binop %s on %s", op, t) }
}

func floatOp(op token.Token, pn, qn uint64, f32 bool) Value {
	p, q := math.Float64frombits(pn), math.Float64frombits(qn)
	var r float64
	switch op {
	case token.ADD:
		r = p + q
	case token.SUB:
		r = p - q
	case token.MUL:
		r = p * q
	case token.QUO:
		r = p / q
	case token.LSS:
		return vbool(p < q)
	case token.LEQ:
		return vbool(p <= q)
	case token.GTR:
		return vbool(p > q)
	case token.GEQ:
		return vbool(p >= q)
	}
	if f32 {
		r = float64(float32(r))
	}
	return vf(r)
}

func (m *Machine) intOp(op token.Token, a, b Value, inf, yInf tinfo) Value {
	c := m.ctx
	p, q := m.term(a, kInt), m.term(b, kInt)
	w, sg := inf.w, inf.signed
	wr := func(t *Term) Value { return vterm(c.Wrap(t, w, sg)) }
	lt := func(x, y *Term) *Term {
		if sg {
			return c.Lt(x, y)
		}
		return c.ULt(x, y)
	}
	switch op {
	case token.ADD:
		return wr(c.Add(p, q))
	case token.SUB:
		return wr(c.Sub(p, q))
	case token.MUL:
		return wr(c.Mul(p, q))
	case token.QUO, token.REM:
		if m.branch(c.Eq(q, c.Int(0))) {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if sg {
				return wr(c.SDiv(p, q))
			}
			return wr(c.UDiv(p, q))
		}
		if sg {
			return wr(c.SRem(p, q))
		}
		return wr(c.URem(p, q))
	case token.AND:
		return vterm(c.And(p, q))
	case token.OR:
		return vterm(c.Or(p, q))
	case token.XOR:
		return wr(c.Xor(p, q))
	case token.AND_NOT:
		return vterm(c.And(p, c.Xor(q, c.Int(-1))))
	case token.SHL, token.SHR:
		if yInf.signed {
			if m.branch(c.Lt(q, c.Int(0))) {
				m.rtPanic("negative shift amount")
			}
		}
		if op == token.SHL {
			return wr(c.Shl(p, q))
		}
		if sg {
			return vterm(c.Ashr(p, q))
		}
		return vterm(c.Lshr(p, q))
	case token.LSS:
		return vterm(lt(p, q))
	case token.GTR:
		return vterm(lt(q, p))
	case token.LEQ:
		return vterm(c.Not(lt(q, p)))
	case token.GEQ:
		return vterm(c.Not(lt(p, q)))
	}
	unsup("int op %s", op)
	return Value{}
}

func (c *compiler) convert(xv ssa.Value, to types.Type, d int, pos token.Pos) func(fr *frame) {
	a := c.opnd(xv)
	from := xv.Type()
	fi, ti := infoOf(from), infoOf(to)
	switch {
	case fi.k == kInt && ti.k == kInt:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[d] = Value{n: wrapConst(v.n, ti.w, ti.signed)}
			} else {
				fr.regs[d] = vterm(fr.m.ctx.Wrap(v.p.(*Term), ti.w, ti.signed))
			}
		}
	case fi.k == kInt && ti.k == kFloat:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				f := float64(int64(v.n))
				if !fi.signed {
					f = float64(v.n)
				}
				if ti.w == 32 {
					f = float64(float32(f))
				}
				fr.regs[d] = vf(f)
				return
			}
			fr.regs[d] = vterm(fr.m.fold(fr.m.ctx.ItoF(v.p.(*Term), !fi.signed)))
		}
	case fi.k == kFloat && ti.k == kInt:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				f := math.Float64frombits(v.n)
				var u uint64
				if ti.signed {
					u = uint64(goFtoI(f))
				} else {
					u = uint64(f)
				}
				fr.regs[d] = Value{n: wrapConst(u, ti.w, ti.signed)}
				return
			}
			if !ti.signed {
				unsup("symbolic float to unsigned")
			}
			fr.regs[d] = vterm(fr.m.ctx.Wrap(fr.m.ftoi(v.p.(*Term)), ti.w, ti.signed))
		}
	case fi.k == kFloat && ti.k == kFloat:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil && ti.w == 32 {
				v = vf(float64(float32(math.Float64frombits(v.n))))
			}
			fr.regs[d] = v
		}
	case fi.k == kInt && ti.k == kString:
		return func(fr *frame) {
			v := a.get(fr)
			if v.p == nil {
				r := rune(int32(v.n))
				if int64(v.n) > 0x10ffff || int64(v.n) < 0 {
					r = 0xfffd
				}
				fr.regs[d] = vstr(string(r))
				return
			}
			fr.regs[d] = strVal(fr.m.runeUnits(v.p.(*Term)))
		}
	case fi.k == kString && ti.k == kString:
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case fi.k == kString && ti.k == kSlice:
		ei := infoOf(to.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(fr *frame) {
				bs := fr.m.strBytes(a.get(fr))
				fr.regs[d] = Value{p: &Slice{roundCap(bs, 1)}}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{p: &Slice{roundCap(fr.m.strRunes(a.get(fr)), 4)}} }
	case fi.k == kSlice && ti.k == kString:
		ei := infoOf(from.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(fr *frame) { fr.regs[d] = bytesStr(sliceOf(a.get(fr))) }
		}
		return func(fr *frame) { fr.regs[d] = fr.m.runesStr(sliceOf(a.get(fr))) }
	case fi.k == ti.k && fi.k != kUnsafe:
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	}
	return func(fr *frame) { unsup("conversion %s -> %s in %s", from, to, c.cf.fn) }
}

func roundCap(vs []Value, sz int) []Value {
	k := roundupsize(len(vs)*sz) / sz
	out := make([]Value, len(vs), max(k, len(vs)))
	copy(out, vs)
	return out
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	d, a := c.reg(x), c.opnd(x.X)
	to := x.AssertedType
	pos := x.Pos()
	isI := types.IsInterface(to)
	comma := x.CommaOk
	var iface *types.Interface
	if isI {
		iface = to.Underlying().(*types.Interface)
	}
	return func(fr *frame) {
		v := a.get(fr)
		i, _ := v.p.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if isI {
				ok = fr.m.e.implements(i.t, iface)
				r = v
			} else {
				ok = i.t == to || types.Identical(i.t, to)
				r = i.v
			}
		}
		if !ok {
			if !comma {
				fr.pos = pos
				fr.m.rtPanic("interface conversion: not " + to.String())
			}
			fr.regs[d] = tuple(zero(to), vbool(false))
			return
		}
		if comma {
			r = tuple(r, vbool(true))
		}
		fr.regs[d] = r
	}
}

// call compiles a call: evaluating it yields a thunk to run on a goroutine.
func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) func(g *G) Value {
	args := c.opnds(cc.Args)
	eval := func(fr *frame, extra int) []Value {
		vs := make([]Value, extra+len(args))
		for i := range args {
			vs[extra+i] = args[i].get(fr)
		}
		return vs
	}
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		meth := cc.Method
		return func(fr *frame) func(g *G) Value {
			rv := recv.get(fr)
			i, _ := rv.p.(*Iface)
			if i == nil {
				fr.pos = pos
				fr.m.nilPanic()
			}
			vs := eval(fr, 1)
			vs[0] = i.v
			cf := fr.m.e.method(i.t, meth)
			if cf == nil {
				unsup("no method %s on %s", meth.Name(), i.t)
			}
			return func(g *G) Value { return g.call(cf, vs, nil) }
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		rt := cc.Signature().Results()
		name := f.Name()
		_ = rt
		return func(fr *frame) func(g *G) Value {
			vs := eval(fr, 0)
			return func(g *G) Value { return g.builtin(name, vs, ats, fr) }
		}
	case *ssa.Function:
		cf := c.e.cfunc(f)
		return func(fr *frame) func(g *G) Value {
			vs := eval(fr, 0)
			return func(g *G) Value { return g.call(cf, vs, nil) }
		}
	}
	fo := c.opnd(cc.Value)
	return func(fr *frame) func(g *G) Value {
		fv := fo.get(fr)
		vs := eval(fr, 0)
		cl, _ := fv.p.(*Closure)
		if cl == nil {
			return func(g *G) Value { g.m.nilPanic(); return Value{} }
		}
		return func(g *G) Value { return g.callClosure(cl, vs) }
	}
}
