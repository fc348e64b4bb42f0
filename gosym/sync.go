package main

import (
	"go/types"
	"math"
)

// Locks, wait groups, atomics and timers under the engine's scheduler.

func (m *Machine) setN(p *Value, n uint64) { m.set(p, Value{n: n, p: p.p}) }

func syncNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[name] = f }

	// Mutex, RWMutex: state in the n field of the struct's slot.
	// 0 free, 1<<32 write locked, k readers
	const W = uint64(1) << 32
	slot := func(g *G, v Value) *Value {
		p := recv(v)
		if p == nil {
			g.m.nilPanic()
		}
		return p
	}
	lock := func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.opWhen(g, "lock", func() bool { return p.n == 0 }, foot{p, true})
		g.m.setN(p, W)
		return Value{}
	}
	unlock := func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		if p.n != W {
			panic(&endPath{"panic", "unlock of unlocked mutex"})
		}
		g.m.setN(p, 0)
		g.m.release(g, p)
		return Value{}
	}
	trylock := func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.op(g, foot{p, true})
		if p.n != 0 {
			return vbool(false)
		}
		g.m.setN(p, W)
		return vbool(true)
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+t+").Lock", lock)
		reg("(*sync."+t+").Unlock", unlock)
		reg("(*sync."+t+").TryLock", trylock)
	}
	reg("(*sync.RWMutex).RLock", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.opWhen(g, "rlock", func() bool { return p.n != W }, foot{p, false})
		g.m.setN(p, p.n+1)
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.setN(p, p.n-1)
		g.m.release(g, p)
		return Value{}
	})
	add := func(g *G, p *Value, d int64) {
		if d > 0 {
			g.m.op(g, foot{p, true})
		}
		k := int64(p.n) + d
		if k < 0 {
			g.m.rtPanicPlain("sync: negative WaitGroup counter")
		}
		g.m.setN(p, uint64(k))
		if d < 0 {
			g.m.release(g, p)
		}
	}
	reg("(*sync.WaitGroup).Add", func(g *G, _ fnT, a []Value) Value {
		add(g, slot(g, a[0]), int64(g.m.idx(a[1])))
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(g *G, _ fnT, a []Value) Value {
		add(g, slot(g, a[0]), -1)
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.opWhen(g, "WaitGroup", func() bool { return p.n == 0 }, foot{p, false})
		return Value{}
	})
	reg("(*sync.WaitGroup).Go", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		add(g, p, 1)
		cl := a[1].p.(*Closure)
		g.m.spawn(func(g *G) {
			g.callClosure(cl, nil)
			add(g, p, -1)
		}, g.m.site())
		return Value{}
	})
	reg("(*sync.Once).Do", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.opWhen(g, "Once", func() bool { return p.n != 1 }, foot{p, true})
		if p.n == 2 {
			return Value{}
		}
		g.m.setN(p, 1)
		defer func() {
			g.m.setN(p, 2)
			g.m.release(g, p)
		}()
		g.callClosure(a[1].p.(*Closure), nil)
		return Value{}
	})
	reg("(*sync.Pool).Put", func(g *G, _ fnT, a []Value) Value { return Value{} })
	reg("(*sync.Pool).Get", func(g *G, _ fnT, a []Value) Value {
		nw := *lastField(a[0])
		if nw.p == nil {
			return Value{}
		}
		return g.callClosure(nw.p.(*Closure), nil)
	})

	// atomic struct types: the value is the last field
	type at struct {
		name string
		inf  tinfo
	}
	for _, t := range []at{{"Int32", tinfo{kInt, 32, true}}, {"Int64", tinfo{kInt, 64, true}}, {"Uint32", tinfo{kInt, 32, false}}, {"Uint64", tinfo{kInt, 64, false}}, {"Bool", tinfo{kBool, 1, false}}, {"Uintptr", tinfo{kInt, 64, false}}} {
		inf := t.inf
		pre := "(*sync/atomic." + t.name + ")."
		reg(pre+"Load", func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{lastField(a[0]), false})
			v := *lastField(a[0])
			return Value{n: v.n, p: v.p}
		})
		reg(pre+"Store", func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{lastField(a[0]), true})
			g.m.set(lastField(a[0]), a[1])
			return Value{}
		})
		reg(pre+"Swap", func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{lastField(a[0]), true})
			old := *lastField(a[0])
			g.m.set(lastField(a[0]), a[1])
			return old
		})
		reg(pre+"CompareAndSwap", func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{lastField(a[0]), true})
			p := lastField(a[0])
			var c *Term
			if p.p == nil && a[1].p == nil {
				c = g.m.ctx.Bool(p.n == a[1].n)
			} else {
				c = g.m.ctx.Eq(g.m.term(*p, inf.k), g.m.term(a[1], inf.k))
			}
			if !g.m.branch(c) {
				return vbool(false)
			}
			g.m.set(p, a[2])
			return vbool(true)
		})
		reg(pre+"Add", func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{lastField(a[0]), true})
			p := lastField(a[0])
			t := g.m.ctx.Wrap(g.m.ctx.Add(g.m.term(*p, kInt), g.m.term(a[1], kInt)), inf.w, inf.signed)
			g.m.set(p, vterm(t))
			return *p
		})
	}
	// atomic functions on plain words
	for _, t := range []at{{"Int32", tinfo{kInt, 32, true}}, {"Int64", tinfo{kInt, 64, true}}, {"Uint32", tinfo{kInt, 32, false}}, {"Uint64", tinfo{kInt, 64, false}}} {
		inf := t.inf
		reg("sync/atomic.Load"+t.name, func(g *G, _ fnT, a []Value) Value { g.m.op(g, foot{recv(a[0]), false}); return *recv(a[0]) })
		reg("sync/atomic.Store"+t.name, func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{recv(a[0]), true})
			g.m.set(recv(a[0]), a[1])
			return Value{}
		})
		reg("sync/atomic.Add"+t.name, func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{recv(a[0]), true})
			p := recv(a[0])
			g.m.set(p, vterm(g.m.ctx.Wrap(g.m.ctx.Add(g.m.term(*p, kInt), g.m.term(a[1], kInt)), inf.w, inf.signed)))
			return *p
		})
		reg("sync/atomic.CompareAndSwap"+t.name, func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{recv(a[0]), true})
			p := recv(a[0])
			if p.n != a[1].n || p.p != nil {
				return vbool(false)
			}
			g.m.set(p, a[2])
			return vbool(true)
		})
	}
	// atomic.Value and atomic.Pointer
	reg("(*sync/atomic.Value).Load", func(g *G, _ fnT, a []Value) Value { g.m.op(g, foot{lastField(a[0]), false}); return *lastField(a[0]) })
	reg("(*sync/atomic.Value).Store", func(g *G, _ fnT, a []Value) Value {
		g.m.op(g, foot{lastField(a[0]), true})
		g.m.set(lastField(a[0]), a[1])
		return Value{}
	})
	reg("(*sync/atomic.Pointer[T]).Load", func(g *G, _ fnT, a []Value) Value { g.m.op(g, foot{lastField(a[0]), false}); return *lastField(a[0]) })
	reg("(*sync/atomic.Pointer[T]).Store", func(g *G, _ fnT, a []Value) Value {
		g.m.op(g, foot{lastField(a[0]), true})
		g.m.set(lastField(a[0]), a[1])
		return Value{}
	})

	// time: virtual clock
	mkTime := func(m *Machine) Value {
		const base = 62135596800 + 1700000000 // year 1 to the virtual epoch
		sec, ns := m.now/1e9, m.now%1e9
		return Value{p: &Agg{[]Value{{n: uint64(ns)}, vi64(base + sec), {}}}}
	}
	reg("time.Now", func(g *G, _ fnT, a []Value) Value { return mkTime(g.m) })
	since := func(g *G, t Value) int64 {
		const base = 62135596800 + 1700000000
		ns, sec := int64(g.m.idx(t.p.(*Agg).v[0]))&(1<<30-1), int64(g.m.idx(t.p.(*Agg).v[1]))-base
		if sec > 1<<33 {
			return math.MinInt64
		}
		if sec < -(1 << 33) {
			return math.MaxInt64
		}
		return g.m.now - (sec*1e9 + ns)
	}
	reg("time.Since", func(g *G, _ fnT, a []Value) Value { return vi64(since(g, a[0])) })
	reg("time.Until", func(g *G, _ fnT, a []Value) Value { return vi64(-since(g, a[0])) })
	reg("time.Sleep", func(g *G, _ fnT, a []Value) Value {
		d := g.m.idx(a[0])
		if d <= 0 {
			return Value{}
		}
		woke := false
		g.m.addTimer(int64(d), func() { woke = true })
		g.m.block(g, "sleep", func() bool { return woke })
		return Value{}
	})
	after := func(m *Machine, d int64, et types.Type) (*Chan, *vtimer) {
		c := m.newChan(1, et)
		t := m.addTimer(d, func() {
			m.offer(c, mkTime(m))
		})
		return c, t
	}
	chanElem := func(fn fnT) types.Type { return fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem() }
	reg("time.After", func(g *G, fn fnT, a []Value) Value {
		c, _ := after(g.m, int64(g.m.idx(a[0])), chanElem(fn))
		return Value{p: c}
	})
	reg("time.NewTimer", func(g *G, fn fnT, a []Value) Value {
		st := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		v := zero(st)
		et := st.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()
		c, t := after(g.m, int64(g.m.idx(a[0])), et)
		v.p.(*Agg).v[0] = Value{p: c}
		p := &v
		g.m.extra["timer"] = nil
		tm, _ := g.m.extra["timers"].(map[*Value]*vtimer)
		if tm == nil {
			tm = map[*Value]*vtimer{}
			g.m.extra["timers"] = tm
		}
		tm[p] = t
		return Value{p: p}
	})
	reg("(*time.Timer).Stop", func(g *G, fn fnT, a []Value) Value {
		tm, _ := g.m.extra["timers"].(map[*Value]*vtimer)
		t := tm[recv(a[0])]
		if t == nil {
			return vbool(false)
		}
		was := !t.off
		t.off = true
		return vbool(was)
	})
	reg("time.AfterFunc", func(g *G, fn fnT, a []Value) Value {
		st := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		v := zero(st)
		cl := a[1].p.(*Closure)
		m := g.m
		t := m.addTimer(int64(m.idx(a[0])), func() { m.spawn(func(g *G) { g.callClosure(cl, nil) }, "timer") })
		tm, _ := m.extra["timers"].(map[*Value]*vtimer)
		if tm == nil {
			tm = map[*Value]*vtimer{}
			m.extra["timers"] = tm
		}
		p := &v
		tm[p] = t
		return Value{p: p}
	})
	reg("runtime.Gosched", func(g *G, _ fnT, a []Value) Value { return Value{} })
	reg("(*errors.joinError).Error", joinedText)
	reg("runtime.SetFinalizer", func(g *G, _ fnT, a []Value) Value { return Value{} })
	reg("runtime.KeepAlive", func(g *G, _ fnT, a []Value) Value { return Value{} })
	reg("os/signal.Notify", func(g *G, _ fnT, a []Value) Value {
		g.m.op(g, foot{"signals", true})
		l, _ := g.m.extra["signals"].([]*Chan)
		g.m.extra["signals"] = append(l, a[0].p.(*Chan))
		return Value{}
	})
	reg("os/signal.Stop", func(g *G, _ fnT, a []Value) Value {
		g.m.op(g, foot{"signals", true})
		l, _ := g.m.extra["signals"].([]*Chan)
		var o []*Chan
		for _, c := range l {
			if c != a[0].p {
				o = append(o, c)
			}
		}
		g.m.extra["signals"] = o
		return Value{}
	})
	reg("runtime/debug.PrintStack", func(g *G, _ fnT, a []Value) Value { return Value{} })
	reg("runtime/debug.Stack", func(g *G, _ fnT, a []Value) Value { return Value{} })
}
