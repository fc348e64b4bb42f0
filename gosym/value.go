package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one Go value. Scalars live in n (canonical 64-bit pattern) unless p
// holds a *Term. Other kinds use p:
//
//	string     string or *SymStr (nil: "")
//	pointer    *Value (nil: nil)
//	struct     *Agg, array *Agg, tuple *Agg
//	slice      *Slice (nil: nil)
//	map *Map, chan *Chan, func *Closure, interface *Iface (nil: nil)
type Value struct {
	n uint64
	p any
}

type Agg struct{ v []Value }
type Slice struct{ a []Value }
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(g *G, args []Value) Value
}

type unit struct {
	k byte // 0 concrete byte, 1 symbolic byte, 2 symbolic rune
	b byte
	t *Term
}
type SymStr struct{ u []unit }

type entry struct {
	k, v Value
	dead bool
	sym  bool
}
type Map struct {
	es     []*entry
	idx    map[any]*entry
	nsym   int
	live   int
	frozen bool
	kt     types.Type
}

func vint(i int) Value    { return Value{n: uint64(i)} }
func vi64(i int64) Value  { return Value{n: uint64(i)} }
func vstr(s string) Value { return Value{p: s} }
func vf(f float64) Value  { return Value{n: math.Float64bits(f)} }
func vterm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.n}
	}
	return Value{p: t}
}
func vbool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func tuple(vs ...Value) Value { return Value{p: &Agg{vs}} }

func copyVal(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		return Value{p: cloneAgg(a)}
	}
	return v
}
func cloneAgg(a *Agg) *Agg {
	nv := make([]Value, len(a.v))
	for i := range a.v {
		if x, ok := a.v[i].p.(*Agg); ok {
			nv[i] = Value{p: cloneAgg(x)}
		} else {
			nv[i] = a.v[i]
		}
	}
	return &Agg{nv}
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.v {
			ft := u.Field(i).Type()
			if isAggType(ft) {
				a.v[i] = zero(ft)
			}
		}
		return Value{p: a}
	case *types.Array:
		a := &Agg{make([]Value, u.Len())}
		if isAggType(u.Elem()) {
			for i := range a.v {
				a.v[i] = zero(u.Elem())
			}
		}
		return Value{p: a}
	case *types.Tuple:
		a := &Agg{make([]Value, u.Len())}
		for i := range a.v {
			a.v[i] = zero(u.At(i).Type())
		}
		return Value{p: a}
	}
	return Value{}
}

type kind uint8

const (
	kOther kind = iota
	kInt
	kBool
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kUnsafe
	kComplex
)

type tinfo struct {
	k      kind
	w      int
	signed bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool, w: 1}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{k: kFloat, w: 64}
		case types.Float32:
			return tinfo{k: kFloat, w: 32}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.Complex128, types.Complex64:
			return tinfo{k: kComplex}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	}
	return tinfo{}
}

// unsupported aborts the path: the engine cannot encode something.
type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// targetPanic is a Go panic of the code under test.
type targetPanic struct {
	v    Value // interface value
	what string
	site string
}

// term views a scalar value as a term.
func (m *Machine) term(v Value, k kind) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	switch k {
	case kBool:
		return m.ctx.Bool(v.n != 0)
	case kFloat:
		return m.ctx.Float(v.n)
	}
	return m.ctx.Int(int64(v.n))
}

func sliceOf(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return v.p.(*Slice).a
}

// ---- equality

func (m *Machine) eq(t types.Type, a, b Value) *Term {
	switch inf := infoOf(t); inf.k {
	case kInt, kBool:
		if a.p == nil && b.p == nil {
			return m.ctx.Bool(a.n == b.n)
		}
		return m.ctx.Eq(m.term(a, inf.k), m.term(b, inf.k))
	case kFloat:
		if a.p == nil && b.p == nil {
			return m.ctx.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		return m.fcmp(OFEq, m.term(a, kFloat), m.term(b, kFloat))
	case kString:
		return m.strEq(a, b)
	case kPtr, kMap, kChan, kUnsafe:
		return m.ctx.Bool(a.p == b.p)
	case kFunc, kSlice:
		// comparison with nil only
		return m.ctx.Bool(a.p == nil && b.p == nil)
	case kStruct:
		u := t.Underlying().(*types.Struct)
		r := m.ctx.True
		x, y := a.p.(*Agg), b.p.(*Agg)
		for i := range x.v {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.ctx.BAnd(r, m.eq(u.Field(i).Type(), x.v[i], y.v[i]))
			if r == m.ctx.False {
				return r
			}
		}
		return r
	case kArray:
		u := t.Underlying().(*types.Array)
		r := m.ctx.True
		x, y := a.p.(*Agg), b.p.(*Agg)
		for i := range x.v {
			r = m.ctx.BAnd(r, m.eq(u.Elem(), x.v[i], y.v[i]))
			if r == m.ctx.False {
				return r
			}
		}
		return r
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return m.ctx.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.ctx.False
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.t, x.v, y.v)
	}
	unsup("equality on %s", t)
	return nil
}

// ---- map keys

type ifaceKey struct {
	t string
	k any
}

// key encodes a concrete key as a comparable host value.
func (m *Machine) key(t types.Type, v Value) (any, bool) {
	switch inf := infoOf(t); inf.k {
	case kInt, kBool, kFloat:
		if v.p != nil {
			return nil, false
		}
		if inf.k == kFloat && v.n == 1<<63 {
			return uint64(0), true
		}
		return v.n, true
	case kString:
		switch s := v.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case kPtr, kChan, kUnsafe:
		return v.p, true
	case kIface:
		x, _ := v.p.(*Iface)
		if x == nil {
			return nil, true
		}
		if !types.Comparable(x.t) {
			m.rtPanic("hash of unhashable type " + x.t.String())
		}
		k, ok := m.key(x.t, x.v)
		return ifaceKey{types.TypeString(x.t, nil), k}, ok
	case kStruct:
		u := t.Underlying().(*types.Struct)
		x := v.p.(*Agg)
		if len(x.v) <= 4 {
			var fast [5]uint64
			fast[4] = uint64(len(x.v))
			ok := true
			for i := range x.v {
				if fk := infoOf(u.Field(i).Type()).k; fk != kInt && fk != kBool {
					ok = false
					break
				}
				if x.v[i].p != nil {
					return nil, false
				}
				fast[i] = x.v[i].n
			}
			if ok {
				return fast, true
			}
		}
		var b strings.Builder
		for i := range x.v {
			k, ok := m.key(u.Field(i).Type(), x.v[i])
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case uint64, string:
			default:
				fmt.Fprintf(&b, "%p", k)
			}
			fmt.Fprintf(&b, "%T:%v\x00", k, k)
		}
		return b.String(), true
	case kArray:
		u := t.Underlying().(*types.Array)
		x := v.p.(*Agg)
		var b strings.Builder
		for i := range x.v {
			k, ok := m.key(u.Elem(), x.v[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&b, "%T:%v\x00", k, k)
		}
		return b.String(), true
	}
	unsup("map key type %s", t)
	return nil, false
}

func newMap(kt types.Type) *Map { return &Map{idx: map[any]*entry{}, kt: kt} }

// find locates the entry for key k, forking on symbolic equalities.
func (m *Machine) mapFind(mp *Map, k Value) *entry {
	hk, conc := m.key(mp.kt, k)
	if conc && mp.nsym == 0 {
		return mp.idx[hk]
	}
	if conc {
		if e := mp.idx[hk]; e != nil {
			return e
		}
		for _, e := range mp.es {
			if !e.dead && e.sym && m.branch(m.eq(mp.kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	// symbolic key: is any key equal at all?
	var eqs []*Term
	var cands []*entry
	any := m.ctx.False
	for _, e := range mp.es {
		if e.dead {
			continue
		}
		q := m.eq(mp.kt, e.k, k)
		if q == m.ctx.False {
			continue
		}
		eqs = append(eqs, q)
		cands = append(cands, e)
		any = m.ctx.BOr(any, q)
	}
	if !m.branch(any) {
		return nil
	}
	// pick the one the model has, with alternatives forked
	for i := range cands {
		if i == len(cands)-1 || m.branch(eqs[i]) {
			return cands[i]
		}
	}
	return nil
}

// mapGet looks up k; entries that a symbolic key may equal are merged into one
// value as long as they differ in scalars only.
func (m *Machine) mapGet(mp *Map, k Value, et types.Type) (Value, bool) {
	_, conc := m.key(mp.kt, k)
	if conc {
		if e := m.mapFind(mp, k); e != nil {
			return e.v, true
		}
		return Value{}, false
	}
	var eqs []*Term
	var cands []*entry
	any := m.ctx.False
	for _, e := range mp.es {
		if e.dead {
			continue
		}
		q := m.eq(mp.kt, e.k, k)
		if q == m.ctx.False {
			continue
		}
		eqs = append(eqs, q)
		cands = append(cands, e)
		any = m.ctx.BOr(any, q)
	}
	if !m.branch(any) {
		return Value{}, false
	}
	for len(cands) > 0 {
		v, in := cands[0].v, eqs[0]
		var restQ []*Term
		var rest []*entry
		for i := 1; i < len(cands); i++ {
			if n, ok := m.mergeVal(et, eqs[i], cands[i].v, v); ok {
				v, in = n, m.ctx.BOr(in, eqs[i])
			} else {
				restQ, rest = append(restQ, eqs[i]), append(rest, cands[i])
			}
		}
		if len(rest) == 0 || m.branch(in) {
			return v, true
		}
		cands, eqs = rest, restQ
	}
	return Value{}, false
}

// mergeVal is c ? a : b for values that differ in integers and booleans only.
func (m *Machine) mergeVal(t types.Type, c *Term, a, b Value) (Value, bool) {
	inf := infoOf(t)
	switch inf.k {
	case kInt, kBool:
		if a.p == nil && b.p == nil && a.n == b.n {
			return a, true
		}
		return vterm(m.ctx.Ite(c, m.term(a, inf.k), m.term(b, inf.k))), true
	case kStruct, kArray:
		x, y := a.p.(*Agg).v, b.p.(*Agg).v
		out := make([]Value, len(x))
		for i := range x {
			var ft types.Type
			if st, ok := t.Underlying().(*types.Struct); ok {
				ft = st.Field(i).Type()
			} else {
				ft = t.Underlying().(*types.Array).Elem()
			}
			v, ok := m.mergeVal(ft, c, x[i], y[i])
			if !ok {
				return a, false
			}
			out[i] = v
		}
		return Value{p: &Agg{out}}, true
	case kString:
		x, ok := concStr(a)
		y, ok2 := concStr(b)
		return a, ok && ok2 && x == y
	case kPtr, kMap, kChan, kSlice:
		return a, a.p == b.p
	}
	return a, a.p == nil && b.p == nil && a.n == b.n
}

func mapClone(mp *Map) *Map {
	c := newMap(mp.kt)
	c.nsym, c.live = mp.nsym, mp.live
	back := map[*entry]*entry{}
	for _, e := range mp.es {
		if !e.dead {
			d := *e
			c.es = append(c.es, &d)
			back[e] = &d
		}
	}
	for k, e := range mp.idx {
		c.idx[k] = back[e]
	}
	return c
}

func (m *Machine) mapTouch(mp *Map) {
	if mp.frozen {
		mp.frozen = false
		es, idx, nsym, live := mp.es, mp.idx, mp.nsym, mp.live
		nes := make([]*entry, len(es))
		nidx := make(map[any]*entry, len(idx))
		back := map[*entry]*entry{}
		for i, e := range es {
			c := *e
			nes[i] = &c
			back[e] = &c
		}
		for k, e := range idx {
			nidx[k] = back[e]
		}
		mp.es, mp.idx = nes, nidx
		m.undoFns = append(m.undoFns, func() {
			mp.es, mp.idx, mp.nsym, mp.live, mp.frozen = es, idx, nsym, live, true
		})
	}
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	m.mapTouch(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &entry{k: k, v: v}
	hk, conc := m.key(mp.kt, k)
	if conc {
		mp.idx[hk] = e
	} else {
		e.sym = true
		mp.nsym++
	}
	mp.es = append(mp.es, e)
	mp.live++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	m.mapTouch(mp)
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.live--
	if hk, conc := m.key(mp.kt, e.k); conc && !e.sym {
		delete(mp.idx, hk)
	} else {
		mp.nsym--
	}
	if len(mp.es) > 32 && mp.live < len(mp.es)/2 {
		out := make([]*entry, 0, mp.live)
		for _, e := range mp.es {
			if !e.dead {
				out = append(out, e)
			}
		}
		mp.es = out
	}
}
