package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// Models of standard-library code that is made with package unsafe, with
// assembly or with tables of packages that are not initialised.

// ---- types at run time

type rtypeBox struct{ t types.Type }

// typeText is reflect's text of a type.
func typeText(t types.Type) string {
	switch u := t.(type) {
	case *types.Alias:
		return typeText(types.Unalias(t))
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UnsafePointer:
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Named:
		s := u.Obj().Name()
		if p := u.Obj().Pkg(); p != nil {
			s = p.Name() + "." + s
		}
		return s + typeArgsText(u)
	case *types.Pointer:
		return "*" + typeText(u.Elem())
	case *types.Slice:
		return "[]" + typeText(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeText(u.Elem()))
	case *types.Map:
		return "map[" + typeText(u.Key()) + "]" + typeText(u.Elem())
	case *types.Chan:
		e := typeText(u.Elem())
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + e
		case types.RecvOnly:
			return "<-chan " + e
		}
		if strings.HasPrefix(e, "<-") {
			return "chan (" + e + ")"
		}
		return "chan " + e
	case *types.Signature:
		return "func" + sigText(u)
	case *types.Interface:
		if u.Empty() {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			f := u.Method(i)
			ms = append(ms, f.Name()+sigText(f.Type().(*types.Signature)))
		}
		sort.Strings(ms)
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := typeText(f.Type())
			if !f.Embedded() {
				s = f.Name() + " " + s
			}
			if tag := u.Tag(i); tag != "" {
				s += fmt.Sprintf(" %q", tag)
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return t.String()
}

func sigText(s *types.Signature) string {
	list := func(t *types.Tuple, variadic bool) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			if variadic && i == t.Len()-1 {
				out = append(out, "..."+typeText(t.At(i).Type().(*types.Slice).Elem()))
				continue
			}
			out = append(out, typeText(t.At(i).Type()))
		}
		return strings.Join(out, ", ")
	}
	r := "(" + list(s.Params(), s.Variadic()) + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		r += " " + list(s.Results(), false)
	default:
		r += " (" + list(s.Results(), false) + ")"
	}
	return r
}

func typeArgsText(u *types.Named) string {
	if u.TypeArgs().Len() == 0 {
		return ""
	}
	var as []string
	for i := 0; i < u.TypeArgs().Len(); i++ {
		a := types.Unalias(u.TypeArgs().At(i))
		if n, ok := a.(*types.Named); ok && n.Obj().Pkg() != nil {
			as = append(as, n.Obj().Pkg().Path()+"."+n.Obj().Name()+typeArgsText(n))
		} else {
			as = append(as, typeText(a))
		}
	}
	return "[" + strings.Join(as, ",") + "]"
}

// rtype is the reflect.Type of t; equal types have the same cell.
func (e *Engine) rtype(t types.Type) Value {
	if t == nil {
		return Value{}
	}
	t = types.Unalias(t)
	rt := e.ptrTo("reflect", "rtype")
	e.mu.Lock()
	defer e.mu.Unlock()
	k := typeKey(t)
	for _, c := range e.rtypes[k] {
		if types.Identical(c.p.(*rtypeBox).t, t) {
			return Value{p: &Iface{rt, Value{p: c}}}
		}
	}
	if e.rtypes == nil {
		e.rtypes = map[string][]*Value{}
	}
	c := &Value{p: &rtypeBox{t}}
	e.rtypes[k] = append(e.rtypes[k], c)
	return Value{p: &Iface{rt, Value{p: c}}}
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9,
			types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// deepEq is reflect.DeepEqual on values of type t.
func (m *Machine) deepEq(t types.Type, a, b Value, seen map[[2]any]bool) *Term {
	c := m.ctx
	and := func(n int, f func(i int) *Term) *Term {
		r := c.True
		for i := 0; i < n; i++ {
			r = c.BAnd(r, f(i))
			if r == c.False {
				break
			}
		}
		return r
	}
	switch inf := infoOf(t); inf.k {
	case kStruct:
		u := t.Underlying().(*types.Struct)
		x, y := a.p.(*Agg).v, b.p.(*Agg).v
		return and(len(x), func(i int) *Term { return m.deepEq(u.Field(i).Type(), x[i], y[i], seen) })
	case kArray:
		x, y := a.p.(*Agg).v, b.p.(*Agg).v
		return and(len(x), func(i int) *Term { return m.deepEq(elemOf(t), x[i], y[i], seen) })
	case kSlice:
		x, y := sliceOf(a), sliceOf(b)
		if (a.p == nil) != (b.p == nil) || len(x) != len(y) {
			return c.False
		}
		if len(x) == 0 || &x[0] == &y[0] {
			return c.True
		}
		k := [2]any{&x[0], &y[0]}
		if seen[k] {
			return c.True
		}
		seen[k] = true
		return and(len(x), func(i int) *Term { return m.deepEq(elemOf(t), x[i], y[i], seen) })
	case kPtr:
		if a.p == b.p {
			return c.True
		}
		p, q := recv(a), recv(b)
		if p == nil || q == nil {
			return c.False
		}
		k := [2]any{p, q}
		if seen[k] {
			return c.True
		}
		seen[k] = true
		return m.deepEq(elemOf(t), *p, *q, seen)
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return m.deepEq(x.t, x.v, y.v, seen)
	case kMap:
		x, _ := a.p.(*Map)
		y, _ := b.p.(*Map)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x == y {
			return c.True
		}
		if x.live != y.live {
			return c.False
		}
		r := c.True
		for _, e := range x.es {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil {
				return c.False
			}
			r = c.BAnd(r, m.deepEq(elemOf(t), e.v, f.v, seen))
		}
		return r
	case kFunc:
		return c.Bool(a.p == nil && b.p == nil)
	}
	return m.eq(t, a, b)
}

func reflectNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[name] = f }
	dyn := func(v Value) (types.Type, Value) {
		x, _ := v.p.(*Iface)
		if x == nil {
			return nil, Value{}
		}
		return x.t, x.v
	}
	reg("reflect.DeepEqual", func(g *G, _ fnT, a []Value) Value {
		x, xv := dyn(a[0])
		y, yv := dyn(a[1])
		if x == nil || y == nil {
			return vbool(x == nil && y == nil)
		}
		if !types.Identical(x, y) {
			return vbool(false)
		}
		return vterm(g.m.deepEq(x, xv, yv, map[[2]any]bool{}))
	})
	reg("reflect.TypeOf", func(g *G, _ fnT, a []Value) Value {
		t, _ := dyn(a[0])
		return g.m.e.rtype(t)
	})
	reg("reflect.TypeFor", func(g *G, fn fnT, a []Value) Value {
		return g.m.e.rtype(fn.TypeArgs()[0])
	})
	box := func(v Value) types.Type { return recv(v).p.(*rtypeBox).t }
	tm := func(name string, f func(g *G, t types.Type, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(g *G, _ fnT, a []Value) Value {
			if recv(a[0]) == nil {
				g.m.nilPanic()
			}
			return f(g, box(a[0]), a)
		})
	}
	tm("String", func(g *G, t types.Type, _ []Value) Value { return vstr(typeText(t)) })
	tm("Name", func(g *G, t types.Type, _ []Value) Value {
		switch u := t.(type) {
		case *types.Named:
			return vstr(u.Obj().Name() + typeArgsText(u))
		case *types.Basic:
			return vstr(typeText(u))
		}
		return vstr("")
	})
	tm("PkgPath", func(g *G, t types.Type, _ []Value) Value {
		if u, ok := t.(*types.Named); ok && u.Obj().Pkg() != nil {
			return vstr(u.Obj().Pkg().Path())
		}
		return vstr("")
	})
	tm("Kind", func(g *G, t types.Type, _ []Value) Value { return vint(reflectKind(t)) })
	tm("Comparable", func(g *G, t types.Type, _ []Value) Value { return vbool(types.Comparable(t)) })
	tm("Elem", func(g *G, t types.Type, _ []Value) Value {
		if e := elemOf(t); e != nil {
			return g.m.e.rtype(e)
		}
		g.m.rtPanicPlain("reflect: Elem of invalid type " + typeText(t))
		return Value{}
	})
	tm("NumField", func(g *G, t types.Type, _ []Value) Value { return vint(t.Underlying().(*types.Struct).NumFields()) })
	tm("NumMethod", func(g *G, t types.Type, _ []Value) Value {
		if u, ok := t.Underlying().(*types.Interface); ok {
			return vint(u.NumMethods())
		}
		k := 0
		for ms, i := g.m.e.prog.MethodSets.MethodSet(t), 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				k++
			}
		}
		return vint(k)
	})
	tm("Implements", func(g *G, t types.Type, a []Value) Value {
		_, u := dyn(a[1])
		return vbool(g.m.e.implements(t, box(u).Underlying().(*types.Interface)))
	})
	tm("AssignableTo", func(g *G, t types.Type, a []Value) Value {
		_, u := dyn(a[1])
		return vbool(types.AssignableTo(t, box(u)))
	})
	tm("ConvertibleTo", func(g *G, t types.Type, a []Value) Value {
		_, u := dyn(a[1])
		return vbool(types.ConvertibleTo(t, box(u)))
	})
	tm("Len", func(g *G, t types.Type, _ []Value) Value { return vint(int(t.Underlying().(*types.Array).Len())) })
	tm("Key", func(g *G, t types.Type, _ []Value) Value { return g.m.e.rtype(t.Underlying().(*types.Map).Key()) })

	// reflect.Value: the type in the first field, a cell with the value in the second
	mk := func(g *G, t types.Type, c *Value) Value {
		v := zero(g.m.e.lookupType("reflect", "Value"))
		if t == nil {
			return v
		}
		a := v.p.(*Agg)
		a.v[0] = Value{p: &rtypeBox{t}}
		a.v[1] = Value{p: c}
		return v
	}
	open := func(g *G, v Value) (types.Type, *Value) {
		b, _ := v.p.(*Agg).v[0].p.(*rtypeBox)
		if b == nil {
			return nil, nil
		}
		return b.t, recv(v.p.(*Agg).v[1])
	}
	reg("reflect.ValueOf", func(g *G, _ fnT, a []Value) Value {
		t, v := dyn(a[0])
		if t == nil {
			return mk(g, nil, nil)
		}
		c := copyVal(v)
		return mk(g, t, &c)
	})
	vm := func(name string, f func(g *G, t types.Type, c *Value, a []Value) Value) {
		reg("(reflect.Value)."+name, func(g *G, _ fnT, a []Value) Value {
			t, c := open(g, a[0])
			if t == nil && name != "IsValid" && name != "Kind" {
				g.m.rtPanicPlain("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(g, t, c, a)
		})
	}
	bad := func(g *G, name string, t types.Type) Value {
		g.m.rtPanicPlain("reflect: call of reflect.Value." + name + " on " + typeText(t) + " Value")
		return Value{}
	}
	vm("IsValid", func(g *G, t types.Type, _ *Value, _ []Value) Value { return vbool(t != nil) })
	vm("Kind", func(g *G, t types.Type, _ *Value, _ []Value) Value {
		if t == nil {
			return vint(0)
		}
		return vint(reflectKind(t))
	})
	vm("Type", func(g *G, t types.Type, _ *Value, _ []Value) Value { return g.m.e.rtype(t) })
	vm("Comparable", func(g *G, t types.Type, _ *Value, _ []Value) Value { return vbool(types.Comparable(t)) })
	vm("CanInterface", func(g *G, t types.Type, _ *Value, _ []Value) Value { return vbool(true) })
	vm("IsNil", func(g *G, t types.Type, c *Value, _ []Value) Value {
		switch infoOf(t).k {
		case kPtr, kMap, kChan, kFunc, kIface, kSlice, kUnsafe:
			return vbool(c.p == nil)
		}
		return bad(g, "IsNil", t)
	})
	vm("IsZero", func(g *G, t types.Type, c *Value, _ []Value) Value {
		z := zero(t)
		switch infoOf(t).k {
		case kPtr, kMap, kChan, kFunc, kIface, kSlice, kUnsafe:
			return vbool(c.p == nil)
		}
		return vterm(g.m.deepEq(t, *c, z, map[[2]any]bool{}))
	})
	vm("Len", func(g *G, t types.Type, c *Value, _ []Value) Value {
		switch infoOf(t).k {
		case kSlice:
			return vint(len(sliceOf(*c)))
		case kArray:
			return vint(len(c.p.(*Agg).v))
		case kString:
			return g.m.strLen(*c)
		case kMap:
			if c.p == nil {
				return vint(0)
			}
			return vint(c.p.(*Map).live)
		}
		return bad(g, "Len", t)
	})
	vm("Interface", func(g *G, t types.Type, c *Value, _ []Value) Value {
		if infoOf(t).k == kIface {
			return *c
		}
		return Value{p: &Iface{t, copyVal(*c)}}
	})
	vm("Elem", func(g *G, t types.Type, c *Value, _ []Value) Value {
		switch infoOf(t).k {
		case kIface:
			x, _ := c.p.(*Iface)
			if x == nil {
				return mk(g, nil, nil)
			}
			v := x.v
			return mk(g, x.t, &v)
		case kPtr:
			if c.p == nil {
				return mk(g, nil, nil)
			}
			return mk(g, elemOf(t), recv(*c))
		}
		return bad(g, "Elem", t)
	})
	vm("NumField", func(g *G, t types.Type, c *Value, _ []Value) Value {
		if u, ok := t.Underlying().(*types.Struct); ok {
			return vint(u.NumFields())
		}
		return bad(g, "NumField", t)
	})
	vm("Field", func(g *G, t types.Type, c *Value, a []Value) Value {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return bad(g, "Field", t)
		}
		i := g.m.idx(a[1])
		return mk(g, u.Field(i).Type(), &c.p.(*Agg).v[i])
	})
	vm("Index", func(g *G, t types.Type, c *Value, a []Value) Value {
		i := g.m.idx(a[1])
		var xs []Value
		switch infoOf(t).k {
		case kSlice:
			xs = sliceOf(*c)
		case kArray:
			xs = c.p.(*Agg).v
		default:
			unsup("reflect.Value.Index of %s", t)
		}
		if i < 0 || i >= len(xs) {
			g.m.rtPanicPlain("reflect: index out of range")
		}
		return mk(g, elemOf(t), &xs[i])
	})
	scalar := func(g *G, t types.Type, c *Value, _ []Value) Value { return *c }
	for _, nm := range []string{"Int", "Uint", "Bool", "Float"} {
		vm(nm, scalar)
	}
	vm("String", func(g *G, t types.Type, c *Value, _ []Value) Value {
		if infoOf(t).k == kString {
			return *c
		}
		return vstr("<" + typeText(t) + " Value>")
	})
	ptr := func(g *G, t types.Type, c *Value, _ []Value) Value { return vint(int(g.m.addrOf(t, *c))) }
	vm("Pointer", ptr)
	vm("UnsafePointer", ptr)
}

// addrOf invents a distinct address for everything a path asks about.
func (m *Machine) addrOf(t types.Type, v Value) uint64 {
	if v.p == nil {
		return 0
	}
	k := v.p
	if s, ok := k.(*Slice); ok {
		if cap(s.a) == 0 {
			return 0xbeef00
		}
		k = &s.a[:1][0]
	}
	if c, ok := k.(*Closure); ok && c.fn != nil {
		k = c.fn
	}
	tab, _ := m.extra["addr"].(map[any]uint64)
	if tab == nil {
		tab = map[any]uint64{}
		m.extra["addr"] = tab
	}
	if tab[k] == 0 {
		tab[k] = 0xc000100000 + 64*uint64(len(tab))
	}
	return tab[k]
}

// ---- errors.As

func (g *G) errorsAs(err, target Value) bool {
	m := g.m
	x, _ := target.p.(*Iface)
	if x == nil {
		m.rtPanicPlain("errors: target cannot be nil")
	}
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok || x.v.p == nil {
		m.rtPanicPlain("errors: target must be a non-nil pointer")
	}
	want := pt.Elem()
	it, isIface := want.Underlying().(*types.Interface)
	var as func(e *Iface) bool
	as = func(e *Iface) bool {
		if isIface && m.e.implements(e.t, it) {
			m.store(recv(x.v), Value{p: e})
			return true
		}
		if !isIface && types.Identical(e.t, want) {
			m.store(recv(x.v), e.v)
			return true
		}
		if f := m.e.lookupMeth(e.t, "As"); f != nil && len(f.fn.Params) == 2 {
			r := g.call(f, []Value{e.v, target}, nil)
			if t, ok := r.p.(*Term); ok {
				if m.branch(t) {
					return true
				}
			} else if r.n != 0 {
				return true
			}
		}
		if f := m.e.lookupMeth(e.t, "Unwrap"); f != nil {
			switch r := g.call(f, []Value{e.v}, nil).p.(type) {
			case *Iface:
				return as(r)
			case *Slice:
				for _, y := range r.a {
					if i, ok := y.p.(*Iface); ok && as(i) {
						return true
					}
				}
			}
		}
		return false
	}
	e, _ := err.p.(*Iface)
	return e != nil && as(e)
}

// ---- runes

type deltas struct {
	d []int64
	r [][][2]int64
}

var deltaCache sync.Map

// runeMap applies f to a rune, piecewise.
func (m *Machine) runeMap(name string, f func(rune) rune, v Value) Value {
	if v.p == nil {
		return vint(int(f(rune(int32(v.n)))))
	}
	t := v.p.(*Term)
	x, ok := deltaCache.Load(name)
	if !ok {
		ds := &deltas{}
		at := map[int64]int{}
		for r := rune(0); r <= unicode.MaxRune; r++ {
			d := int64(f(r)) - int64(r)
			if d == 0 {
				continue
			}
			i, ok := at[d]
			if !ok {
				i = len(ds.d)
				at[d] = i
				ds.d = append(ds.d, d)
				ds.r = append(ds.r, nil)
			}
			l := ds.r[i]
			if n := len(l); n > 0 && l[n-1][1] == int64(r)-1 {
				l[n-1][1] = int64(r)
			} else {
				l = append(l, [2]int64{int64(r), int64(r)})
			}
			ds.r[i] = l
		}
		x, _ = deltaCache.LoadOrStore(name, ds)
	}
	c := m.ctx
	out := t
	for i, d := range x.(*deltas).d {
		in := c.InRanges(t, x.(*deltas).r[i])
		if in == c.False {
			continue
		}
		out = c.Ite(in, c.Add(t, c.Int(d)), out)
	}
	return vterm(out)
}

// foldMin is the smallest rune equal to r under simple case folding.
func foldMin(r rune) rune {
	lo := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < lo {
			lo = x
		}
	}
	return lo
}

func stdNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[name] = f }
	reflectNatives(n)
	reg("errors.As", func(g *G, _ fnT, a []Value) Value { return vbool(g.errorsAs(a[0], a[1])) })

	reg("strconv.FormatFloat", func(g *G, _ fnT, a []Value) Value {
		return vstr(strconv.FormatFloat(fbits(g.m.evalConc(a[0])), byte(g.m.idx(a[1])), g.m.idx(a[2]), g.m.idx(a[3])))
	})
	n["strconv.ParseFloat"] = orBody(func(g *G, a []Value) (Value, bool) {
		f, err := strconv.ParseFloat(g.m.needStr(a[0]), g.m.idx(a[1]))
		if err != nil {
			return tuple(vf(f), g.m.errorValue(err.Error())), true
		}
		return tuple(vf(f), Value{}), true
	})

	// ---- unicode
	for nm, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold} {
		reg("unicode."+nm, func(g *G, _ fnT, a []Value) Value { return g.m.runeMap(nm, f, a[0]) })
		if nm == "SimpleFold" {
			continue
		}
		mapped := func(g *G, s Value) Value {
			rs := g.m.strRunes(s)
			out := make([]Value, len(rs))
			for i := range rs {
				out[i] = g.m.runeMap(nm, f, rs[i])
			}
			return g.m.runesStr(out)
		}
		reg("strings."+nm, func(g *G, _ fnT, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return vstr(map[string]func(string) string{"ToUpper": strings.ToUpper, "ToLower": strings.ToLower, "ToTitle": strings.ToTitle}[nm](s))
			}
			return mapped(g, a[0])
		})
		reg("bytes."+nm, func(g *G, _ fnT, a []Value) Value {
			return Value{p: &Slice{g.m.strBytes(mapped(g, bytesStr(sliceOf(a[0]))))}}
		})
	}
	preds := map[string]func(rune) bool{"IsTitle": unicode.IsTitle}
	for nm, f := range preds {
		reg("unicode."+nm, func(g *G, _ fnT, a []Value) Value { return g.m.runePred(nm, f, a[0]) })
	}
	fold := func(g *G, x, y Value) Value {
		p, q := g.m.strRunes(x), g.m.strRunes(y)
		if len(p) != len(q) {
			return vbool(false)
		}
		r := g.m.ctx.True
		for i := range p {
			r = g.m.ctx.BAnd(r, g.m.ctx.Eq(g.m.term(g.m.runeMap("fold", foldMin, p[i]), kInt), g.m.term(g.m.runeMap("fold", foldMin, q[i]), kInt)))
		}
		return vterm(r)
	}
	reg("strings.EqualFold", func(g *G, _ fnT, a []Value) Value {
		if s, ok := strs(a); ok {
			return vbool(strings.EqualFold(s[0], s[1]))
		}
		return fold(g, a[0], a[1])
	})
	reg("bytes.EqualFold", func(g *G, _ fnT, a []Value) Value {
		return fold(g, bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})

	// ---- counting and searching
	count := func(m *Machine, s, sub Value) Value {
		us := unitsOf(s)
		if l, ok := concStr(sub); ok && l == "" {
			return vint(len(m.strRunes(s)) + 1)
		}
		k := 0
		for {
			at := m.strIndexOf(strVal(us), sub)
			if at.p == nil && int64(at.n) < 0 {
				return vint(k)
			}
			k++
			us = cutAfter(m, us, at, sub)
		}
	}
	reg("strings.Count", func(g *G, _ fnT, a []Value) Value { return count(g.m, a[0], a[1]) })
	reg("bytes.Count", func(g *G, _ fnT, a []Value) Value {
		if len(sliceOf(a[1])) == 0 {
			return vint(len(g.m.strRunes(bytesStr(sliceOf(a[0])))) + 1)
		}
		return count(g.m, bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})
	reg("internal/bytealg.CountString", func(g *G, _ fnT, a []Value) Value { return count(g.m, a[0], bytesStr(a[1:2])) })
	reg("internal/bytealg.Count", func(g *G, _ fnT, a []Value) Value {
		return count(g.m, bytesStr(sliceOf(a[0])), bytesStr(a[1:2]))
	})
	reg("internal/bytealg.IndexString", func(g *G, _ fnT, a []Value) Value { return g.m.strIndexOf(a[0], a[1]) })
	reg("internal/bytealg.Index", func(g *G, _ fnT, a []Value) Value {
		return g.m.strIndexOf(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})
	reg("internal/bytealg.Compare", func(g *G, _ fnT, a []Value) Value {
		return g.m.strCompare(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})
	reg("internal/bytealg.CompareString", func(g *G, _ fnT, a []Value) Value { return g.m.strCompare(a[0], a[1]) })
	reg("internal/bytealg.Equal", func(g *G, _ fnT, a []Value) Value {
		return vterm(g.m.strEq(bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1]))))
	})
	clone := func(g *G, _ fnT, a []Value) Value { return a[0] }
	reg("internal/stringslite.Clone", clone)
	reg("internal/stringslite.Index", func(g *G, _ fnT, a []Value) Value { return g.m.strIndexOf(a[0], a[1]) })
	reg("internal/stringslite.IndexByte", func(g *G, _ fnT, a []Value) Value { return g.m.strIndexOf(a[0], bytesStr(a[1:2])) })
	reg("regexp.QuoteMeta", func(g *G, _ fnT, a []Value) Value { return vstr(regexp.QuoteMeta(g.m.needStr(a[0]))) })
	last := func(m *Machine, s, sub Value) Value {
		us, vs := m.expandAll(unitsOf(s)), m.expandAll(unitsOf(sub))
		for i := len(us) - len(vs); i >= 0; i-- {
			c := m.ctx.True
			for j := range vs {
				c = m.ctx.BAnd(c, m.ctx.Eq(m.unitTerm(us[i+j]), m.unitTerm(vs[j])))
			}
			if m.branch(c) {
				return vint(i)
			}
		}
		return vi64(-1)
	}
	reg("strings.LastIndex", func(g *G, _ fnT, a []Value) Value { return last(g.m, a[0], a[1]) })
	reg("bytes.LastIndex", func(g *G, _ fnT, a []Value) Value {
		return last(g.m, bytesStr(sliceOf(a[0])), bytesStr(sliceOf(a[1])))
	})
	reg("internal/bytealg.LastIndexByteString", func(g *G, _ fnT, a []Value) Value { return last(g.m, a[0], bytesStr(a[1:2])) })
	reg("internal/bytealg.LastIndexByte", func(g *G, _ fnT, a []Value) Value {
		return last(g.m, bytesStr(sliceOf(a[0])), bytesStr(a[1:2]))
	})
	reg("bytes.HasPrefix", func(g *G, _ fnT, a []Value) Value {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		if len(x) < len(y) {
			return vbool(false)
		}
		return vterm(g.m.strEq(bytesStr(x[:len(y)]), bytesStr(y)))
	})

	// ---- sync
	slot := func(g *G, v Value) *Value {
		p := recv(v)
		if p == nil {
			g.m.nilPanic()
		}
		return p
	}
	// sync.Map keeps a map in its first field
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(g *G, v Value, write bool) *Map {
		p := slot(g, v)
		g.m.op(g, foot{p, write})
		f := &p.p.(*Agg).v[0]
		if f.p == nil || !isMap(f.p) {
			g.m.set(f, Value{p: newMap(anyT)})
		}
		return f.p.(*Map)
	}
	sm := func(name string, write bool, f func(g *G, mp *Map, a []Value) Value) {
		reg("(*sync.Map)."+name, func(g *G, _ fnT, a []Value) Value { return f(g, smap(g, a[0], write), a) })
	}
	val := func(e *entry) (Value, Value) {
		if e == nil {
			return Value{}, vbool(false)
		}
		return e.v, vbool(true)
	}
	sm("Load", false, func(g *G, mp *Map, a []Value) Value {
		v, ok := val(g.m.mapFind(mp, a[1]))
		return tuple(v, ok)
	})
	sm("Store", true, func(g *G, mp *Map, a []Value) Value {
		g.m.mapSet(mp, a[1], a[2])
		return Value{}
	})
	sm("LoadOrStore", true, func(g *G, mp *Map, a []Value) Value {
		if e := g.m.mapFind(mp, a[1]); e != nil {
			return tuple(e.v, vbool(true))
		}
		g.m.mapSet(mp, a[1], a[2])
		return tuple(a[2], vbool(false))
	})
	sm("LoadAndDelete", true, func(g *G, mp *Map, a []Value) Value {
		v, ok := val(g.m.mapFind(mp, a[1]))
		g.m.mapDelete(mp, a[1])
		return tuple(v, ok)
	})
	sm("Delete", true, func(g *G, mp *Map, a []Value) Value {
		g.m.mapDelete(mp, a[1])
		return Value{}
	})
	sm("Swap", true, func(g *G, mp *Map, a []Value) Value {
		v, ok := val(g.m.mapFind(mp, a[1]))
		g.m.mapSet(mp, a[1], a[2])
		return tuple(v, ok)
	})
	sm("CompareAndSwap", true, func(g *G, mp *Map, a []Value) Value {
		e := g.m.mapFind(mp, a[1])
		if e == nil || !g.m.branch(g.m.eq(anyT, e.v, a[2])) {
			return vbool(false)
		}
		g.m.mapSet(mp, a[1], a[3])
		return vbool(true)
	})
	sm("CompareAndDelete", true, func(g *G, mp *Map, a []Value) Value {
		e := g.m.mapFind(mp, a[1])
		if e == nil || !g.m.branch(g.m.eq(anyT, e.v, a[2])) {
			return vbool(false)
		}
		g.m.mapDelete(mp, a[1])
		return vbool(true)
	})
	sm("Clear", true, func(g *G, mp *Map, a []Value) Value {
		g.m.set(&slot(g, a[0]).p.(*Agg).v[0], Value{p: newMap(anyT)})
		return Value{}
	})
	sm("Range", false, func(g *G, mp *Map, a []Value) Value {
		cl := a[1].p.(*Closure)
		for _, e := range append([]*entry(nil), mp.es...) {
			if e.dead {
				continue
			}
			r := g.callClosure(cl, []Value{e.k, e.v})
			ok := r.n != 0
			if t, s := r.p.(*Term); s {
				ok = g.m.branch(t)
			}
			if !ok {
				break
			}
		}
		return Value{}
	})

	// a pool hands out what was put back last, as the real one does
	pool := func(g *G, v Value) *Value {
		p := slot(g, v)
		g.m.op(g, foot{p, true})
		return &p.p.(*Agg).v[1]
	}
	reg("(*sync.Pool).Put", func(g *G, _ fnT, a []Value) Value {
		if a[1].p == nil {
			return Value{}
		}
		f := pool(g, a[0])
		var l []Value
		if s, ok := f.p.(*Slice); ok {
			l = s.a
		}
		g.m.set(f, Value{p: &Slice{append(l[:len(l):len(l)], a[1])}})
		return Value{}
	})
	reg("(*sync.Pool).Get", func(g *G, _ fnT, a []Value) Value {
		f := pool(g, a[0])
		if s, ok := f.p.(*Slice); ok && len(s.a) > 0 {
			k := len(s.a) - 1
			v := s.a[k]
			g.m.set(f, Value{p: &Slice{s.a[:k:k]}})
			return v
		}
		nw := *lastField(a[0])
		if nw.p == nil {
			return Value{}
		}
		return g.callClosure(nw.p.(*Closure), nil)
	})

	// condition variables wake their waiters in order
	type cwait struct{ woke bool }
	conds := func(g *G) map[*Value][]*cwait {
		t, _ := g.m.extra["conds"].(map[*Value][]*cwait)
		if t == nil {
			t = map[*Value][]*cwait{}
			g.m.extra["conds"] = t
		}
		return t
	}
	reg("(*sync.Cond).Wait", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.op(g, foot{p, true})
		w := &cwait{}
		t := conds(g)
		t[p] = append(t[p], w)
		l, _ := p.p.(*Agg).v[1].p.(*Iface)
		if l == nil {
			g.m.nilPanic()
		}
		g.callMeth(l, "Unlock")
		g.m.opWhen(g, "Cond.Wait", func() bool { return w.woke }, foot{p, true})
		g.callMeth(l, "Lock")
		return Value{}
	})
	wake := func(all bool) nf {
		return func(g *G, _ fnT, a []Value) Value {
			p := slot(g, a[0])
			g.m.op(g, foot{p, true})
			t := conds(g)
			for len(t[p]) > 0 {
				t[p][0].woke = true
				t[p] = t[p][1:]
				if !all {
					break
				}
			}
			g.m.release(g, p)
			return Value{}
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
	reg("(*sync.RWMutex).RLocker", func(g *G, _ fnT, a []Value) Value {
		return Value{p: &Iface{g.m.e.ptrTo("sync", "rlocker"), a[0]}}
	})
	reg("(*sync.rlocker).Lock", n["(*sync.RWMutex).RLock"])
	reg("(*sync.rlocker).Unlock", n["(*sync.RWMutex).RUnlock"])
	reg("(*sync.RWMutex).TryRLock", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		g.m.op(g, foot{p, true})
		if p.n == 1<<32 {
			return vbool(false)
		}
		g.m.setN(p, p.n+1)
		return vbool(true)
	})

	// ---- atomics
	cell := func(g *G, v Value) *Value {
		if recv(v) == nil {
			g.m.nilPanic()
		}
		c := lastField(v)
		g.m.op(g, foot{c, true})
		return c
	}
	same := func(m *Machine, a, b Value) bool {
		x, ok := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if ok && ok2 {
			return types.Identical(x.t, y.t) && m.branch(m.eq(x.t, x.v, y.v))
		}
		return a.p == b.p && a.n == b.n
	}
	for _, pre := range []string{"(*sync/atomic.Value).", "(*sync/atomic.Pointer[T])."} {
		reg(pre+"Swap", func(g *G, _ fnT, a []Value) Value {
			c := cell(g, a[0])
			old := *c
			g.m.set(c, a[1])
			return old
		})
		reg(pre+"CompareAndSwap", func(g *G, _ fnT, a []Value) Value {
			c := cell(g, a[0])
			if !same(g.m, *c, a[1]) {
				return vbool(false)
			}
			g.m.set(c, a[2])
			return vbool(true)
		})
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		reg("sync/atomic.Swap"+t, func(g *G, _ fnT, a []Value) Value {
			g.m.op(g, foot{recv(a[0]), true})
			old := *recv(a[0])
			g.m.set(recv(a[0]), a[1])
			return old
		})
	}

	// ---- timers
	timers := func(g *G) map[*Value]*vtimer {
		tm, _ := g.m.extra["timers"].(map[*Value]*vtimer)
		if tm == nil {
			tm = map[*Value]*vtimer{}
			g.m.extra["timers"] = tm
		}
		return tm
	}
	mkTime := n["time.Now"]
	every := func(g *G, c *Chan, d int64, p *Value) {
		m := g.m
		var fire func()
		fire = func() {
			g.m.offer(c, mkTime(g, nil, nil))
			timers(g)[p] = m.addTimer(d, fire)
		}
		timers(g)[p] = m.addTimer(d, fire)
	}
	ticker := func(g *G, pt types.Type, d int64) *Value {
		if d <= 0 {
			g.m.rtPanicPlain("non-positive interval for NewTicker")
		}
		st := pt.Underlying().(*types.Pointer).Elem()
		v := zero(st)
		f := st.Underlying().(*types.Struct).Field(0)
		c := g.m.newChan(1, f.Type().Underlying().(*types.Chan).Elem())
		v.p.(*Agg).v[0] = Value{p: c}
		p := &v
		every(g, c, d, p)
		return p
	}
	reg("time.NewTicker", func(g *G, fn fnT, a []Value) Value {
		return Value{p: ticker(g, fn.Signature.Results().At(0).Type(), int64(g.m.idx(a[0])))}
	})
	reg("time.Tick", func(g *G, fn fnT, a []Value) Value {
		d := int64(g.m.idx(a[0]))
		if d <= 0 {
			return Value{}
		}
		return ticker(g, g.m.e.ptrTo("time", "Ticker"), d).p.(*Agg).v[0]
	})
	reg("(*time.Ticker).Stop", func(g *G, _ fnT, a []Value) Value {
		if t := timers(g)[slot(g, a[0])]; t != nil {
			t.off = true
		}
		return Value{}
	})
	reg("(*time.Ticker).Reset", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		if t := timers(g)[p]; t != nil {
			t.off = true
		}
		every(g, p.p.(*Agg).v[0].p.(*Chan), int64(g.m.idx(a[1])), p)
		return Value{}
	})
	reg("(*time.Timer).Reset", func(g *G, _ fnT, a []Value) Value {
		p := slot(g, a[0])
		t := timers(g)[p]
		if t == nil {
			unsup("Reset of a timer that was not made with NewTimer")
		}
		was := !t.off
		t.off = true
		timers(g)[p] = g.m.addTimer(int64(g.m.idx(a[1])), t.fire)
		return vbool(was)
	})
}

func isMap(x any) bool { _, ok := x.(*Map); return ok }

// cutAfter is what follows the match of sub at offset at.
func cutAfter(m *Machine, us []unit, at, sub Value) []unit {
	us, i := m.cut(us, at)
	l := len(unitsOf(sub))
	if s, ok := concStr(sub); ok {
		for j := 0; j < len(s); j++ {
			if s[j] >= 0x80 {
				// a match of several bytes may be a single symbolic rune
				us, i = m.cut(us, vterm(m.ctx.Add(m.term(at, kInt), m.ctx.Int(int64(len(s))))))
				return us[i:]
			}
		}
	}
	return us[i+l:]
}

// strCompare is -1, 0 or 1.
func (m *Machine) strCompare(a, b Value) Value {
	x, ok := concStr(a)
	y, ok2 := concStr(b)
	if ok && ok2 {
		return vint(strings.Compare(x, y))
	}
	c := m.ctx
	return vterm(c.Ite(m.strEq(a, b), c.Int(0), c.Ite(m.strLt(a, b), c.Int(-1), c.Int(1))))
}
