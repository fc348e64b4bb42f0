package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmt, piecewise, so that symbolic operands stay symbolic.

func (m *Machine) hexDigit(t *Term) *Term {
	c := m.ctx
	return c.Ite(c.Lt(t, c.Int(10)), c.Add(t, c.Int('0')), c.Add(t, c.Int('a'-10)))
}

type fmtSpec struct {
	verb              byte
	plus, sharp, zero bool
	minus, space      bool
	width             int
	hasW, hasP        bool
	prec              int
}

func (g *G) callMeth(iv *Iface, name string, args ...Value) (Value, bool) {
	cf := g.m.e.lookupMeth(iv.t, name)
	if cf == nil {
		return Value{}, false
	}
	return g.call(cf, append([]Value{iv.v}, args...), nil), true
}

func isStringer(t types.Type, name string, e *Engine) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// joinedText is the text of errors.Join, which is made with package unsafe.
func joinedText(g *G, _ fnT, a []Value) Value {
	var b strings.Builder
	for i, e := range sliceOf(*lastField(a[0])) {
		x, _ := e.p.(*Iface)
		if x == nil {
			g.m.nilPanic()
		}
		t, ok := g.callMeth(x, "Error")
		if !ok {
			unsup("text of a joined error")
		}
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(g.m.needStr(t))
	}
	return vstr(b.String())
}

// fmtValue prints an operand.
func (g *G) fmtValue(sp fmtSpec, t types.Type, v Value) Value {
	if sp.verb == 'w' {
		sp.verb = 'v'
	}
	if t == nil {
		if sp.verb == 'v' {
			return g.m.fmtPad(sp, vstr("<nil>"))
		}
		return vstr("%!" + string(sp.verb) + "(<nil>)")
	}
	return g.printValue(sp, t, v, 0, false)
}

// method calls the Error or String (for %#v: GoString) method of an operand.
func (g *G) fmtMethod(sp fmtSpec, t types.Type, v Value) (Value, bool) {
	m := g.m
	ms := m.e.prog.MethodSets.MethodSet(t)
	has := func(nm string) bool {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == nm {
				return nm == "Format" || isStringer(t, nm, m.e)
			}
		}
		return false
	}
	if has("Format") {
		unsup("Format method of %s", t)
	}
	if sp.verb == 'v' && sp.sharp {
		if has("GoString") {
			return g.callMeth(&Iface{t, v}, "GoString")
		}
		return Value{}, false
	}
	switch sp.verb {
	case 's', 'v', 'q', 'x', 'X':
	default:
		return Value{}, false
	}
	for _, nm := range []string{"Error", "String"} {
		if !has(nm) {
			continue
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && v.p == nil {
			// a method with a value receiver, promoted to a nil pointer
			es := m.e.prog.MethodSets.MethodSet(pt.Elem())
			for i := 0; i < es.Len(); i++ {
				if es.At(i).Obj().Name() == nm {
					return m.fmtPad(sp, vstr("<nil>")), true
				}
			}
		}
		if r, ok := g.callMeth(&Iface{t, v}, nm); ok {
			return g.printValue(sp, types.Typ[types.String], r, 0, true), true
		}
	}
	return Value{}, false
}

// printValue is fmt's: ro says that the value came from an unexported field.
func (g *G) printValue(sp fmtSpec, t types.Type, v Value, depth int, ro bool) Value {
	m := g.m
	if !ro {
		if r, ok := g.fmtMethod(sp, t, v); ok {
			return r
		}
	}
	sharpV, plusV := sp.verb == 'v' && sp.sharp, sp.verb == 'v' && sp.plus
	list := func(open, sep, end string, n int, f func(i int) Value) Value {
		out := vstr(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				out = strCat(out, vstr(sep))
			}
			out = strCat(out, f(i))
		}
		return strCat(out, vstr(end))
	}
	inf := infoOf(t)
	switch inf.k {
	case kString:
		switch sp.verb {
		case 's', 'v':
			if sharpV {
				return vstr(fmt.Sprintf(sp.text(), m.needStr(v)))
			}
			return m.fmtPad(sp, v)
		}
		return vstr(fmt.Sprintf(sp.text(), m.needStr(v)))
	case kInt:
		switch sp.verb {
		case 'd', 'v':
			if v.p != nil && !sp.hasW && !sp.hasP && !sp.plus && !sp.sharp && !sp.space {
				return m.itoa(v.p.(*Term))
			}
		case 'x':
			if v.p != nil && sp.zero && sp.width == 2 && !sp.sharp && !sp.hasP {
				t := v.p.(*Term)
				if t.lo >= 0 && t.hi <= 255 {
					c := m.ctx
					return strVal([]unit{{k: 1, t: m.hexDigit(c.Lshr(t, c.Int(4)))}, {k: 1, t: m.hexDigit(c.And(t, c.Int(15)))}})
				}
			}
		case 'c':
			if v.p == nil {
				break
			}
			return m.fmtPad(sp, strVal(m.runeUnits(v.p.(*Term))))
		}
		n := int64(v.n)
		if v.p != nil {
			n = int64(m.concretize(v.p.(*Term)))
		}
		if inf.signed {
			return vstr(fmt.Sprintf(sp.text(), n))
		}
		return vstr(fmt.Sprintf(sp.text(), uint64(n)))
	case kBool:
		b := v.n != 0
		if v.p != nil {
			b = m.branch(v.p.(*Term))
		}
		return vstr(fmt.Sprintf(sp.text(), b))
	case kFloat:
		f := v.n
		if v.p != nil {
			f = m.concretize(v.p.(*Term))
		}
		if inf.w == 32 {
			return vstr(fmt.Sprintf(sp.text(), float32(fbits(f))))
		}
		return vstr(fmt.Sprintf(sp.text(), fbits(f)))
	case kIface:
		if v.p == nil {
			if sharpV {
				return vstr(typeText(t) + "(nil)")
			}
			return vstr("<nil>")
		}
		x := v.p.(*Iface)
		return g.printValue(sp, x.t, x.v, depth+1, ro)
	case kMap:
		mp, _ := v.p.(*Map)
		open, sep, end := "map[", " ", "]"
		if sharpV {
			open, sep, end = typeText(t)+"{", ", ", "}"
			if mp == nil {
				return vstr(typeText(t) + "(nil)")
			}
		}
		var es []*entry
		if mp != nil {
			for _, e := range mp.es {
				if !e.dead {
					es = append(es, e)
				}
			}
		}
		kt := t.Underlying().(*types.Map).Key()
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && m.keyLess(kt, es[j].k, es[j-1].k); j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		return list(open, sep, end, len(es), func(i int) Value {
			k := g.printValue(sp, kt, es[i].k, depth+1, ro)
			return strCat(strCat(k, vstr(":")), g.printValue(sp, elemOf(t), es[i].v, depth+1, ro))
		})
	case kStruct:
		u := t.Underlying().(*types.Struct)
		open, sep := "{", " "
		if sharpV {
			open, sep = typeText(t)+"{", ", "
		}
		xs := v.p.(*Agg).v
		return list(open, sep, "}", len(xs), func(i int) Value {
			f := u.Field(i)
			ft, fv := f.Type(), xs[i]
			if x, ok := fv.p.(*Iface); ok && infoOf(ft).k == kIface {
				ft, fv = x.t, x.v
			}
			r := g.printValue(sp, ft, fv, depth+1, ro || !f.Exported())
			if plusV || sharpV {
				r = strCat(vstr(f.Name()+":"), r)
			}
			return r
		})
	case kSlice, kArray:
		var xs []Value
		if inf.k == kSlice {
			xs = sliceOf(v)
		} else {
			xs = v.p.(*Agg).v
		}
		et := elemOf(t)
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch sp.verb {
			case 's':
				return g.printValue(sp, types.Typ[types.String], bytesStr(xs), 0, true)
			case 'q', 'x', 'X':
				bs := make([]byte, len(xs))
				for i := range xs {
					bs[i] = byte(m.evalConc(xs[i]))
				}
				return vstr(fmt.Sprintf(sp.text(), bs))
			}
		}
		open, sep, end := "[", " ", "]"
		if sharpV {
			open, sep, end = typeText(t)+"{", ", ", "}"
			if inf.k == kSlice && v.p == nil {
				return vstr(typeText(t) + "(nil)")
			}
		}
		return list(open, sep, end, len(xs), func(i int) Value { return g.printValue(sp, et, xs[i], depth+1, ro) })
	case kPtr:
		if depth == 0 && v.p != nil {
			switch infoOf(elemOf(t)).k {
			case kArray, kSlice, kStruct, kMap:
				return strCat(vstr("&"), g.printValue(sp, elemOf(t), *recv(v), depth+1, ro))
			}
		}
		fallthrough
	case kChan, kFunc, kUnsafe:
		at := m.addrOf(t, v)
		switch {
		case sharpV && at == 0:
			return vstr("(" + typeText(t) + ")(nil)")
		case sharpV:
			return vstr(fmt.Sprintf("(%s)(0x%x)", typeText(t), at))
		case at == 0 && sp.verb == 'v':
			return m.fmtPad(sp, vstr("<nil>"))
		case sp.verb == 'v' || sp.verb == 'p':
			return m.fmtPad(sp, vstr(fmt.Sprintf("0x%x", at)))
		}
		sp.sharp = false
		return vstr(fmt.Sprintf(sp.text(), uintptr(at)))
	}
	unsup("fmt of %s", t)
	return Value{}
}

// evalConc is the value of an integer, forking over its values.
func (m *Machine) evalConc(v Value) uint64 {
	if t, ok := v.p.(*Term); ok {
		return m.concretize(t)
	}
	return v.n
}

// keyLess orders map keys as fmt does.
func (m *Machine) keyLess(t types.Type, a, b Value) bool {
	c := m.ctx
	switch inf := infoOf(t); inf.k {
	case kInt, kBool:
		if inf.k == kInt && !inf.signed && inf.w == 64 && (a.p == nil && b.p == nil) {
			return a.n < b.n
		}
		if a.p == nil && b.p == nil {
			return int64(a.n) < int64(b.n)
		}
		return m.branch(c.Lt(m.term(a, kInt), m.term(b, kInt)))
	case kFloat:
		return m.branch(m.fcmp(OFLt, m.term(a, kFloat), m.term(b, kFloat)))
	case kString:
		return m.branch(m.strLt(a, b))
	case kStruct, kArray:
		x, y := a.p.(*Agg).v, b.p.(*Agg).v
		for i := range x {
			ft := elemOf(t)
			if u, ok := t.Underlying().(*types.Struct); ok {
				ft = u.Field(i).Type()
			}
			if m.keyLess(ft, x[i], y[i]) {
				return true
			}
			if m.keyLess(ft, y[i], x[i]) {
				return false
			}
		}
		return false
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x != nil && y != nil && types.Identical(x.t, y.t) {
			return m.keyLess(x.t, x.v, y.v)
		}
		if x == nil || y == nil {
			return x == nil && y != nil
		}
	}
	unsup("order of map keys of type %s", t)
	return false
}

func (sp fmtSpec) text() string {
	s := "%"
	if sp.plus {
		s += "+"
	}
	if sp.minus {
		s += "-"
	}
	if sp.sharp {
		s += "#"
	}
	if sp.space {
		s += " "
	}
	if sp.zero {
		s += "0"
	}
	if sp.hasW {
		s += strconv.Itoa(sp.width)
	}
	if sp.hasP {
		s += "." + strconv.Itoa(sp.prec)
	}
	return s + string(sp.verb)
}

// fmtPad applies precision and width.
func (m *Machine) fmtPad(sp fmtSpec, v Value) Value {
	if sp.hasP {
		if rs := m.strRunes(v); len(rs) > sp.prec {
			v = m.runesStr(rs[:sp.prec])
		}
	}
	if !sp.hasW {
		return v
	}
	pad := " "
	if sp.zero && !sp.minus {
		pad = "0"
	}
	if k := sp.width - len(m.strRunes(v)); k > 0 {
		if sp.minus {
			v = strCat(v, vstr(strings.Repeat(pad, k)))
		} else {
			v = strCat(vstr(strings.Repeat(pad, k)), v)
		}
	}
	return v
}

// sprintf also returns the operands of %w verbs.
func (g *G) sprintf(format string, args []Value) (Value, []Value) {
	out := vstr("")
	var wrapped []Value
	ai := 0
	reordered := false
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		if j > i {
			out = strCat(out, vstr(format[i:j]))
		}
		if j >= len(format) {
			break
		}
		i = j + 1
		var sp fmtSpec
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case '0':
				sp.zero = true
			case ' ':
				sp.space = true
			default:
				break flags
			}
			i++
		}
		argNum := func() bool {
			if i >= len(format) || format[i] != '[' {
				return false
			}
			e := strings.IndexByte(format[i:], ']')
			k, err := 0, error(nil)
			if e > 0 {
				k, err = strconv.Atoi(format[i+1 : i+e])
			}
			if e < 0 || err != nil || k < 1 || k > len(args) {
				unsup("format %q", format)
			}
			ai, i, reordered = k-1, i+e+1, true
			return true
		}
		number := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if ai >= len(args) {
					unsup("format %q", format)
				}
				x, _ := args[ai].p.(*Iface)
				ai++
				if x == nil || infoOf(x.t).k != kInt {
					unsup("format %q", format)
				}
				return int(int64(g.m.evalConc(x.v))), true
			}
			n, ok := 0, false
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n, ok = n*10+int(format[i]-'0'), true
				i++
			}
			return n, ok
		}
		argNum()
		sp.width, sp.hasW = number()
		if sp.width < 0 {
			sp.width, sp.minus, sp.zero = -sp.width, true, false
		}
		if i < len(format) && format[i] == '.' {
			i++
			argNum()
			sp.prec, _ = number()
			sp.hasP = sp.prec >= 0
		}
		argNum()
		if i >= len(format) {
			out = strCat(out, vstr("%!(NOVERB)"))
			break
		}
		sp.verb = format[i]
		i++
		if sp.verb == '%' {
			out = strCat(out, vstr("%"))
			continue
		}
		if ai >= len(args) {
			out = strCat(out, vstr("%!"+string(sp.verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if sp.verb == 'w' {
			wrapped = append(wrapped, a)
		}
		x, _ := a.p.(*Iface)
		if x == nil {
			out = strCat(out, g.fmtValue(sp, nil, Value{}))
			continue
		}
		if sp.verb == 'T' {
			out = strCat(out, g.m.fmtPad(sp, vstr(typeText(x.t))))
			continue
		}
		out = strCat(out, g.fmtValue(sp, x.t, x.v))
	}
	if ai < len(args) && !reordered {
		out = strCat(out, vstr("%!(EXTRA "))
		for i, a := range args[ai:] {
			if i > 0 {
				out = strCat(out, vstr(", "))
			}
			if x, _ := a.p.(*Iface); x == nil {
				out = strCat(out, vstr("<nil>"))
			} else {
				out = strCat(out, vstr(typeText(x.t)+"="))
				out = strCat(out, g.fmtValue(fmtSpec{verb: 'v'}, x.t, x.v))
			}
		}
		out = strCat(out, vstr(")"))
	}
	return out, wrapped
}

func (g *G) sprint(args []Value, ln bool) Value {
	out := vstr("")
	prevStr := false
	for i, a := range args {
		x, _ := a.p.(*Iface)
		isStr := x != nil && infoOf(x.t).k == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strCat(out, vstr(" "))
		}
		if x == nil {
			out = strCat(out, vstr("<nil>"))
		} else {
			out = strCat(out, g.fmtValue(fmtSpec{verb: 'v'}, x.t, x.v))
		}
		prevStr = isStr
	}
	if ln {
		out = strCat(out, vstr("\n"))
	}
	return out
}

func (g *G) writeTo(w Value, s Value) Value {
	iv, _ := w.p.(*Iface)
	if iv == nil {
		g.m.nilPanic()
	}
	bs := g.m.strBytes(s)
	r, ok := g.callMeth(iv, "Write", Value{p: &Slice{bs}})
	if !ok {
		unsup("Write on %s", iv.t)
	}
	return r
}

func fmtNatives(n map[string]nativeFn) {
	reg := func(name string, f nf) { n[name] = f }
	reg("fmt.Sprintf", func(g *G, _ fnT, a []Value) Value {
		s, _ := g.sprintf(g.m.needStr(a[0]), sliceOf(a[1]))
		return s
	})
	reg("fmt.Sprint", func(g *G, _ fnT, a []Value) Value { return g.sprint(sliceOf(a[0]), false) })
	reg("fmt.Sprintln", func(g *G, _ fnT, a []Value) Value { return g.sprint(sliceOf(a[0]), true) })
	reg("fmt.Fprintf", func(g *G, _ fnT, a []Value) Value {
		s, _ := g.sprintf(g.m.needStr(a[1]), sliceOf(a[2]))
		return g.writeTo(a[0], s)
	})
	reg("fmt.Fprint", func(g *G, _ fnT, a []Value) Value { return g.writeTo(a[0], g.sprint(sliceOf(a[1]), false)) })
	reg("fmt.Fprintln", func(g *G, _ fnT, a []Value) Value { return g.writeTo(a[0], g.sprint(sliceOf(a[1]), true)) })
	reg("fmt.Printf", func(g *G, _ fnT, a []Value) Value { return tuple(Value{}, Value{}) })
	reg("fmt.Println", func(g *G, _ fnT, a []Value) Value { return tuple(Value{}, Value{}) })
	reg("fmt.Print", func(g *G, _ fnT, a []Value) Value { return tuple(Value{}, Value{}) })
	reg("fmt.Sscanf", func(g *G, _ fnT, a []Value) Value {
		src, ok1 := concStr(a[0])
		format, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			unsup("fmt.Sscanf of a symbolic string")
		}
		args := sliceOf(a[2])
		dst := make([]any, len(args))
		for i, x := range args {
			switch t := x.p.(*Iface).t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); t.Kind() {
			case types.Uint8:
				dst[i] = new(uint8)
			case types.Int:
				dst[i] = new(int)
			default:
				unsup("%s", "fmt.Sscanf into "+t.String())
			}
		}
		n, err := fmt.Sscanf(src, format, dst...)
		for i, x := range args {
			q := x.p.(*Iface).v.p.(*Value)
			switch d := dst[i].(type) {
			case *uint8:
				g.m.store(q, vint(int(*d)))
			case *int:
				g.m.store(q, vint(*d))
			}
		}
		e := Value{}
		if err != nil {
			e = g.m.errorValue(err.Error())
		}
		return tuple(vint(n), e)
	})
	app := func(g *G, b, s Value) Value {
		x := sliceOf(b)
		return Value{p: &Slice{g.m.appendVals(x, g.m.strBytes(s), types.Typ[types.Byte])}}
	}
	reg("fmt.Appendf", func(g *G, _ fnT, a []Value) Value {
		s, _ := g.sprintf(g.m.needStr(a[1]), sliceOf(a[2]))
		return app(g, a[0], s)
	})
	reg("fmt.Append", func(g *G, _ fnT, a []Value) Value { return app(g, a[0], g.sprint(sliceOf(a[1]), false)) })
	reg("fmt.Appendln", func(g *G, _ fnT, a []Value) Value { return app(g, a[0], g.sprint(sliceOf(a[1]), true)) })
	reg("fmt.Errorf", func(g *G, _ fnT, a []Value) Value {
		s, ws := g.sprintf(g.m.needStr(a[0]), sliceOf(a[1]))
		e := g.m.e
		switch len(ws) {
		case 0:
			v := Value{p: &Agg{[]Value{s}}}
			return Value{p: &Iface{e.errorStringType(), Value{p: &v}}}
		case 1:
			v := Value{p: &Agg{[]Value{s, ws[0]}}}
			return Value{p: &Iface{e.ptrTo("fmt", "wrapError"), Value{p: &v}}}
		}
		v := Value{p: &Agg{[]Value{s, {p: &Slice{ws}}}}}
		return Value{p: &Iface{e.ptrTo("fmt", "wrapErrors"), Value{p: &v}}}
	})
}

func (e *Engine) ptrTo(pkg, name string) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.ptrs == nil {
		e.ptrs = map[string]types.Type{}
	}
	k := pkg + "." + name
	if t := e.ptrs[k]; t != nil {
		return t
	}
	t := types.NewPointer(e.pkgs[pkg].Pkg.Scope().Lookup(name).Type())
	e.ptrs[k] = t
	return t
}
