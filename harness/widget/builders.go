package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// shown renders a widget somewhere inside a buffer and returns what is shown
// in its area.
func shown(w, h int, r func(Rect, *Buffer)) *Buffer {
	p := insidePage(w, h)
	r(p.area, p.Buffer)
	b := NewBufferEmpty(Rect{Width: w, Height: h})
	for y := p.Area().Top(); y < p.Area().Bottom(); y++ {
		for x := p.Area().Left(); x < p.Area().Right(); x++ {
			c := *p.CellAt(NewPosition(x, y))
			if within(p.area, x, y) {
				*b.CellAt(NewPosition(x-p.area.X, y-p.area.Y)) = c
			} else {
				zzsym.Assert(c == under, "a cell outside the area changed")
			}
		}
	}
	return &b
}

func same(a, b *Buffer, msg string) {
	area := a.Area()
	for y := 0; y < area.Height; y++ {
		for x := 0; x < area.Width; x++ {
			p := NewPosition(x, y)
			zzsym.Assert(*a.CellAt(p) == *b.CellAt(p), msg)
		}
	}
}

// marks are the symbols that the derivations add.
func marks() (x, y rune) {
	x, y = zzsym.Rune("x", "ascii"), zzsym.Rune("y", "ascii")
	return
}

const shared = "a value changed when another was derived from its builder"

// Two values are derived from one builder with k elements and compared with
// values built from scratch.
func derive(k int, first, second string, base func() any, add func(any, string) any, show func(any) *Buffer) {
	build := func(k int) any {
		v := base()
		for i := 0; i < k; i++ {
			v = add(v, string(rune('0'+i)))
		}
		return v
	}
	b := build(k)
	l := add(b, first)
	r := add(b, second)
	l2 := add(l, second)
	r2 := add(r, first)
	same(show(b), show(build(k)), shared)
	same(show(l), show(add(build(k), first)), shared)
	same(show(r), show(add(build(k), second)), shared)
	same(show(l2), show(add(add(build(k), first), second)), shared)
	same(show(r2), show(add(add(build(k), second), first)), shared)
	zzsym.Cover("derived")
}

func elements() (int, string, string) {
	x, y := marks()
	return zzsym.Choice("elements", zzsym.Bound("elements", 5, 9)), string(x), string(y)
}

func C21_Block() {
	k, x, y := elements()
	pos := zzsym.Choice("bottom", 2) == 1
	derive(k, x, y, func() any { return blockwidget.New() }, func(v any, s string) any {
		t := blockwidget.NewTitleStr(s)
		if pos {
			t = t.Bottom()
		}
		return v.(blockwidget.Block).WithTitle(t)
	}, func(v any) *Buffer { return shown(14, 2, v.(blockwidget.Block).Render) })
}

func C21_BlockStr() {
	k, x, y := elements()
	derive(k, x, y, func() any { return blockwidget.New() }, func(v any, s string) any {
		return v.(blockwidget.Block).WithTitleStr(s)
	}, func(v any) *Buffer { return shown(14, 1, v.(blockwidget.Block).Render) })
}

func C21_Line() {
	k, x, y := elements()
	str := zzsym.Choice("str", 2) == 1
	derive(k, x, y, func() any { return textwidget.NewLine() }, func(v any, s string) any {
		if str {
			return v.(textwidget.Line).WithSpansStr(s)
		}
		return v.(textwidget.Line).WithSpans(textwidget.NewSpan(s))
	}, func(v any) *Buffer { return shown(8, 1, v.(textwidget.Line).Render) })
}

func C21_Text() {
	k, x, y := elements()
	str := zzsym.Choice("str", 2) == 1
	derive(k, x, y, func() any { return textwidget.NewText() }, func(v any, s string) any {
		if str {
			return v.(textwidget.Text).WithLinesStr(s)
		}
		return v.(textwidget.Text).WithLines(textwidget.NewLineStr(s))
	}, func(v any) *Buffer { return shown(1, 8, v.(textwidget.Text).Render) })
}

// C21_Append adds spans to copies of a text.
func C21_Append() {
	k, x, y := elements()
	lines := zzsym.Choice("lines", 3)
	derive(k, x, y, func() any {
		var t textwidget.Text
		for i := 0; i < lines; i++ {
			t = t.WithLinesStr("l")
		}
		return t
	}, func(v any, s string) any {
		t := v.(textwidget.Text)
		textwidget.AppendTextSpans(&t, textwidget.NewSpan(s))
		return t
	}, func(v any) *Buffer { return shown(8, 3, v.(textwidget.Text).Render) })
}

// C21_Layout adds constraints of symbolic lengths.
func C21_Layout() {
	k := zzsym.Choice("elements", zzsym.Bound("elements", 4, 6))
	x, y := zzsym.Int("x", 1, 9), zzsym.Int("y", 1, 9)
	area := Rect{Width: 40, Height: 3}
	build := func() Layout {
		l := NewLayout().WithFlex(FlexStart)
		for i := 0; i < k; i++ {
			l = l.WithConstraints(ConstraintLen(2))
		}
		return l
	}
	b := build()
	l := b.WithConstraints(ConstraintLen(x))
	r := b.WithConstraints(ConstraintLen(y))
	check := func(s []Rect, n int) {
		zzsym.Assert(len(s) == k+1, shared)
		zzsym.Assert(s[k].Height == n || s[k].Width == n, shared)
	}
	check(l.Horizontal().Split(area), x)
	check(r.Horizontal().Split(area), y)
	if k > 0 {
		zzsym.Assert(len(b.Horizontal().Split(area)) == k, shared)
	}
	zzsym.Cover("derived")
}

// C21_Values sets single-valued options of one builder twice.
func C21_Values() {
	x, y := marks()
	s, t := string(x), string(y)
	line := func(s string) textwidget.Line { return textwidget.NewLineStr(s) }
	text := func(s string) textwidget.Text { return textwidget.NewTextStr(s) }
	titled := func(s string) blockwidget.Block { return blockwidget.New().WithTitleStr(s) }
	k := zzsym.Choice("builder", 16)
	var set func(string) func(Rect, *Buffer)
	switch k {
	case 0:
		g := gaugewidget.New()
		set = func(s string) func(Rect, *Buffer) { return g.WithLabelStr(s).Render }
	case 1:
		g := gaugewidget.New()
		set = func(s string) func(Rect, *Buffer) { return g.WithLabel(textwidget.NewSpan(s)).Render }
	case 2:
		l := listwidget.New(text("1"))
		set = func(s string) func(Rect, *Buffer) { return l.WithItems(text(s)).Render }
	case 3:
		l := listwidget.New(text("1"))
		set = func(s string) func(Rect, *Buffer) { return l.WithBlock(titled(s)).Render }
	case 4:
		w := tabswidget.New(line("1"), line("2"))
		set = func(s string) func(Rect, *Buffer) { return w.WithTitles(line(s)).Render }
	case 5:
		w := tabswidget.New(line("1"), line("2"))
		set = func(s string) func(Rect, *Buffer) { return w.WithDividerStr(s).Render }
	case 6:
		w := tabswidget.New(line("1"), line("2"))
		set = func(s string) func(Rect, *Buffer) { return w.WithPaddingLeftStr(s).WithPaddingRightStr(s).Render }
	case 7:
		w := tabswidget.New(line("1"), line("2"))
		set = func(s string) func(Rect, *Buffer) { return w.WithBlock(titled(s)).Select(len(s) % 2).Render }
	case 8:
		w := paragraphwidget.NewStr("1")
		set = func(s string) func(Rect, *Buffer) { return w.WithBlock(titled(s)).Render }
	case 9:
		w := paragraphwidget.NewStr("1 2 3 4 5")
		set = func(s string) func(Rect, *Buffer) {
			return w.WithBlock(titled(s)).WithWrap(paragraphwidget.NewWrap().WithTrim(s == t)).Render
		}
	case 10:
		w := popupwidget.New().WithWidth(ConstraintLen(4)).WithHeight(ConstraintLen(2))
		set = func(s string) func(Rect, *Buffer) { return w.WithBlock(titled(s)).Render }
	case 11:
		w := inputwidget.New()
		set = func(s string) func(Rect, *Buffer) {
			i := w.WithBlock(titled(s)).WithPlaceholder(s).WithPrompt(s)
			return func(a Rect, b *Buffer) { st := inputwidget.NewState(); i.RenderStateful(a, b, &st) }
		}
	case 12:
		w := listwidget.New(text("1"), text("2"))
		set = func(s string) func(Rect, *Buffer) {
			l := w.WithHighlightSymbol(s)
			return func(a Rect, b *Buffer) { st := listwidget.NewState(); st.Select(1); l.RenderStateful(a, b, &st) }
		}
	case 13:
		w := throbberwidget.New()
		set = func(q string) func(Rect, *Buffer) {
			i := w.WithType(throbberwidget.Type(0))
			if q == s {
				i = w.WithType(throbberwidget.Type(1))
			}
			return func(a Rect, b *Buffer) { i.RenderStateful(a, b, throbberwidget.NewState()) }
		}
	case 14:
		w := blockwidget.New()
		set = func(q string) func(Rect, *Buffer) {
			if q == s {
				return w.Bordered().Render
			}
			return w.WithTitlesStyle(NewStyle().Bold()).Render
		}
	case 15:
		w := scrollwidget.New(scrollwidget.OrientationVerticalLeft)
		set = func(q string) func(Rect, *Buffer) {
			st := scrollwidget.NewState(len(q) + 4)
			return func(a Rect, b *Buffer) { w.RenderStateful(a, b, st) }
		}
	}
	l, r := set(s), set(t)
	first, second := shown(6, 3, l), shown(6, 3, r)
	same(first, shown(6, 3, set(s)), shared)
	same(second, shown(6, 3, set(t)), shared)
	same(first, shown(6, 3, l), shared)
	same(second, shown(6, 3, r), shared)
	zzsym.Cover("derived")
}

// C21_Spread: builders made from a slice with spare capacity neither write
// into the slice nor share what they add.
func C21_Spread() {
	x, y := marks()
	k, extra := zzsym.Choice("elements", 3), zzsym.Choice("spare", 3)
	kind := zzsym.Choice("builder", 6)
	switch kind {
	case 0, 4:
		spans := make([]textwidget.Span, k, k+extra)
		for i := range spans {
			spans[i] = textwidget.NewSpan(letter(i))
		}
		spread(spans, textwidget.NewSpan("-"), func(s textwidget.Span) any { return textwidget.NewLine(s) }, func() any { return textwidget.NewLine(spans...) }, func(v any, s string) any {
			if kind == 4 {
				return v.(textwidget.Line).WithSpans(textwidget.NewSpan(s))
			}
			return v.(textwidget.Line).WithSpansStr(s)
		}, func(v any) *Buffer { return shown(8, 1, v.(textwidget.Line).Render) }, string(x), string(y))
	case 1, 2, 5:
		lines := make([]textwidget.Line, k, k+extra)
		for i := range lines {
			lines[i] = textwidget.NewLineStr(letter(i))
		}
		spread(lines, textwidget.NewLineStr("-"), func(l textwidget.Line) any { return textwidget.NewText(l) }, func() any { return textwidget.NewText(lines...) }, func(v any, s string) any {
			t := v.(textwidget.Text)
			if kind == 1 {
				return t.WithLinesStr(s)
			}
			if kind == 5 {
				return t.WithLines(textwidget.NewLineStr(s))
			}
			textwidget.AppendTextSpans(&t, textwidget.NewSpan(s))
			return t
		}, func(v any) *Buffer { return shown(8, 8, v.(textwidget.Text).Render) }, string(x), string(y))
	case 3:
		cs := make([]Constraint, k, k+extra)
		for i := range cs {
			cs[i] = ConstraintLen(2 + i)
		}
		spread(cs, Constraint(ConstraintLen(9)), func(c Constraint) any { return NewLayout(c).Horizontal().WithFlex(FlexStart) }, func() any { return NewLayout(cs...).Horizontal().WithFlex(FlexStart) }, func(v any, s string) any {
			n := 1
			if s == string(x) {
				n = 7
			}
			return v.(Layout).WithConstraints(ConstraintLen(n))
		}, func(v any) *Buffer {
			return shown(40, 1, func(a Rect, b *Buffer) {
				for i, r := range v.(Layout).Split(a) {
					for p := r.Left(); p < r.Right(); p++ {
						b.CellAt(NewPosition(p, a.Y)).SetSymbol(letter(i))
					}
				}
			})
		}, string(x), string(y))
	}
}

// spread derives from a value made of the slice given.
func spread[T any](given []T, other T, one func(T) any, build func() any, add func(v any, s string) any, show func(any) *Buffer, x, y string) {
	all := given[:cap(given)]
	for i := len(given); i < len(all); i++ {
		all[i] = other
	}
	b := build()
	before := show(b)
	l := add(b, x)
	alone := show(l)
	r := add(b, y)
	rl := add(add(r, x), y)
	same(show(l), alone, shared)
	same(show(b), before, shared)
	same(show(add(build(), y)), show(r), shared)
	same(show(rl), show(add(add(add(build(), y), x), y)), shared)
	// what the slice holds beyond its end is the caller's
	for i := len(given); i < len(all); i++ {
		same(show(one(all[i])), show(one(other)), "deriving a value writes into a slice of the caller")
	}
}
