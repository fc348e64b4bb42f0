package widget

import (
	"time"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// Widgets of more columns, lines or parts than a byte counts.

func many() int { return zzsym.Bound("many", 264, 520) }

// shape is an area of n columns or of n lines.
func shape(n, other int) (w, h int) {
	if zzsym.Choice("tall", 2) == 1 {
		return other, n
	}
	return n, other
}

func bigPage(w, h int) *page {
	b := NewBufferFilled(Rect{Position: NewPosition(2, 1), Width: w + 1, Height: h + 1}, under)
	return &page{&b, Rect{Position: NewPosition(2, 1), Width: w, Height: h}}
}

// letter is one of n different graphemes of one column.
func letter(i int) string { return string(rune(0x1401 + i)) }

// sentence is n graphemes, some of them wide or unknown.
func sentence(n, wide int) (us []unit) {
	for i := 0; i < n; i++ {
		switch {
		case i == n/3 || i == n-2:
			us = append(us, unit{s: string(zzsym.Rune("n", "narrow")), w: 1})
		case wide > 0 && i%wide == wide-1:
			us = append(us, unit{s: "\u4e2d", w: 2})
		default:
			us = append(us, unit{s: letter(i), w: 1})
		}
	}
	return us
}

func C19_Big() {
	w, h := shape(many(), 3)
	k := zzsym.Choice("type", len(types))
	b, s := blockwidget.New().WithBorderType(types[k]).WithBorderStyle(NewStyle().WithForeground(termenv.ANSIRed)), blockwidget.Side(15)
	switch zzsym.Choice("sides", 3) {
	case 0:
		b = b.Bordered()
	case 1:
		b, s = b.WithBorderSides(blockwidget.SideLeft, blockwidget.SideBottom), blockwidget.SideLeft|blockwidget.SideBottom
	case 2:
		b, s = b.WithBorderSides(blockwidget.SideTop, blockwidget.SideRight), blockwidget.SideTop|blockwidget.SideRight
	}
	frame(bigPage(w, h), b, s, types[k])
}

func C20_Big() {
	n := many()
	us := sentence(n, 0)
	w := []int{n / 2, n + 2, n + 50}[zzsym.Choice("width", 3)]
	align := aligns[1+zzsym.Choice("align", 3)]
	p := bigPage(w, 2)
	blockwidget.New().Bordered().WithTitle(blockwidget.NewTitleStr(concat(us)).WithAlignment(align)).Render(p.area, p.Buffer)
	skip, at := 0, 1
	switch align {
	case AlignmentCenter:
		skip, at = max(0, n-w+2)/2, 1+max(0, w-2-n)/2
	case AlignmentRight:
		skip, at = max(0, n-w+2), 1+max(0, w-2-n)
	}
	for x := 1; x < w-1; x++ {
		want := "\u2500"
		if i := x - at + skip; x >= at && i < n {
			want = us[i].s
		}
		zzsym.Assert(p.CellAt(NewPosition(2+x, 1)).Symbol == want, "a title is not where its order and alignment put it")
	}
}

// C20_Many: many titles of one side, in order.
func C20_Many() {
	n := 40
	align := aligns[1+zzsym.Choice("align", 3)]
	b := blockwidget.New().WithBorderSides(blockwidget.SideTop)
	last := string(zzsym.Rune("t", "narrow"))
	for i := 0; i < n; i++ {
		s := letter(i)
		if i == n-3 {
			s = last
		}
		b = b.WithTitle(blockwidget.NewTitleStr(s).WithAlignment(align))
	}
	w := 2*n + 9
	p := bigPage(w, 1)
	b.Render(p.area, p.Buffer)
	at := []int{0, 5, 10}[align-AlignmentLeft]
	for x := 0; x < w; x++ {
		want := "\u2500"
		if i := x - at; i >= 0 && i%2 == 0 && i/2 < n {
			want = letter(i / 2)
			if i/2 == n-3 {
				want = last
			}
		}
		zzsym.Assert(p.CellAt(NewPosition(2+x, 1)).Symbol == want, "a title is not where its order and alignment put it")
	}
}

func C21_Big() {
	x, y := marks()
	k := []int{15, 16, 31, 32, 33, 64}[zzsym.Choice("elements", zzsym.Bound("element counts", 5, 6))]
	switch zzsym.Choice("builder", 3) {
	case 0:
		derive(k, string(x), string(y), func() any { return blockwidget.New() }, func(v any, s string) any {
			return v.(blockwidget.Block).WithTitleStr(s)
		}, func(v any) *Buffer { return shown(2*k+6, 1, v.(blockwidget.Block).Render) })
	case 1:
		derive(k, string(x), string(y), func() any { return textwidget.NewLine() }, func(v any, s string) any {
			return v.(textwidget.Line).WithSpansStr(s)
		}, func(v any) *Buffer { return shown(k+3, 1, v.(textwidget.Line).Render) })
	case 2:
		derive(k, string(x), string(y), func() any { return textwidget.NewText() }, func(v any, s string) any {
			return v.(textwidget.Text).WithLinesStr(s)
		}, func(v any) *Buffer { return shown(1, k+3, v.(textwidget.Text).Render) })
	}
}

func C22_Big() {
	w := many()
	unicode := zzsym.Choice("unicode", 2) == 1
	p := zzsym.Concrete(zzsym.Int("percent", 0, 100))
	b := shown(w, 3, gaugewidget.New().WithUnicode(unicode).WithPercent(p).Render)
	gaugeLevel(level(b, 0, w), level(b, 2, w), w, p, 100, unicode)
}

// C22_Tall: the label is in the middle of many lines.
func C22_Tall() {
	h := many() + zzsym.Choice("one more", 2)
	p := zzsym.Concrete(zzsym.Int("tens", 1, 9)) * 10
	b := shown(5, h, gaugewidget.New().WithPercent(p).Render)
	for y := 0; y < h; y++ {
		if y == h/2 {
			s := ""
			for x := 1; x < 4; x++ {
				s += b.CellAt(NewPosition(x, y)).Symbol
			}
			zzsym.Assert(s == string(rune('0'+p/10))+"0%", "the label is not shown in the middle")
			continue
		}
		l := level(b, y, 5)
		gaugeLevel(l, l, 5, p, 100, false)
	}
}

// long is a list of many items.
func long(n int) listwidget.List {
	var items []textwidget.Text
	for i := 0; i < n; i++ {
		items = append(items, textwidget.NewTextStr(letter(i)))
	}
	return listwidget.New(items...).WithHighlightSymbol(">").WithHighlightStyle(NewStyle().Bold())
}

// readLong is which of the n items are shown, and which of them is marked.
func readLong(b *Buffer, n, h int, up bool) (first, last, marked int) {
	first, last, marked = -1, -1, -1
	for y := 0; y < h; y++ {
		r := y
		if up {
			r = h - 1 - y
		}
		x := 0
		if b.CellAt(NewPosition(0, r)).Symbol == ">" || b.CellAt(NewPosition(0, r)).Symbol == " " {
			x = 1
		}
		c := b.CellAt(NewPosition(x, r)).Symbol
		if c == "." {
			continue
		}
		i := int([]rune(c)[0] - 0x1401)
		zzsym.Assert(i >= 0 && i < n && c == letter(i) && (last < 0 || i == last+1), "items are out of order or missing")
		last = i
		if first < 0 {
			first = i
		}
		if x == 1 && b.CellAt(NewPosition(0, r)).Symbol == ">" {
			zzsym.Assert(marked < 0, "two items are marked")
			marked = i
		}
	}
	return
}

func C23_Big() {
	n := many()
	l := long(n)
	var s listwidget.State
	m := selection{true, zzsym.Concrete([]int{0, 1, n/2 - 1, n - 2, n - 1}[zzsym.Choice("at", 5)])}
	s.Select(m.at)
	for i := 0; i < 2; i++ {
		k := []int{0, 3, 6, 8, 10, 11, 12, 13}[zzsym.Choice("command", 8)]
		m.apply(&s, k, []int{1, 255, 256, n}[zzsym.Choice("amount", 4)])
		h := 4
		_, _, marked := readLong(shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) }), n, h, false)
		m.at = min(m.at, n-1)
		got, ok := s.Selected(n - 1)
		zzsym.Assert(ok && got == m.at, "a selection command did not select its item")
		zzsym.Assert(marked == m.at, "the marked item is not the selected one")
	}
}

func C24_Big() {
	n := many()
	l := long(n)
	up := zzsym.Choice("up", 2) == 1
	if up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	pad := zzsym.Choice("padding", 3)
	l = l.WithScrollPadding(pad)
	s := listwidget.NewState()
	h := []int{1, 5, n - 1, n + 3}[zzsym.Choice("height", 4)]
	at := []int{0, 1, n/2 - 1, n - 2, n - 1}
	sel := at[zzsym.Choice("at", 5)]
	s.SetOffset(at[zzsym.Choice("offset", 5)])
	s.Select(sel)
	first, last, marked := readLong(shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) }), n, h, up)
	zzsym.Assert(marked == sel, "the selected item is not shown")
	if h >= 2*pad+1 {
		zzsym.Assert(first <= max(0, sel-pad) && last >= min(n-1, sel+pad), "the padding around the selected item is not shown")
	}
	f2, l2, m2 := readLong(shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) }), n, h, up)
	zzsym.Assert(m2 == sel && f2 == first && l2 == last, "a list moves although nothing changed")
}

// C24_Tall: an item of many lines, and others beside it.
func C24_Tall() {
	n := many()
	items := []textwidget.Text{textwidget.NewTextStr("A"), textwidget.NewText(), textwidget.NewTextStr("C")}
	for i := 0; i < n; i++ {
		items[1] = items[1].WithLinesStr(letter(i))
	}
	l := listwidget.New(items...).WithHighlightStyle(NewStyle().Bold())
	h := n + zzsym.Choice("more", 4)
	s := listwidget.NewState()
	s.SetOffset(zzsym.Choice("offset", 3))
	s.Select(1)
	b := shown(1, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
	y := 0
	if b.CellAt(NewPosition(0, 0)).Symbol == "A" {
		y = 1
	}
	for i := 0; i < n; i++ {
		c := b.CellAt(NewPosition(0, y+i))
		zzsym.Assert(c.Symbol == letter(i) && c.Modifier&ModifierBold != 0, "an item is not shown whole")
	}
}

func C25_Big() {
	n := many()
	o := orientations[zzsym.Choice("orientation", 4)]
	vertical := o == scrollwidget.OrientationVerticalLeft || o == scrollwidget.OrientationVerticalRight
	w, h, arrows := n, 2, 0
	if vertical {
		w, h, arrows = 2, n, 2
	}
	content := []int{1, 2, 100, n, 1000, 70000, 1 << 40}[zzsym.Choice("content", 7)]
	position := []int{0, content / 3, content - 1}[zzsym.Choice("position", 3)]
	viewport := []int{0, 1, n}[zzsym.Choice("viewport", 3)]
	st := scrollwidget.NewState(content)
	st.SetPosition(position).SetViewportContentLen(viewport)
	r, ok := scrollbar(o, w, h, st)
	zzsym.Assert(ok, "a scrollbar with content and room is not shown")
	zzsym.Assert(r.before+r.thumb+r.behind == n-arrows, "a scrollbar does not use its whole track")
	if viewport == 0 {
		viewport = n
	}
	all := content - 1 + viewport
	longer := r.thumb*all - viewport*(n-arrows)
	zzsym.Assert(longer <= all || r.thumb == 1, "the thumb is more than a cell longer than the part that is visible")
	zzsym.Assert(-longer <= all, "the thumb is more than a cell shorter than the part that is visible")
	zzsym.Assert(position > 0 || r.before == 0, "the thumb of the first position is not at the beginning")
	zzsym.Assert(position < content-1 || r.behind == 0, "the thumb of the last position is not at the end")
	if position > 0 && position < content-1 {
		d := r.before*all - position*(n-arrows)
		zzsym.Assert(d <= 2*all && -d <= 2*all, "the thumb is not at its position")
	}
}

func C27_Big() {
	n := many()
	us := sentence(n, []int{0, 7}[zzsym.Choice("wide", 2)])
	t := total(us)
	w := []int{n / 2, n/2 + 1, t, t + 37}[zzsym.Choice("width", 4)]
	a := anyAlign()
	// many spans
	var spans []textwidget.Span
	per := []int{1, 50, n}[zzsym.Choice("per span", 3)]
	for i := 0; i < n; i += per {
		e := min(n, i+per)
		st := spanStyles[i/per%2]
		for j := i; j < e; j++ {
			us[j].style = st
		}
		spans = append(spans, textwidget.NewSpan(concat(us[i:e])).WithStyle(st))
	}
	l := textwidget.NewLine(spans...).WithStyle(lineStyle).WithAlignment(a)
	zzsym.Assert(l.Width() == t, "the width of a line is not the width of its graphemes")
	p := bigPage(w, 1)
	l.Render(p.area, p.Buffer)
	shows(p.Buffer, 2, 1, w, us, a, NewStyle(), l.Style)
}

func C27_Tall() {
	n := many()
	t := textwidget.NewText()
	sym := string(zzsym.Rune("n", "narrow"))
	for i := 0; i < n; i++ {
		s := letter(i)
		if i == n-5 {
			s = sym
		}
		t = t.WithLinesStr(s)
	}
	h := []int{n / 2, n, n + 3}[zzsym.Choice("height", 3)]
	p := bigPage(1, h)
	t.Render(p.area, p.Buffer)
	zzsym.Assert(t.Height() == n, "the height of a text is not its number of lines")
	for y := 0; y < h; y++ {
		var us []unit
		if y == n-5 {
			us = []unit{{s: sym, w: 1}}
		} else if y < n {
			us = []unit{{s: letter(y), w: 1}}
		}
		shows(p.Buffer, 2, 1+y, 1, us, AlignmentLeft, NewStyle(), NewStyle())
	}
}

func C28_Big() {
	n := many()
	word := []int{1, 9, 60, n}[zzsym.Choice("word", 4)]
	var gs []graph
	s := ""
	line := 0
	breaks := zzsym.Choice("breaks", 2) == 1
	for i := 0; i < n; i++ {
		u := unit{s: letter(i), w: 1}
		switch {
		case i%(word+1) == word && breaks && i%2 == 1:
			s += "\n"
			line++
			continue
		case i%(word+1) == word:
			u = unit{s: " ", w: 1, space: true}
		case i == n/2:
			r := zzsym.Rune("n", "ascii")
			zzsym.Assume(r != ' ' && r != '.')
			u = unit{s: string(r), w: 1}
		case i%50 == 48:
			u = unit{s: "\u4e2d", w: 2}
		}
		s += u.s
		gs = append(gs, graph{unit: u, line: line})
	}
	zzsym.Steps(200_000_000)
	w := []int{9, 64, n - 8, n + 40}[zzsym.Choice("width", 4)]
	trim := zzsym.Choice("trim", 2) == 1
	a := []Alignment{AlignmentLeft, AlignmentRight}[zzsym.Choice("right", 2)]
	h := n/w*2 + line + 5
	if word+1 < w {
		h = n/(w-word) + line + 5
	}
	wrapped(wrap(s, w, h, trim, a, 0), w, h, gs, trim, a)
}

func C29_Big() {
	n := many()
	us := sentence(n, []int{0, 7}[zzsym.Choice("wide", 2)])
	t := total(us)
	w := []int{n / 2, t, t + 37}[zzsym.Choice("width", 3)]
	sx := []int{0, n / 2, 255, 256, t - 1}[zzsym.Choice("sx", 5)]
	a := anyAlign()
	p := paragraphwidget.New(textwidget.NewText(textwidget.NewLineStr(concat(us)).WithStyle(lineStyle))).WithScroll(0, sx)
	p.Alignment = a
	b := bigPage(w, 1)
	p.Render(b.area, b.Buffer)
	in := NewBufferEmpty(Rect{Width: w, Height: 1})
	for x := 0; x < w; x++ {
		*in.CellAt(NewPosition(x, 0)) = *b.CellAt(NewPosition(2+x, 1))
	}
	truncated(&in, 0, w, us, a, sx, NewStyle(), NewStyle())
}

func C29_Tall() {
	n := many()
	t := textwidget.NewText()
	for i := 0; i < n; i++ {
		t = t.WithLinesStr(letter(i))
	}
	sy := []int{0, 1, 255, 256, n - 2, n + 1}[zzsym.Choice("sy", 6)]
	h := []int{4, n}[zzsym.Choice("height", 2)]
	sym := zzsym.Rune("n", "narrow")
	t = t.WithLinesStr(string(sym))
	b := shown(1, h, paragraphwidget.New(t).WithScroll(sy, 0).Render)
	for y := 0; y < h; y++ {
		want := "."
		if sy+y < n {
			want = letter(sy + y)
		} else if sy+y == n {
			want = string(sym)
		}
		zzsym.Assert(b.CellAt(NewPosition(0, y)).Symbol == want, "a paragraph does not show the lines behind the offset")
	}
}

func C30_Big() {
	n := many()
	us := sentence(n, 0)
	for i := range us {
		zzsym.Assume(us[i].s != " ")
		if i%31 == 30 {
			us[i] = unit{s: " ", w: 1, space: true}
		}
	}
	s, e := put(us, []int{0, 1, n / 2, 255, 256, n}[zzsym.Choice("at", 6)])
	for i := 0; i < 2; i++ {
		edit(&s, e, []int{2, 3, 6, 8, 9, 11, 13, 14}[zzsym.Choice("op", 8)], 1)
	}
	e.agree(s)
}

func C31_Big() {
	n := many()
	us := sentence(n, []int{0, 7}[zzsym.Choice("wide", 2)])
	for i := range us {
		zzsym.Assume(us[i].s != ".")
	}
	at := []int{0, 1, n / 2, 256, n - 1, n}
	s, e := put(us, at[zzsym.Choice("at", 6)])
	w := []int{9, n / 2, 2 * n}[zzsym.Choice("width", 3)]
	a := anyAlign()
	in := inputwidget.New().WithAlignment(a)
	e.check(look(in, &s, w, 1), 0, w, nil, a)
	to := at[zzsym.Choice("to", 6)]
	for ; e.at < to; e.at++ {
		s.MoveCursorRight()
	}
	for ; e.at > to; e.at-- {
		s.MoveCursorLeft()
	}
	e.check(look(in, &s, w, 1), 0, w, nil, a)
}

func C32_Big() {
	n := []int{40, 300}[zzsym.Choice("tabs", 2)]
	sel := []int{0, 1, n / 2, n - 1}[zzsym.Choice("selected", 4)]
	var titles []textwidget.Line
	sym := string(zzsym.Rune("t", "narrow"))
	name := func(i int) string {
		if i == n-2 {
			return sym
		}
		return letter(i)
	}
	for i := 0; i < n; i++ {
		titles = append(titles, textwidget.NewLineStr(name(i)))
	}
	w := []int{2 * n, 4*n + 5}[zzsym.Choice("width", 2)]
	p := bigPage(w, 1)
	mark := NewStyle().Underlined()
	tabswidget.New(titles...).Select(sel).WithHighlightStyle(mark).Render(p.area, p.Buffer)
	for x := 0; x < w; x++ {
		want := under
		switch i := x / 4; {
		case x >= 4*n-1:
		case x%4 == 1:
			want.Symbol = name(i)
			if i == sel {
				want.SetStyle(mark)
			}
		case x%4 == 3:
			want.Symbol = "\u2502"
		default:
			want.Symbol = " "
		}
		zzsym.Assert(*p.CellAt(NewPosition(2+x, 1)) == want, "tabs do not show their titles, padding and dividers in order with their styles")
	}
}

func C33_Big() {
	n := many()
	w, h := shape(n, 5)
	p, hor, ver := anyPopup()
	size := []int{1, n / 2, n - 9, n + 3}[zzsym.Choice("size", 4)]
	pw, ph := min(size, w), min(2, h)
	p = p.WithWidth(ConstraintLen(size)).WithHeight(ConstraintLen(2))
	if h == n {
		pw, ph = min(2, w), min(size, h)
		p = p.WithWidth(ConstraintLen(2)).WithHeight(ConstraintLen(size))
	}
	b := bigPage(w, h)
	p.Content = fillwidget.New("#")
	p.Render(b.area, b.Buffer)
	x0, y0, x1, y1 := 1<<20, 1<<20, -1, -1
	cells := 0
	for y := 0; y <= h; y++ {
		for x := 0; x <= w; x++ {
			if *b.CellAt(NewPosition(2+x, 1+y)) != under {
				x0, y0, x1, y1 = min(x0, x), min(y0, y), max(x1, x+1), max(y1, y+1)
				cells++
				zzsym.Assert(b.CellAt(NewPosition(2+x, 1+y)).Symbol == "#", "a popup does not show its content inside its block")
			}
		}
	}
	zzsym.Assert(x1-x0 == pw && y1-y0 == ph && cells == pw*ph, "a popup does not have the requested size")
	for i, f := range []Flex{hor, ver} {
		from, room := []int{x0, y0}[i], []int{w - pw, h - ph}[i]
		lo, hi := 0, 0
		switch f {
		case FlexCenter:
			lo, hi = room/2, (room+1)/2
		case FlexEnd:
			lo, hi = room, room
		}
		zzsym.Assert(from >= lo && from <= hi, "a popup is not placed as asked")
	}
}

func C34_Big() {
	t := throbberwidget.Type(zzsym.Choice("type", 9))
	n := many() + zzsym.Choice("more", 4)
	s := throbberwidget.NewState()
	for i := 0; i < n; i++ {
		_, ok := s.TryUpdate(throbberwidget.TickMsg{})
		zzsym.Assert(ok, "a throbber refuses a tick")
	}
	w, _ := t.Set()[n%len(t.Set())].Dimensions()
	if w > 0 && (3-w)%2 == 0 {
		same(frameOf(s, t), frameAt(n, t), "a throbber does not wrap around its frames")
	}
}

// C34_Lasting follows one throbber's own ticks for long.
func C34_Lasting() {
	s := throbberwidget.NewState()
	other := throbberwidget.NewState()
	s.WithFPS(time.Nanosecond)
	m := s.Tick()
	stale := m
	late := zzsym.Choice("late", 3)
	for i := 0; i < many(); i++ {
		cmd, ok := s.TryUpdate(m)
		zzsym.Assert(ok && cmd != nil, "a throbber refuses its latest tick")
		m = cmd()
		zzsym.Assert(m.(throbberwidget.TickMsg).ID() == s.ID(), "a tick message does not name its throbber")
		_, ok = other.TryUpdate(m)
		zzsym.Assert(!ok, "a throbber takes a tick that is not its latest, or refuses the one that is")
		if i > 3 && i%64 == late {
			_, ok = s.TryUpdate(stale)
			zzsym.Assert(!ok, "a throbber takes a tick that is not its latest, or refuses the one that is")
		}
		if i%8 == 1 {
			stale = m
			continue
		}
	}
}

func C47_Big() {
	n := many()
	s, joined := "", ""
	var lines []string
	crlf := zzsym.Choice("returns", 2) == 1
	for i := 0; i < n; i++ {
		l := letter(i)
		if i == n/2 {
			l = string(zzsym.Rune("l", "narrow"))
		}
		if i%5 == 3 {
			l = ""
		}
		lines = append(lines, l)
		s += l
		joined += l
		if crlf && i%3 == 0 {
			s += "\r"
		}
		s += "\n"
		if i < n-1 {
			joined += "\n"
		}
	}
	t := textwidget.NewTextStr(s)
	zzsym.Assert(t.Height() == n && len(t.Lines) == n, "a text made of a string: another number of lines")
	for i, l := range lines {
		zzsym.Assert(t.Lines[i].String() == l, "a text made of a string: a line is another one")
	}
	zzsym.Assert(t.String() == joined, "a text made of a string: the text reads as another one")
}

func C50_Big() {
	w, h := shape(many(), 2)
	p := bigPage(w, h)
	switch zzsym.Choice("what", 3) {
	case 0:
		clearwidget.New().Render(p.area, p.Buffer)
		p.painted(func(x, y int) Cell { return NewEmptyCell() })
	case 1:
		c := NewEmptyCell()
		c.Symbol = string(zzsym.Rune("n", "narrow"))
		fillwidget.New(c.Symbol).Render(p.area, p.Buffer)
		p.painted(func(x, y int) Cell { return c })
	case 2:
		sym := string(zzsym.Rune("c", "cjk"))
		fillwidget.New(sym).Render(p.area, p.Buffer)
		p.painted(func(x, y int) Cell {
			c := NewEmptyCell()
			if (x-2)%2 == 0 && x+2 <= p.area.X+w {
				c.Symbol = sym
			}
			return c
		})
	}
}

// C52_Big: an item of many lines or columns, marked over its whole extent.
func C52_Big() {
	n := many()
	m := &listing{hs: []int{1, 2}, ws: []int{2, 2}, sel: zzsym.Choice("sel", 2)}
	w, h := 5, 4
	if zzsym.Choice("tall", 2) == 1 {
		m.hs[m.sel] = 9
		m.hs = append(m.hs, 30)
		m.ws = append(m.ws, 1)
		h = 42
	} else {
		w = n + 5
		m.ws[m.sel] = n
	}
	m.base = NewStyle().WithForeground(termenv.ANSIColor(zzsym.Int("fg", 0, 15)))
	m.mark = NewStyle().Italic()
	m.sym = []unit{{s: ">", w: 1}}
	m.spot = listwidget.HighlightSpacing(zzsym.Choice("spacing", 3))
	m.repeat = zzsym.Choice("repeat", 2) == 1
	m.up = zzsym.Choice("up", 2) == 1
	m.rendered(w, h, "a list does not show its items with their styles")
}
