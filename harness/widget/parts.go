package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C48

// anyBlock is a block with any sides, a title at the top, the bottom or none,
// and some padding.
func anyBlock() blockwidget.Block { return someBlock(zzsym.Bound("side sets", 6, 16), 3) }

func someBlock(sets, titles int) blockwidget.Block {
	b := blockwidget.New().WithStyle(NewStyle().WithBackground(termenv.ANSICyan)).WithBorderStyle(NewStyle().Bold())
	if sides := zzsym.Choice("sides", sets); sides < 6 {
		for i, s := range []blockwidget.Side{blockwidget.SideAll, blockwidget.SideLeft, blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom} {
			if sides == i {
				b = b.WithBorderSides(s)
			}
		}
	} else {
		b = b.WithBorderSides(blockwidget.Side(sides - 1))
	}
	switch zzsym.Choice("title", titles) {
	case 1:
		b = b.WithTitleStr("T")
	case 2:
		b = b.WithTitle(blockwidget.NewTitleStr("T").Bottom())
	}
	if zzsym.Choice("padded", 2) == 1 {
		b = b.WithPadding(NewPadding().WithLeft(zzsym.Choice("pad", 2)).WithTop(1))
	}
	return b
}

// framed compares a widget that has a block with the block and, inside it, the
// widget without.
func framed(with, without func(Rect, *Buffer), bl blockwidget.Block) {
	w, h := zzsym.Choice("w", 1+zzsym.Bound("columns", 5, 7)), zzsym.Choice("h", 1+zzsym.Bound("lines", 4, 5))
	area := Rect{Position: NewPosition(1, 1), Width: w, Height: h}
	page := Rect{Width: w + 2, Height: h + 2}
	a, b := NewBufferFilled(page, under), NewBufferFilled(page, under)
	with(area, &a)
	bl.Render(area, &b)
	without(bl.Inner(area), &b)
	same(&a, &b, "a widget in a block does not show the block and the widget inside it")
	zzsym.Cover("framed")
}

func C48_Paragraph() {
	bl := anyBlock()
	p := paragraphwidget.NewStr(string(zzsym.Rune("n", "narrow")) + "b cd\nef").WithWrap(paragraphwidget.Wrap{Trim: true})
	framed(p.WithBlock(bl).Render, p.Render, bl)
}

func C48_Tabs() {
	bl := anyBlock()
	t := tabswidget.New(textwidget.NewLineStr(string(zzsym.Rune("n", "narrow"))), textwidget.NewLineStr("b")).Select(zzsym.Choice("tab", 2))
	framed(t.WithBlock(bl).Render, t.Render, bl)
}

func C48_List() {
	bl := anyBlock()
	l := listwidget.New(cards([]int{1, 2, 1})...).WithHighlightSymbol([]string{">", ">>>>", "\u4e16>"}[zzsym.Choice("symbol", 3)]).WithHighlightStyle(NewStyle().Italic())
	s := listwidget.NewState()
	sel := zzsym.Int("sel", -1, 2)
	if sel >= 0 {
		s.Select(sel)
	}
	q := s
	framed(func(a Rect, b *Buffer) { l.WithBlock(bl).RenderStateful(a, b, &s) }, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &q) }, bl)
	zzsym.Assert(s == q, "a list in a block starts at another item")
}

func C48_Input() {
	bl := someBlock(zzsym.Bound("side sets around an input", 2, 6), zzsym.Bound("titles around an input", 2, 3))
	i := inputwidget.New().WithPrompt(">").WithAlignment(anyAlign())
	state := func() *inputwidget.State {
		s := inputwidget.NewState()
		s.Append("abc")
		return &s
	}
	s, q := state(), state()
	framed(func(a Rect, b *Buffer) { i.WithBlock(bl).RenderStateful(a, b, s) }, func(a Rect, b *Buffer) { i.RenderStateful(a, b, q) }, bl)
}

// C48_Popup: the block is around the popup itself.
func C48_Popup() {
	bl := someBlock(zzsym.Bound("side sets around a popup", 3, 6), zzsym.Bound("titles around a popup", 2, 3))
	w, h := zzsym.Choice("pw", 5), zzsym.Choice("ph", 5)
	p := popupwidget.New().WithWidth(ConstraintLen(w)).WithHeight(ConstraintLen(h)).Left().Top()
	content := fillwidget.New("x")
	area := Rect{Position: NewPosition(1, 1), Width: 4, Height: 4}
	page := Rect{Width: 6, Height: 6}
	a, b := NewBufferFilled(page, under), NewBufferFilled(page, under)
	q := p.WithBlock(bl)
	q.Content = content
	q.Render(area, &a)
	own := p.Inner(area)
	clearwidget.New().Render(own, &b)
	bl.Render(own, &b)
	content.Render(bl.Inner(own), &b)
	same(&a, &b, "a popup in a block does not show the block and its content inside it")
	zzsym.Assert(q.Inner(area) == bl.Inner(own), "the inside of a popup is not the inside of its block")
}

// ---------------------------------------------------------------- C49

const differs = "an option does something else than what it is called"

// C49_Tabs: the parts of a tab bar are what the options say, nothing included.
func C49_Tabs() {
	part := func(name string) string { return zzsym.Str(name, zzsym.Choice("runes", 3), "text") }
	l, r, d := part("left"), part("right"), part("divider")
	t := tabswidget.New(textwidget.NewLineStr("A"), textwidget.NewLineStr("B"))
	left := func() { t = t.WithPaddingLeftStr(l) }
	if zzsym.Choice("order", 2) == 1 {
		t = t.WithPaddingRightStr(r)
		left()
	} else {
		left()
		t = t.WithPaddingRightStr(r)
	}
	t = t.WithDividerStr(d)
	want := l + "A" + r + d + l + "B" + r
	width := 13
	b := shown(width, 1, t.Render)
	i := 0
	for _, c := range want {
		zzsym.Assert(b.CellAt(NewPosition(i, 0)).Symbol == string(c), differs)
		i++
	}
	for ; i < width; i++ {
		zzsym.Assert(*b.CellAt(NewPosition(i, 0)) == under, differs)
	}
}

// at returns where a symbol is shown.
func find(b *Buffer, sym string) (x, y, n int) {
	for i := 0; i < b.Area().Height; i++ {
		for j := 0; j < b.Area().Width; j++ {
			if b.CellAt(NewPosition(j, i)).Symbol == sym {
				if n == 0 {
					x, y = j, i
				}
				n++
			}
		}
	}
	return
}

// aligned is the column of a text of width n in w columns.
func aligned(k, n, w int) int {
	switch k {
	case 1:
		return (w - n) / 2
	case 2:
		return w - n
	}
	return 0
}

// C49_Align: left, center and right place what is shown accordingly.
func C49_Align() {
	n0 := zzsym.Rune("n", "narrow")
	zzsym.Assume(n0 != '.' && n0 != ' ')
	r := string(n0)
	w := zzsym.Concrete(zzsym.Int("w", 2, zzsym.Bound("columns", 8, 12)))
	k := zzsym.Choice("align", 3)
	var show func(Rect, *Buffer)
	n := 1
	switch zzsym.Choice("widget", 5) {
	case 0:
		l := textwidget.NewLineStr(r)
		show = []textwidget.Line{l.Left(), l.Center(), l.Right()}[k].Render
	case 1:
		t := textwidget.NewTextStr(r)
		show = []textwidget.Text{t.Left(), t.Center(), t.Right()}[k].Render
	case 2:
		p := paragraphwidget.NewStr(r)
		show = []paragraphwidget.Paragraph{p.Left(), p.Center(), p.Right()}[k].Render
	case 3:
		n = 2
		i := inputwidget.New()
		i = []inputwidget.Input{i.Left(), i.Center(), i.Right()}[k]
		s := inputwidget.NewState()
		s.Append(r)
		s.ShowCursor(true)
		show = func(a Rect, b *Buffer) { i.RenderStateful(a, b, &s) }
	case 4:
		t := blockwidget.NewTitleStr(r)
		show = blockwidget.New().WithTitle([]blockwidget.Title{t.Left(), t.Center(), t.Right()}[k]).Render
	}
	b := shown(w, 1, show)
	x, _, count := find(b, r)
	zzsym.Assert(count == 1, differs)
	zzsym.Assert(x == aligned(k, n, w) || k == 1 && near(x, aligned(k, n, w), w-n), differs)
}

// near allows an odd column or line left over to be on either side.
func near(got, want, room int) bool { return got == want || room%2 == 1 && got == want+1 }

// C49_Place: top, middle and bottom, and left, center and right, place a
// popup or an input accordingly.
func C49_Place() {
	w, h := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("columns", 7, 10))), zzsym.Concrete(zzsym.Int("h", 1, zzsym.Bound("lines", 6, 9)))
	k, v := zzsym.Choice("horizontal", 3), zzsym.Choice("vertical", 3)
	if zzsym.Choice("widget", 2) == 0 {
		pw, ph := min(w, 2), min(h, 3)
		p := popupwidget.New().WithWidth(ConstraintLen(2)).WithHeight(ConstraintLen(3))
		p = []popupwidget.Popup{p.Left(), p.Center(), p.Right()}[k]
		p = []popupwidget.Popup{p.Top(), p.Middle(), p.Bottom()}[v]
		p.Content = fillwidget.New("x")
		b := shown(w, h, p.Render)
		x, y, n := find(b, "x")
		zzsym.Assert(n == pw*ph, differs)
		if k == 1 {
			zzsym.Assert(near(x, aligned(k, pw, w), w-pw), differs)
		} else {
			zzsym.Assert(x == aligned(k, pw, w), differs)
		}
		if v == 1 {
			zzsym.Assert(near(y, aligned(v, ph, h), h-ph), differs)
		} else {
			zzsym.Assert(y == aligned(v, ph, h), differs)
		}
		return
	}
	i := inputwidget.New()
	i = []inputwidget.Input{i.Top(), i.Middle(), i.Bottom()}[v].WithPrompt("x").WithPromptStyle(NewStyle().Bold())
	s := inputwidget.NewState()
	b := shown(w, h, func(a Rect, b *Buffer) { i.RenderStateful(a, b, &s) })
	x, y, n := find(b, "x")
	zzsym.Assert(n == 1 && x == 0, differs)
	zzsym.Assert(y == aligned(v, 1, h) || v == 1 && near(y, aligned(v, 1, h), h-1), differs)
	zzsym.Assert(b.CellAt(NewPosition(x, y)).Modifier.Contains(ModifierBold), differs)
}

// C49_Borders: the kinds of borders are the characters they are called after.
func C49_Borders() {
	sets := [][]rune{[]rune("┌─┐│┘─└│"), []rune("╭─╮│╯─╰│"), []rune("┏━┓┃┛━┗┃"), []rune("╔═╗║╝═╚║")}
	k := zzsym.Choice("kind", 4)
	b := blockwidget.New().Bordered()
	if zzsym.Choice("before", 2) == 1 {
		b = b.Double()
	}
	b = []blockwidget.Block{b.Sharp(), b.Rounded(), b.Thick(), b.Double()}[k]
	w, h := zzsym.Concrete(zzsym.Int("w", 2, zzsym.Bound("columns", 4, 6))), zzsym.Concrete(zzsym.Int("h", 2, zzsym.Bound("lines", 4, 6)))
	got := shown(w, h, b.Render)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := '.'
			switch {
			case x == 0 && y == 0:
				want = sets[k][0]
			case x == w-1 && y == 0:
				want = sets[k][2]
			case x == w-1 && y == h-1:
				want = sets[k][4]
			case x == 0 && y == h-1:
				want = sets[k][6]
			case y == 0:
				want = sets[k][1]
			case y == h-1:
				want = sets[k][5]
			case x == 0:
				want = sets[k][7]
			case x == w-1:
				want = sets[k][3]
			}
			zzsym.Assert(got.CellAt(NewPosition(x, y)).Symbol == string(want), differs)
		}
	}
}

// C49_BorderSet: each setter of a border set sets the part it names.
func C49_BorderSet() {
	s := blockwidget.BorderTypeDouble.Set()
	want := s
	r := string(zzsym.Rune("r", "printable"))
	switch zzsym.Choice("part", 8) {
	case 0:
		s, want.TopLeft = s.WithTopLeft(r), r
	case 1:
		s, want.TopRight = s.WithTopRight(r), r
	case 2:
		s, want.BottomLeft = s.WithBottomLeft(r), r
	case 3:
		s, want.BottomRight = s.WithBottomRight(r), r
	case 4:
		s, want.VerticalLeft = s.WithVerticalLeft(r), r
	case 5:
		s, want.VerticalRight = s.WithVerticalRight(r), r
	case 6:
		s, want.HorizontalTop = s.WithHorizontalTop(r), r
	case 7:
		s, want.HorizontalBottom = s.WithHorizontalBottom(r), r
	}
	zzsym.Assert(s == want, differs)
}

// C49_Styles: a widget's style is under everything it shows.
func C49_Styles() {
	c := termenv.ANSIColor(zzsym.Int("bg", 0, 15))
	st := NewStyle().WithBackground(c)
	w, h := 5, 2
	var show func(Rect, *Buffer)
	switch zzsym.Choice("widget", 7) {
	case 0:
		show = gaugewidget.New().WithStyle(st).WithGaugeStyle(NewStyle()).WithLabelStr("a").Render
	case 1:
		show = listwidget.New(cards([]int{1})...).WithStyle(st).Render
	case 2:
		show = tabswidget.New(textwidget.NewLineStr("a")).WithStyle(st).Render
	case 3:
		show = paragraphwidget.NewStr("ab").WithStyle(st).Render
	case 4:
		show = textwidget.NewTextStr("ab").WithStyle(st).Render
	case 5:
		show = blockwidget.New().Bordered().WithStyle(st).Render
	case 6:
		show = fillwidget.New("x").WithStyle(st).Render
	}
	b := shown(w, h, show)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			zzsym.Assert(b.CellAt(NewPosition(x, y)).Bg == Color(c), "a widget's style is not on all of its area")
		}
	}
}

// C49_Contents: what is set again replaces what was set before, where the
// option sets one thing, and a list without a state shows its start.
func C49_Contents() {
	r, q := string(zzsym.Rune("r", "ascii")), string(zzsym.Rune("q", "ascii"))
	switch zzsym.Choice("option", 4) {
	case 0:
		a := tabswidget.New(textwidget.NewLineStr(q)).WithTitles(textwidget.NewLineStr(r), textwidget.NewLineStr("z"))
		same(shown(9, 1, a.Render), shown(9, 1, tabswidget.New(textwidget.NewLineStr(r), textwidget.NewLineStr("z")).Render), differs)
	case 1:
		a := listwidget.New(textwidget.NewTextStr(q)).WithItems(textwidget.NewTextStr(r), textwidget.NewTextStr("z"))
		same(shown(3, 3, a.Render), shown(3, 3, listwidget.New(textwidget.NewTextStr(r), textwidget.NewTextStr("z")).Render), differs)
	case 2:
		var s listwidget.State
		a := listwidget.New(textwidget.NewTextStr(q), textwidget.NewTextStr(r)).WithHighlightSymbol(">")
		same(shown(3, 3, a.Render), shown(3, 3, func(x Rect, b *Buffer) { a.RenderStateful(x, b, &s) }), differs)
	case 3:
		// wrapped text keeps the space in front of it unless it's trimmed
		a := paragraphwidget.NewStr("  " + r + "b")
		kept := shown(5, 1, a.Wrapped().Render)
		same(kept, shown(5, 1, a.WithWrap(paragraphwidget.NewWrap().WithTrim(false)).Render), differs)
		if zzsym.Choice("trim", 2) == 1 {
			kept = shown(5, 1, a.Wrapped().WithWrap(paragraphwidget.NewWrap().WithTrim(true)).Render)
			zzsym.Assert(r == " " || kept.CellAt(NewPosition(1, 0)).Symbol == "b", differs)
		} else {
			zzsym.Assert(kept.CellAt(NewPosition(3, 0)).Symbol == "b", differs)
		}
	}
}

// ---------------------------------------------------------------- C50

// C50_Clear: clearing blanks every cell of the area.
func C50_Clear() {
	p := anyPage(4, 3)
	clearwidget.New().Render(p.area, p.Buffer)
	p.painted(func(x, y int) Cell { return NewEmptyCell() })
}

// C50_Fill: filling puts the symbol into every cell of the area, or next to
// each other as often as it fits if it is wide.
func C50_Fill() {
	p := anyPage(4, 3)
	st := NewStyle().WithForeground(termenv.ANSIColor(zzsym.Int("fg", 0, 15))).WithoutModifier(ModifierItalic).Bold()
	sym, w := "", 1
	switch zzsym.Choice("symbol", 4) {
	case 0:
		sym = string(zzsym.Rune("n", "narrow"))
	case 1:
		sym, w = string(zzsym.Rune("c", "cjk")), 2
	case 2:
		sym, w = "\u2e3b", 4
	case 3:
		sym = append(nothings, "")[zzsym.Choice("nothing", len(nothings)+1)]
		zzsym.Cover("nothing")
	}
	fillwidget.New(sym).WithStyle(st).Render(p.area, p.Buffer)
	in := p.area.Intersection(p.Area())
	p.painted(func(x, y int) Cell {
		c := NewEmptyCell()
		c.SetStyle(st)
		if (x-in.X)%w == 0 && x+w <= in.Right() {
			if c.Symbol = sym; bare(sym) == "" || sym == "\t" {
				c.Symbol = " "
			}
		}
		return c
	})
}

func (p *page) painted(want func(x, y int) Cell) {
	a := p.Area()
	for y := a.Y; y < a.Bottom(); y++ {
		for x := a.X; x < a.Right(); x++ {
			c := *p.CellAt(NewPosition(x, y))
			if within(p.area, x, y) {
				zzsym.Assert(c == want(x, y), "a cell of the area is not painted")
				zzsym.Cover("inside")
			} else {
				zzsym.Assert(c == under, "a cell outside the area is painted")
				zzsym.Cover("outside")
			}
		}
	}
}
