// Package widget checks the built-in widgets.
package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// page is a filled buffer and an area somewhere on, beside or around it.
type page struct {
	*Buffer
	area Rect
}

var under = func() Cell {
	c := NewCell(".")
	c.SetFg(termenv.ANSIGreen).SetBg(termenv.ANSIBlue)
	c.Modifier = ModifierItalic
	return c
}()

// anyPage is a buffer of w x h cells and any area relative to it: empty,
// inside, overlapping an edge, around it or beside it (quick: along one axis
// at a time).
func anyPage(w, h int) *page {
	b := NewBufferFilled(Rect{Position: NewPosition(2, 1), Width: w, Height: h}, under)
	r := Rect{Position: NewPosition(2, 1), Width: w, Height: h}
	if k := zzsym.Choice("axis", zzsym.Bound("axes", 2, 3)); k == 0 {
		r.X, r.Width = zzsym.Int("x", -1, 3+w), zzsym.Int("w", 0, w+4)
	} else if k == 1 {
		r.Y, r.Height = zzsym.Int("y", -1, 2+h), zzsym.Int("h", 0, h+3)
	} else {
		r = Rect{Position: NewPosition(zzsym.Int("x", -1, 3+w), zzsym.Int("y", -1, 2+h)), Width: zzsym.Int("w", 0, w+4), Height: zzsym.Int("h", 0, h+3)}
	}
	return &page{&b, r}
}

// insidePage is a buffer with a margin of one cell around the area.
func insidePage(w, h int) *page {
	b := NewBufferFilled(Rect{Position: NewPosition(1, 2), Width: w + 2, Height: h + 2}, under)
	return &page{&b, Rect{Position: NewPosition(2, 3), Width: w, Height: h}}
}

// contained states that nothing outside the area changed.
func (p *page) contained() {
	a := p.Area()
	for y := a.Y; y < a.Bottom(); y++ {
		for x := a.X; x < a.Right(); x++ {
			c := *p.CellAt(NewPosition(x, y))
			if !within(p.area, x, y) {
				zzsym.Assert(c == under, "a cell outside the area changed")
				zzsym.Cover("outside")
			} else if uniseg.StringWidth(c.Symbol) > 1 {
				zzsym.Assert(within(p.area, x+1, y) && within(a, x+1, y), "a wide symbol reaches out of the area")
				zzsym.Cover("wide")
			} else {
				zzsym.Cover("inside")
			}
		}
	}
}

func within(r Rect, x, y int) bool {
	return x >= r.X && x < r.X+r.Width && y >= r.Y && y < r.Y+r.Height
}

var aligns = []Alignment{AlignmentNone, AlignmentLeft, AlignmentCenter, AlignmentRight}

func anyAlign() Alignment { return aligns[zzsym.Choice("align", len(aligns))] }

func anyText(k int, domain string) textwidget.Text {
	t := textwidget.NewText()
	for i := zzsym.Choice("lines", 3); i > 0; i-- {
		t = t.WithLines(textwidget.NewLine(textwidget.NewSpan(zzsym.Str("r", k, domain))))
	}
	return t
}

func C18_Block() {
	p := anyPage(3, 3)
	b := blockwidget.New().WithBorderSides(blockwidget.Side(zzsym.Choice("sides", 15) + 1)).WithStyle(NewStyle().Bold())
	if zzsym.Choice("plain", 2) == 1 {
		b = blockwidget.New().WithStyle(NewStyle().Bold())
	}
	b.Render(p.area, p.Buffer)
	p.contained()
}

func C18_BlockTitles() {
	p := anyPage(3, 2)
	b := blockwidget.New().WithTitlesStyle(NewStyle().Bold())
	if zzsym.Choice("bordered", 2) == 1 {
		b = b.Bordered()
	}
	for i := 0; i < 2; i++ {
		t := blockwidget.NewTitleStr(zzsym.Str("t", zzsym.Bound("runes", 1, 2)+i, "wide")).WithAlignment(aligns[1+zzsym.Choice("align", 3)])
		if zzsym.Choice("bottom", 2) == 1 {
			t = t.Bottom()
		}
		b = b.WithTitle(t)
	}
	b.Render(p.area, p.Buffer)
	p.contained()
}

func C18_Simple() {
	p := anyPage(3, 3)
	sym := []string{"x", "\u2500", ""}[zzsym.Choice("symbol", 3)]
	switch zzsym.Choice("widget", 2) {
	case 0:
		clearwidget.New().Render(p.area, p.Buffer)
	case 1:
		fillwidget.New(sym).WithStyle(NewStyle().Bold()).Render(p.area, p.Buffer)
	}
	p.contained()
}

func C18_Text() {
	p := anyPage(3, 2)
	t := anyText(zzsym.Bound("runes", 2, 3), "mixed").WithAlignment(anyAlign()).WithStyle(NewStyle().Bold())
	t.Render(p.area, p.Buffer)
	p.contained()
}

func C18_Line() {
	p := anyPage(3, 2)
	l := textwidget.NewLine(
		textwidget.NewSpan(zzsym.Str("a", zzsym.Choice("la", zzsym.Bound("runes", 2, 3)), "any")),
		textwidget.NewSpan(zzsym.Str("b", zzsym.Choice("lb", zzsym.Bound("runes", 2, 3)), "any")),
	).WithAlignment(anyAlign()).WithStyle(NewStyle().Bold())
	if zzsym.Choice("span", 2) == 1 {
		l.Spans[1].Render(p.area, p.Buffer)
	} else {
		l.Render(p.area, p.Buffer)
	}
	p.contained()
}

func C18_Gauge() {
	p := anyPage(zzsym.Bound("columns", 2, 3), 2)
	g := gaugewidget.New().WithUnicode(zzsym.Choice("unicode", 2) == 1).WithGaugeStyle(NewStyle().Bold())
	label := zzsym.Str("l", zzsym.Bound("runes", 1, 2), "wide")
	switch zzsym.Choice("amount", 3) {
	case 0:
		g = g.WithPercent(zzsym.Int("percent", 0, 100))
	case 1:
		g = g.WithRatio(float64(zzsym.Int("n", 0, zzsym.Bound("denominator", 8, 64))) / float64(zzsym.Bound("denominator", 8, 64))).WithLabelStr(label)
	case 2:
		// just below one
		g = g.WithRatio(0.99999999999999988898).WithLabelStr(label)
	}
	g.Render(p.area, p.Buffer)
	p.contained()
}

func C18_List() {
	p := anyPage(3, 2)
	var items []textwidget.Text
	for i := zzsym.Choice("items", zzsym.Bound("items", 3, 4)); i > 0; i-- {
		items = append(items, textwidget.NewTextStr([]string{"", "a\nbcdef", "\u4e2d\u4e2d", "ab"}[zzsym.Choice("item", zzsym.Bound("texts", 3, 4))]))
	}
	l := listwidget.New(items...).WithHighlightSymbol([]string{"", ">", "\u4e2d>"}[zzsym.Choice("symbol", 3)]).
		WithHighlightStyle(NewStyle().Bold()).WithScrollPadding(zzsym.Choice("padding", zzsym.Bound("padding", 1, 2))).
		WithDirection(listwidget.Direction(zzsym.Choice("direction", 2)))
	if zzsym.Choice("block", zzsym.Bound("blocks", 1, 2)) == 1 {
		l = l.WithBlock(blockwidget.New().Bordered())
	}
	var s listwidget.State
	if zzsym.Choice("selected", 2) == 1 {
		s.Select(zzsym.Int("sel", -1, 4))
	}
	s.SetOffset(zzsym.Int("offset", -1, 4))
	l.RenderStateful(p.area, p.Buffer, &s)
	p.contained()
}

func C18_Paragraph() {
	p := anyPage(3, 2)
	t := anyText(zzsym.Bound("runes", 2, 3), "mixed")
	scroll := zzsym.Choice("scroll", 2)
	g := paragraphwidget.New(t).WithScroll(scroll, scroll).WithStyle(NewStyle().Bold())
	g.Alignment = anyAlign()
	switch zzsym.Choice("wrap", 3) {
	case 1:
		g = g.Wrapped()
	case 2:
		g = g.WithWrap(paragraphwidget.NewWrap().WithTrim(true))
	}
	if zzsym.Choice("block", zzsym.Bound("blocks", 1, 2)) == 1 {
		g = g.WithBlock(blockwidget.New().WithBorderSides(blockwidget.SideLeft))
	}
	g.Render(p.area, p.Buffer)
	p.contained()
}

// C18_Wrap wraps longer texts of letters of every width.
func C18_Wrap() {
	w := 2 + zzsym.Choice("w", zzsym.Bound("widths", 3, 5))
	p := insidePage(w, 3)
	s, _, _ := anyWords(zzsym.Bound("graphemes", 4, 5), 6)
	wr := paragraphwidget.NewWrap().WithTrim(zzsym.Choice("trim", 2) == 1)
	paragraphwidget.NewStr(s).WithWrap(wr).Render(p.area, p.Buffer)
	p.contained()
	p.wideInside()
}

// C18_Dash has text of letters of one, two and four columns in every widget.
func C18_Dash() {
	w := 1 + zzsym.Choice("w", zzsym.Bound("widths", 8, 12))
	p := insidePage(w, 2)
	s := ""
	for i := 1 + zzsym.Choice("letters", zzsym.Bound("letters", 3, 4)); i > 0; i-- {
		s += []string{"a", "\u4e2d", "\u2e3b", "\u200b"}[zzsym.Choice("letter", 4)]
	}
	a := anyAlign()
	t := textwidget.NewTextStr(s)
	switch zzsym.Choice("widget", 9) {
	case 0:
		t.WithAlignment(a).Render(p.area, p.Buffer)
	case 1:
		q := paragraphwidget.New(t).WithScroll(0, zzsym.Choice("scroll", 3))
		q.Alignment = a
		q.Render(p.area, p.Buffer)
	case 2:
		var st listwidget.State
		st.Select(0)
		listwidget.New(t.WithAlignment(a), t).WithHighlightSymbol(s).RenderStateful(p.area, p.Buffer, &st)
	case 3:
		tabswidget.New(t.Lines[0], t.Lines[0]).WithDividerStr(s).WithPaddingLeftStr(s).Render(p.area, p.Buffer)
	case 4:
		b := blockwidget.New().WithTitle(blockwidget.NewTitleStr(s).WithAlignment(a)).WithTitle(blockwidget.NewTitleStr(s).WithAlignment(a))
		if zzsym.Choice("bordered", 2) == 1 {
			b = b.Bordered()
		}
		b.Render(p.area, p.Buffer)
	case 5:
		st := inputwidget.NewState()
		st.Append(s)
		if zzsym.Choice("begin", 2) == 1 {
			st.MoveCursorBegin()
		}
		inputwidget.New().WithPrompt("\u2e3b").WithAlignment(a).RenderStateful(p.area, p.Buffer, &st)
	case 6:
		st := inputwidget.NewState()
		inputwidget.New().WithPlaceholder(s).WithAlignment(a).RenderStateful(p.area, p.Buffer, &st)
	case 7:
		gaugewidget.New().WithLabelStr(s).WithPercent(50).Render(p.area, p.Buffer)
	case 8:
		fillwidget.New("\u2e3b").Render(p.area, p.Buffer)
	}
	p.contained()
	p.wideInside()
}

func C18_Tabs() {
	p := anyPage(4, 2)
	t := tabswidget.New(textwidget.NewLineStr(zzsym.Str("a", 1, "wide")), textwidget.NewLineStr(zzsym.Str("b", 1, "wide"))).
		Select(zzsym.Choice("selected", 3)).WithStyle(NewStyle().Bold())
	if zzsym.Choice("tight", 2) == 1 {
		t = t.WithPaddingLeftStr("").WithPaddingRightStr("\u4e2d").WithDividerStr("")
	}
	if zzsym.Choice("block", 2) == 1 {
		t = t.WithBlock(blockwidget.New().Bordered())
	}
	t.Render(p.area, p.Buffer)
	p.contained()
}

var orientations = []scrollwidget.Orientation{
	scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft,
	scrollwidget.OrientationHorizontalBottom, scrollwidget.OrientationHorizontalTop,
}

func C18_Scroll() {
	p := anyPage(4, 4)
	s := scrollwidget.New(orientations[zzsym.Choice("orientation", 4)])
	st := scrollwidget.NewState(zzsym.Int("content", 0, zzsym.Bound("content", 4, 20)))
	st.SetPosition(zzsym.Int("position", -1, zzsym.Bound("position", 5, 25)))
	st.SetViewportContentLen(zzsym.Int("viewport", 0, zzsym.Bound("viewport", 3, 20)))
	s.RenderStateful(p.area, p.Buffer, st)
	p.contained()
}

func C18_Popup() {
	p := anyPage(4, 3)
	q := popupwidget.New().WithWidth(ConstraintLen(zzsym.Int("pw", 0, 6))).WithHeight(ConstraintLen(zzsym.Int("ph", 0, 5))).WithStyle(NewStyle().Bold())
	if zzsym.Choice("block", 2) == 1 {
		q = q.WithBlock(blockwidget.New().Bordered())
	}
	q.Content = fillwidget.New("x")
	if zzsym.Choice("pad", 2) == 1 {
		q = q.WithPadding(NewPadding(1))
	}
	q.Render(p.area, p.Buffer)
	p.contained()
}

func C18_Throbber() {
	p := anyPage(3, 2)
	t := throbberwidget.New().WithType(throbberwidget.Type(zzsym.Choice("type", 10)))
	s := throbberwidget.NewState()
	for i := zzsym.Choice("ticks", zzsym.Bound("frames", 4, 9)); i > 0; i-- {
		s.TryUpdate(throbberwidget.TickMsg{})
	}
	t.RenderStateful(p.area, p.Buffer, s)
	p.contained()
}

func C18_Input() {
	p := anyPage(4, 2)
	in := inputwidget.New().WithPrompt([]string{"", ">", "\u4e2d>"}[zzsym.Choice("prompt", 3)]).WithAlignment(anyAlign()).
		WithVertical(FlexCenter)
	if zzsym.Choice("block", zzsym.Bound("blocks", 1, 2)) == 1 {
		in = in.WithBlock(blockwidget.New().Bordered())
	}
	if zzsym.Choice("placeholder", 2) == 1 {
		in = in.WithPlaceholder("ab\u4e2d")
	}
	s := inputwidget.NewState()
	s.Append(zzsym.Str("s", zzsym.Choice("len", zzsym.Bound("runes", 3, 4)), "mixed"))
	for i := zzsym.Choice("left", zzsym.Bound("left", 2, 4)); i > 0; i-- {
		s.MoveCursorLeft()
	}
	in.RenderStateful(p.area, p.Buffer, &s)
	p.contained()
}

var _ = zzu.Blank

// wideInside states that no wide symbol reaches out of the area.
func (p *page) wideInside() {
	for y := p.area.Y; y < p.area.Bottom(); y++ {
		for x := p.area.X; x < p.area.Right(); x++ {
			if n := uniseg.StringWidth(p.CellAt(NewPosition(x, y)).Symbol); n > 1 {
				zzsym.Assert(x+n <= p.area.Right(), "a wide symbol reaches out of its part of the area")
				zzsym.Cover("wide")
			}
		}
	}
}
