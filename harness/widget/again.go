package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C53

const again = "a widget does not show the same when it is rendered again"

// at is what r shows in an area of the given size at p.
func at(p Position, w, h int, r func(Rect, *Buffer)) *Buffer {
	a := Rect{Position: p, Width: w, Height: h}
	page := NewBufferFilled(Rect{Position: NewPosition(p.X-1, p.Y-1), Width: w + 2, Height: h + 2}, under)
	r(a, &page)
	b := NewBufferEmpty(Rect{Width: w, Height: h})
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			*b.CellAt(NewPosition(x, y)) = *page.CellAt(NewPosition(p.X+x, p.Y+y))
		}
	}
	return &b
}

// repeat renders one widget here, in another size, elsewhere, and here again.
func repeat(w, h int, r func(Rect, *Buffer)) {
	first := at(NewPosition(1, 1), w, h, r)
	at(NewPosition(1, 1), w+zzsym.Choice("wider", 2), 1+h/2, r)
	p := []Position{NewPosition(1, 1), NewPosition(9, 5), NewPosition(-4, -7), NewPosition(300, 2)}[zzsym.Choice("at", 4)]
	same(first, at(p, w, h, r), again)
	zzsym.Cover("again")
}

func words2() (textwidget.Line, textwidget.Text) {
	a, b := string(zzsym.Rune("a", "words")), string(zzsym.Rune("b", "narrow"))
	l := textwidget.NewLine(textwidget.NewSpan(a).WithStyle(NewStyle().Red()), textwidget.NewSpan("\u4e2d "+b+"c").WithStyle(NewStyle().Italic())).WithAlignment(anyAlign())
	return l, textwidget.NewText(l, textwidget.NewLineStr("d e"), l).WithStyle(NewStyle().WithBackground(termenv.ANSIBlue))
}

func C53_Text() {
	l, t := words2()
	w, h := zzsym.Choice("w", 7), zzsym.Choice("h", 4)
	switch zzsym.Choice("widget", 3) {
	case 0:
		repeat(w, h, l.Render)
	case 1:
		repeat(w, h, t.Render)
	case 2:
		repeat(w, h, l.Spans[1].Render)
	}
}

func C53_Paragraph() {
	_, t := words2()
	g := paragraphwidget.New(t).WithScroll(zzsym.Choice("down", 2), zzsym.Choice("right", 2))
	g.Alignment = anyAlign()
	switch zzsym.Choice("wrap", 3) {
	case 1:
		g = g.Wrapped()
	case 2:
		g = g.WithWrap(paragraphwidget.NewWrap().WithTrim(true))
	}
	if zzsym.Choice("block", 2) == 1 {
		g = g.WithBlock(blockwidget.New().Bordered())
	}
	repeat(1+zzsym.Choice("w", 6), 3+zzsym.Choice("h", 2), g.Render)
}

func C53_Block() {
	a := string(zzsym.Rune("a", "narrow"))
	b := blockwidget.New().WithStyle(NewStyle().Bold())
	for i := 0; i < 3; i++ {
		t := blockwidget.NewTitleStr(a + letter(i)).WithAlignment(aligns[1+zzsym.Choice("align", 3)])
		if i == 1 && zzsym.Choice("bottom", 2) == 1 {
			t = t.Bottom()
		}
		b = b.WithTitle(t)
	}
	if zzsym.Choice("bordered", 2) == 1 {
		b = b.Bordered().Rounded()
	}
	repeat(zzsym.Choice("w", 10), zzsym.Choice("h", 4), b.Render)
}

func C53_List() {
	_, t := words2()
	l := listwidget.New(textwidget.NewTextStr("x"), t, textwidget.NewTextStr("y\nz"), textwidget.NewTextStr("w")).
		WithHighlightSymbol("\u4e2d>").WithHighlightStyle(NewStyle().Bold()).
		WithScrollPadding(zzsym.Choice("padding", 2)).WithDirection(listwidget.Direction(zzsym.Choice("direction", 2)))
	if zzsym.Choice("block", 2) == 1 {
		l = l.WithBlock(blockwidget.New().Bordered())
	}
	sel, off := zzsym.Choice("sel", 5), zzsym.Choice("offset", 3)
	repeat(1+zzsym.Choice("w", 2)*5, 1+zzsym.Choice("h", 5), func(a Rect, b *Buffer) {
		var s listwidget.State
		if sel > 0 {
			s.Select(sel - 1)
		}
		s.SetOffset(off)
		l.RenderStateful(a, b, &s)
		// what is on the screen stays there when nothing happens
		was := s
		l.RenderStateful(a, b, &s)
		zzsym.Assert(s == was, "rendering a list again scrolls it")
	})
}

func C53_Input() {
	s := inputwidget.NewState()
	s.Append("ab\u4e2d" + string(zzsym.Rune("a", "narrow")))
	for i := zzsym.Choice("left", 5); i > 0; i-- {
		s.MoveCursorLeft()
	}
	in := inputwidget.New().WithPrompt(">").WithAlignment(anyAlign()).WithPlaceholder("empty")
	if zzsym.Choice("empty", 2) == 1 {
		s = inputwidget.NewState()
	}
	repeat(1+zzsym.Choice("w", 8), 1+zzsym.Choice("h", 2), func(a Rect, b *Buffer) {
		t := s
		in.RenderStateful(a, b, &t)
	})
}

func C53_Tabs() {
	l, _ := words2()
	t := tabswidget.New(l, textwidget.NewLineStr("x"), l).Select(zzsym.Choice("selected", 3)).WithHighlightStyle(NewStyle().Bold())
	if zzsym.Choice("block", 2) == 1 {
		t = t.WithBlock(blockwidget.New().Bordered())
	}
	repeat(zzsym.Choice("w", 12), 1+zzsym.Choice("h", 3), t.Render)
}

func C53_Bars() {
	w, h := zzsym.Choice("w", 7), zzsym.Choice("h", 5)
	switch zzsym.Choice("widget", 3) {
	case 0:
		g := gaugewidget.New().WithUnicode(zzsym.Choice("unicode", 2) == 1).WithGaugeStyle(NewStyle().Red()).WithPercent(zzsym.Concrete(zzsym.Int("tens", 0, 10)) * 10)
		if zzsym.Choice("label", 2) == 1 {
			g = g.WithLabelStr("\u4e2d" + string(zzsym.Rune("a", "narrow")))
		}
		repeat(w, h, g.Render)
	case 1:
		s := scrollwidget.New(orientations[zzsym.Choice("orientation", 4)])
		st := scrollwidget.NewState(9)
		st.SetPosition(zzsym.Concrete(zzsym.Int("position", 0, 8)))
		st.SetViewportContentLen(zzsym.Choice("viewport", 3))
		repeat(w, h, func(a Rect, b *Buffer) { s.RenderStateful(a, b, st) })
	case 2:
		t := throbberwidget.New().WithType(throbberwidget.Type(zzsym.Choice("type", 9)))
		s := throbberwidget.NewState()
		for i := zzsym.Choice("ticks", 4); i > 0; i-- {
			s.TryUpdate(throbberwidget.TickMsg{})
		}
		repeat(w, h, func(a Rect, b *Buffer) { t.RenderStateful(a, b, s) })
	}
}

func C53_Popup() {
	q := popupwidget.New().WithWidth(ConstraintLen(zzsym.Choice("pw", 5))).WithHeight(ConstraintPercentage(50)).WithStyle(NewStyle().Bold())
	switch zzsym.Choice("content", 3) {
	case 0:
		q.Content = fillwidget.New(string(zzsym.Rune("a", "narrow")))
	case 1:
		_, t := words2()
		q.Content = paragraphwidget.New(t).Wrapped()
	case 2:
		q.Content = clearwidget.New()
	}
	if zzsym.Choice("block", 2) == 1 {
		q = q.WithBlock(blockwidget.New().Bordered())
	}
	repeat(1+zzsym.Choice("w", 7), 1+zzsym.Choice("h", 5), q.Render)
}

// C53_Shared: what is made of the same parts does not show what else was done
// with them.
func C53_Shared() {
	l, t := words2()
	ls := []textwidget.Line{l, textwidget.NewLineStr("d e"), l}
	green, bold := NewStyle().Green(), NewStyle().WithBackground(termenv.ANSIYellow).Bold()
	block := blockwidget.New().Bordered().WithTitle(blockwidget.NewTitle(l)).WithTitle(blockwidget.NewTitleStr("x"))
	all := []func(Rect, *Buffer){
		t.WithStyle(green).Right().Render,
		textwidget.NewText(ls...).WithStyle(bold).Center().Render,
		textwidget.NewText(ls...).Render,
		l.WithStyle(green).Right().Render,
		paragraphwidget.New(t).WithStyle(bold).Center().Wrapped().Render,
		func(a Rect, b *Buffer) {
			s := listwidget.NewState()
			s.Select(1)
			listwidget.New(t, t).WithHighlightStyle(bold).WithStyle(green).RenderStateful(a, b, &s)
		},
		tabswidget.New(ls...).Select(2).WithHighlightStyle(bold).WithPaddingLeft(l).Render,
		block.WithTitlesStyle(green).WithTitlesAlignment(AlignmentRight).Render,
		block.WithBorderStyle(bold).Render,
		gaugewidget.New().WithLabel(l.Spans[1]).WithStyle(bold).Render,
	}
	w, h := 4+zzsym.Choice("w", 2)*5, 3
	n, other := zzsym.Choice("widget", len(all)), zzsym.Choice("other", len(all))
	first := at(NewPosition(1, 1), w, h, all[n])
	at(NewPosition(1, 1), w, h, all[other])
	same(first, at(NewPosition(1, 1), w, h, all[n]), "a widget shows what another one did to its parts")
	zzsym.Cover("shared")
}
