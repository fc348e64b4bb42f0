package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C52

// listing is what a list is made of.
type listing struct {
	hs, ws []int // lines and columns of each item
	up     bool
	spot   listwidget.HighlightSpacing
	repeat bool
	sym    []unit
	sel    int
	base   Style
	mark   Style
}

func (m *listing) item(i int) textwidget.Text {
	t := textwidget.NewText()
	for j := 0; j < m.hs[i]; j++ {
		s := ""
		for k := 0; k < m.ws[i]; k++ {
			s += string([]rune{rune('A' + i), rune('0' + j), rune('a' + k%26)}[min(k, 2)])
		}
		t = t.WithLines(textwidget.NewLineStr(s))
	}
	return t.WithStyle(m.style(i))
}

func (m *listing) style(i int) Style {
	if i%2 == 1 {
		return NewStyle().WithBackground(termenv.ANSIYellow).WithoutModifier(ModifierBold)
	}
	return NewStyle()
}

func (m *listing) list() listwidget.List {
	var items []textwidget.Text
	for i := range m.hs {
		items = append(items, m.item(i))
	}
	sym := ""
	for _, u := range m.sym {
		sym += u.s
	}
	l := listwidget.New(items...).WithStyle(m.base).WithHighlightStyle(m.mark).WithHighlightSymbol(sym).WithRepeatHighlightSymbol(m.repeat).WithHighlightSpacing(m.spot)
	if m.up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	return l
}

// picture is what the list shows in w columns and h lines of the items from
// off to end.
func (m *listing) picture(w, h, off, end int) *Buffer {
	b := NewBufferFilled(Rect{Width: w, Height: h}, under)
	b.SetStyle(b.Area(), m.base)
	indent := 0
	if m.spot == listwidget.HighlightSpacingAlways || m.spot == listwidget.HighlightSpacingWhenSelected && m.sel >= 0 {
		indent = total(m.sym)
	}
	y := 0
	for i := off; i < end && y+m.hs[i] <= h; i++ {
		top := y
		if m.up {
			top = h - y - m.hs[i]
		}
		for j := 0; j < m.hs[i]; j++ {
			put := func(x, w0 int, s string, st Style) {
				if x+w0 > w {
					return
				}
				c := b.CellAt(NewPosition(x, top+j))
				c.SetStyle(st)
				c.Symbol = s
				for k := 1; k < w0; k++ {
					c := b.CellAt(NewPosition(x+k, top+j))
					*c = NewEmptyCell()
				}
			}
			st := m.base.Patched(m.style(i))
			for x := 0; x < w; x++ {
				b.CellAt(NewPosition(x, top+j)).SetStyle(st)
			}
			x := 0
			if indent > 0 {
				room := true
				for _, u := range m.sym {
					if i == m.sel && (j == 0 || m.repeat) {
						if room = room && x+u.w <= w; room {
							put(x, u.w, u.s, st)
						}
						x += u.w
						continue
					}
					for k := 0; k < u.w; k++ {
						put(x, 1, " ", st)
						x++
					}
				}
			}
			for k := 0; k < m.ws[i]; k++ {
				put(indent+k, 1, string([]rune{rune('A' + i), rune('0' + j), rune('a' + k%26)}[min(k, 2)]), st)
			}
			if i == m.sel {
				for x := 0; x < w; x++ {
					b.CellAt(NewPosition(x, top+j)).SetStyle(m.mark)
				}
			}
		}
		y += m.hs[i]
	}
	return &b
}

// rendered states that the list is shown from one of its items on. When it
// has moved to show the selected item, the last lines may be left blank until
// it is rendered again.
func (m *listing) rendered(w, h int, what string) {
	s := m.state()
	m.shows(shown(w, h, func(a Rect, b *Buffer) { m.list().RenderStateful(a, b, &s) }), w, h, 0, what)
	m.shows(shown(w, h, func(a Rect, b *Buffer) { m.list().RenderStateful(a, b, &s) }), w, h, len(m.hs), what)
}

func (m *listing) shows(b *Buffer, w, h, end int, what string) {
	some := false
	for off, n := 0, len(m.hs); off < n; off++ {
		all := m.equal(b, w, h, m.picture(w, h, off, n))
		for e := max(end, off+1); !all && e < n; e++ {
			all = m.equal(b, w, h, m.picture(w, h, off, e))
		}
		some = some || all
	}
	zzsym.Assert(some, what)
}

func (m *listing) equal(b *Buffer, w, h int, p *Buffer) bool {
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if *b.CellAt(NewPosition(x, y)) != *p.CellAt(NewPosition(x, y)) {
				return false
			}
		}
	}
	return true
}

// anyListing chooses everything about a list.
func anyListing(items, lines int) *listing {
	m := &listing{sel: -1}
	for i := 1 + zzsym.Choice("items", items); i > 0; i-- {
		m.hs = append(m.hs, 1+zzsym.Choice("lines", lines))
		m.ws = append(m.ws, 2)
	}
	m.base = NewStyle().WithForeground(termenv.ANSIColor(zzsym.Int("fg", 0, 15)))
	m.mark = NewStyle().Italic().WithBackground(termenv.ANSIColor(zzsym.Int("bg", 0, 15)))
	m.up = zzsym.Choice("up", 2) == 1
	m.sel = zzsym.Concrete(zzsym.Int("sel", -1, len(m.hs)-1))
	return m
}

func (m *listing) state() listwidget.State {
	s := listwidget.NewState()
	if m.sel >= 0 {
		s.Select(m.sel)
	}
	s.SetOffset(zzsym.Int("offset", 0, len(m.hs)-1))
	return s
}

// C52_Items: a list shows, from its offset on, as many items as fit, each with
// its style, the selected one highlighted over its whole width.
func C52_Items() {
	m := anyListing(zzsym.Bound("items", 3, 4), zzsym.Bound("lines", 2, 3))
	for i := range m.ws {
		m.ws[i] = 1 + zzsym.Choice("columns", zzsym.Bound("columns", 2, 3))
	}
	h := 1 + zzsym.Choice("height", zzsym.Bound("height", 4, 6))
	for i := range m.hs {
		zzsym.Assume(m.hs[i] <= h)
	}
	w := 1 + zzsym.Choice("width", 3)
	m.rendered(w, h, "a list does not show its items")
	zzsym.Cover("items")
}

// C52_Symbol: the highlight symbol is in front of the selected item, and the
// space for it in front of the others.
func C52_Symbol() {
	m := anyListing(2, 2)
	for n := zzsym.Choice("symbol", zzsym.Bound("graphemes of the symbol", 2, 3)); n >= 0; n-- {
		m.sym = append(m.sym, anyUnit(2))
	}
	m.spot = listwidget.HighlightSpacing(zzsym.Choice("spacing", 3))
	m.repeat = zzsym.Choice("repeat", 2) == 1
	h := 4
	w := 1 + zzsym.Choice("width", 5)
	m.rendered(w, h, "a list does not show the symbol in front of the selected item")
	zzsym.Cover("symbol")
}

// C52_Empty: a list without items shows its block and style, and stays where it
// is.
func C52_Empty() {
	st := NewStyle().WithBackground(termenv.ANSIColor(zzsym.Int("bg", 0, 15)))
	bl := blockwidget.New().Bordered()
	var s listwidget.State
	if zzsym.Choice("selected", 2) == 1 {
		s.Select(zzsym.Int("sel", 0, 3))
	}
	b := shown(4, 3, func(a Rect, b *Buffer) { listwidget.New().WithStyle(st).WithBlock(bl).RenderStateful(a, b, &s) })
	want := NewBufferFilled(Rect{Width: 4, Height: 3}, under)
	want.SetStyle(want.Area(), st)
	bl.Render(want.Area(), &want)
	same(b, &want, "an empty list shows something")
}
