package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
)

const huge = 1<<62 - 1 + 1<<62

func satAdd(a, b int) int {
	if b > 0 && a > huge-b {
		return huge
	}
	return a + b
}

// selection is what the list documents, for a list of n items.
type selection struct {
	has bool
	at  int
}

func (m *selection) apply(s *listwidget.State, k, amount int) {
	key := func(k Key) {
		_, ok := s.TryUpdate(KeyMsg(k))
		zzsym.Assert(ok, "a list key is not handled")
	}
	runes := func(r rune) { key(Key{Type: KeyRunes, Runes: []rune{r}}) }
	at := m.at
	if !m.has {
		at = 0
	}
	switch k {
	case 0, 1, 2:
		switch k {
		case 0:
			s.SelectNext()
		case 1:
			runes('j')
		case 2:
			key(Key{Type: KeyDown})
		}
		if m.has {
			at = satAdd(at, 1)
		}
	case 3, 4, 5:
		switch k {
		case 3:
			s.SelectPrevious()
		case 4:
			runes('k')
		case 5:
			key(Key{Type: KeyUp})
		}
		if m.has {
			at = max(0, at-1)
		} else {
			at = huge
		}
	case 6, 7:
		if k == 6 {
			s.SelectFirst()
		} else {
			runes('g')
		}
		at = 0
	case 8, 9:
		if k == 8 {
			s.SelectLast()
		} else {
			runes('G')
		}
		at = huge
	case 10:
		s.ScrollDownBy(amount)
		at = satAdd(at, amount)
	case 11:
		s.ScrollUpBy(amount)
		at = max(0, at-amount)
	case 12:
		key(Key{Type: KeyCtrlD})
		at = satAdd(at, 8)
	case 13:
		key(Key{Type: KeyCtrlU})
		at = max(0, at-8)
	case 14:
		s.Select(amount)
		at = max(0, amount)
	case 15:
		s.Unselect()
		m.has = false
		return
	}
	m.at, m.has = at, true
}

func rows(n int) listwidget.List {
	var items []textwidget.Text
	for i := 0; i < n; i++ {
		items = append(items, textwidget.NewTextStr(string(rune('A'+i))))
	}
	return listwidget.New(items...).WithHighlightSymbol(">").WithHighlightStyle(NewStyle().Bold())
}

// agrees compares the state of a list of n items with the model, after a
// render.
func (m *selection) agrees(s *listwidget.State, b *Buffer, n int) {
	got, ok := s.Selected(n - 1)
	zzsym.Assert(ok == m.has, "an item is selected without a command, or none after one")
	if m.has {
		m.at = min(m.at, n-1)
		zzsym.Assert(got == m.at, "a selection command did not select its item")
		zzsym.Cover("selected")
	} else {
		zzsym.Cover("none")
	}
	marks := 0
	for y := 0; y < b.Area().Height; y++ {
		if b.CellAt(NewPosition(0, y)).Symbol == ">" {
			marks++
			zzsym.Assert(m.has && b.CellAt(NewPosition(1, y)).Symbol == string(rune('A'+m.at)), "the marked item is not the selected one")
		}
	}
	zzsym.Assert(marks == 0 || m.has, "an item is marked although none is selected")
	zzsym.Assert(marks == 1 || !m.has, "the selected item is not marked")
}

// C23_Step applies one command to any selection.
func C23_Step() {
	n := 1 + zzsym.Choice("items", zzsym.Bound("items", 4, 8))
	h := 1 + zzsym.Choice("height", 3)
	amount := zzsym.Int("amount", 0, zzsym.Bound("amount", 6, 1<<40))
	l := rows(n)
	var s listwidget.State
	var m selection
	if zzsym.Choice("selected", 2) == 1 {
		m.has, m.at = true, zzsym.Int("at", 0, n-1)
		s.Select(m.at)
	}
	draw := func() *Buffer {
		return shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
	}
	m.agrees(&s, draw(), n)
	m.apply(&s, zzsym.Choice("command", 16), amount)
	m.agrees(&s, draw(), n)
	zzsym.Cover("step")
}

// C23_Burst applies several commands between renders.
func C23_Burst() {
	n := 1 + zzsym.Choice("items", zzsym.Bound("items", 3, 5))
	l := rows(n)
	var s listwidget.State
	var m selection
	for i := zzsym.Bound("commands", 3, 4); i > 0; i-- {
		k := []int{0, 3, 6, 8, 10, 11, 14, 15}[zzsym.Choice("command", 8)]
		amount := 0
		if k == 10 || k == 11 || k == 14 {
			amount = zzsym.Int("amount", -1, zzsym.Bound("amount", 4, 8))
			zzsym.Assume(amount >= 0 || k == 14)
		}
		m.apply(&s, k, amount)
	}
	m.agrees(&s, shown(3, 2, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) }), n)
}

// C23_Huge selects with amounts up to the largest number.
func C23_Huge() {
	var s listwidget.State
	var m selection
	if zzsym.Choice("selected", 2) == 1 {
		m.has, m.at = true, zzsym.Int("at", 0, huge)
		s.Select(m.at)
	}
	k := zzsym.Choice("command", 16)
	m.apply(&s, k, zzsym.Int("amount", 0, huge))
	limit := zzsym.Int("limit", 0, huge)
	got, ok := s.Selected(limit)
	zzsym.Assert(ok == m.has, "an item is selected without a command, or none after one")
	zzsym.Assert(!ok || got == min(m.at, limit), "a selection command did not saturate")
	zzsym.Cover("huge")
}

// C23_Shrink changes the items under a selection.
func C23_Shrink() {
	n := 1 + zzsym.Choice("items", 5)
	k := 1 + zzsym.Choice("left", 5)
	h := 1 + zzsym.Choice("height", 3)
	var s listwidget.State
	m := selection{true, zzsym.Int("at", 0, n-1)}
	s.Select(m.at)
	s.SetOffset(zzsym.Int("offset", 0, 5))
	shown(3, h, func(a Rect, b *Buffer) { rows(n).RenderStateful(a, b, &s) })
	b := shown(3, h, func(a Rect, b *Buffer) { rows(k).RenderStateful(a, b, &s) })
	m.agrees(&s, b, k)
	zzsym.Cover("shrunk")
}

// C23_Tall selects among items that do not all fit, or that do not fit at all.
func C23_Tall() {
	n := 1 + zzsym.Choice("items", zzsym.Bound("items", 3, 4))
	var heights []int
	for i := 0; i < n; i++ {
		heights = append(heights, 1+zzsym.Choice("height of the item", 3))
	}
	h := zzsym.Choice("height", 4)
	l := listwidget.New(cards(heights)...).WithHighlightSymbol(">").WithScrollPadding(zzsym.Choice("scroll padding", 2))
	if zzsym.Choice("bottom", 2) == 1 {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	var s listwidget.State
	m := selection{true, zzsym.Int("at", 0, n-1)}
	s.Select(m.at)
	s.SetOffset(zzsym.Int("offset", 0, n))
	for i := 0; i < 2; i++ {
		shown(4, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
		got, ok := s.Selected(n - 1)
		zzsym.Assert(ok && got == min(m.at, n-1), "rendering the list changes the selection")
		if i == 0 {
			m.apply(&s, []int{0, 3, 6, 8, 10, 11}[zzsym.Choice("command", 6)], zzsym.Int("amount", 0, 3))
		}
	}
	zzsym.Cover("tall")
}

// cards is a list of items of the given heights: line j of item i reads
// 'A'+i, '0'+j.
func cards(heights []int) []textwidget.Text {
	var items []textwidget.Text
	for i, h := range heights {
		t := textwidget.NewText()
		for j := 0; j < h; j++ {
			t = t.WithLinesStr(string([]rune{rune('A' + i), rune('0' + j)}))
		}
		items = append(items, t)
	}
	return items
}

func C24_Uniform() {
	n := 1 + zzsym.Choice("items", zzsym.Bound("items", 5, 9))
	hs := make([]int, n)
	for i := range hs {
		hs[i] = 1
	}
	visible(hs, 1+zzsym.Choice("height", zzsym.Bound("height", 4, 6)), zzsym.Bound("padding", 2, 3), true)
}

func C24_Mixed() {
	n := 1 + zzsym.Choice("items", zzsym.Bound("items", 3, 5))
	hs := make([]int, n)
	for i := range hs {
		hs[i] = zzsym.Choice("lines", zzsym.Bound("lines", 3, 4))
	}
	visible(hs, 1+zzsym.Choice("height", zzsym.Bound("height", 3, 5)), zzsym.Bound("padding", 1, 2), false)
}

// visible renders a list of items of the given heights into h rows and reads
// the items back from the screen.
func visible(hs []int, h, maxPad int, uniform bool) {
	n := len(hs)
	pad := zzsym.Int("padding", 0, maxPad)
	up := zzsym.Choice("up", 2) == 1
	l := listwidget.New(cards(hs)...).WithScrollPadding(pad).WithHighlightStyle(NewStyle().Bold())
	if up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	var s listwidget.State
	sel := -1
	offset := zzsym.Int("offset", 0, n-1)
	s.SetOffset(offset)
	if zzsym.Choice("selected", 4) > 0 {
		sel = zzsym.Int("sel", 0, n-1)
		s.Select(sel)
	} else {
		zzsym.Assume(hs[offset] <= h)
	}
	sel = zzsym.Concrete(sel)
	if sel >= 0 {
		zzsym.Assume(hs[sel] <= h)
	}
	b := shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
	first, last := readCards(b, hs, h, up, sel)
	if sel >= 0 && hs[sel] > 0 {
		zzsym.Assert(first <= sel && sel <= last, "the selected item is not shown")
		zzsym.Cover("selected")
	}
	if sel < 0 && hs[offset] > 0 {
		zzsym.Assert(first == offset, "the list does not start at its offset")
		zzsym.Cover("offset")
	}
	if uniform && sel >= 0 && h >= 2*pad+1 {
		zzsym.Assert(first <= max(0, sel-pad) && last >= min(n-1, sel+pad), "the padding around the selected item is not shown")
		zzsym.Cover("padded")
	}
	if uniform {
		zzsym.Assert(last-first+1 == min(n, h) || last == n-1 || sel < 0, "rows are left empty although items follow")
	}
	// a second render of the same list
	b2 := shown(3, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
	f2, l2 := readCards(b2, hs, h, up, sel)
	if sel >= 0 && hs[sel] > 0 {
		zzsym.Assert(f2 <= sel && sel <= l2, "the selected item is not shown on the second render")
	}
	if uniform {
		zzsym.Assert(f2 == first && l2 == last, "a list moves although nothing changed")
	}
}

// readCards reads the items on the screen: whole, in order, without gaps, and
// only the selected one highlighted.
func readCards(b *Buffer, hs []int, h int, up bool, sel int) (first, last int) {
	first, last = -1, -2
	line := 0
	y := 0
	// items from the start of the list down (or up)
	top := func(k, lines int) int {
		if up {
			return h - k - lines
		}
		return k
	}
	for y < h {
		if line == 0 {
			// which item is here
			r := top(y, 1)
			c := b.CellAt(NewPosition(0, r)).Symbol
			if c == "." {
				break
			}
			i := int(c[0] - 'A')
			if first < 0 {
				first = i
			} else {
				j := last + 1
				for j < i && hs[j] == 0 {
					j++
				}
				zzsym.Assert(i == j, "items are out of order or missing")
			}
			last = i
		}
		zzsym.Assert(y+hs[last] <= h, "an item is cut")
		for j := 0; j < hs[last]; j++ {
			r := top(y, hs[last]) + j
			zzsym.Assert(b.CellAt(NewPosition(0, r)).Symbol == string(rune('A'+last)) && b.CellAt(NewPosition(1, r)).Symbol == string(rune('0'+j)), "an item is not shown whole")
			for x := 0; x < 3; x++ {
				bold := b.CellAt(NewPosition(x, r)).Modifier&ModifierBold != 0
				zzsym.Assert(bold == (last == sel), "the highlight is not on exactly the selected item")
			}
		}
		y += hs[last]
	}
	for ; y < h; y++ {
		r := top(y, 1)
		for x := 0; x < 3; x++ {
			zzsym.Assert(*b.CellAt(NewPosition(x, r)) == under, "a row below the last item changed")
		}
		zzsym.Cover("blank")
	}
	return first, last
}

// C24_Symbol checks the highlight symbol and the space kept for it.
func C24_Symbol() {
	n := 1 + zzsym.Choice("items", 3)
	hs := make([]int, n)
	for i := range hs {
		hs[i] = 1 + zzsym.Choice("lines", 2)
	}
	h := 4
	sym := []string{">", "=>", "\u4e2d"}[zzsym.Choice("symbol", 3)]
	width := []int{1, 2, 2}
	_ = width
	w := 1
	if sym != ">" {
		w = 2
	}
	sp := listwidget.HighlightSpacing(zzsym.Choice("spacing", 3))
	rep := zzsym.Choice("repeat", 2) == 1
	l := listwidget.New(cards(hs)...).WithHighlightSymbol(sym).WithHighlightSpacing(sp).WithRepeatHighlightSymbol(rep)
	var s listwidget.State
	sel := zzsym.Int("sel", -1, n-1)
	if sel >= 0 {
		s.Select(sel)
	}
	sel = zzsym.Concrete(sel)
	b := shown(5, h, func(a Rect, b *Buffer) { l.RenderStateful(a, b, &s) })
	indent := w
	if sp == listwidget.HighlightSpacingNever || sp == listwidget.HighlightSpacingWhenSelected && sel < 0 {
		indent = 0
	}
	seen := false
	for y := 0; y < h; y++ {
		c := b.CellAt(NewPosition(indent, y)).Symbol
		if c == "." {
			break
		}
		i, j := int(c[0]-'A'), b.CellAt(NewPosition(indent+1, y)).Symbol
		zzsym.Assert(i >= 0 && i < n, "an item does not start behind the space for the symbol")
		if indent == 0 {
			continue
		}
		marked := i == sel && (j == "0" || rep)
		got := ""
		for x := 0; x < indent; x++ {
			if x == 0 || sym == "=>" || !marked {
				got += b.CellAt(NewPosition(x, y)).Symbol
			}
		}
		if marked {
			seen = true
			zzsym.Assert(got == sym, "the selected item has no highlight symbol")
			zzsym.Cover("marked")
		} else {
			zzsym.Assert(got == "  "[:w], "a highlight symbol beside another item")
			zzsym.Cover("unmarked")
		}
	}
	zzsym.Assert(seen || sel < 0 || indent == 0, "no item is marked")
}
