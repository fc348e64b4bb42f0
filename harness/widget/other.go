package widget

import (
	"time"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// ---- tabs

// C32_Tabs draws titles of symbolic symbols at any width.
func C32_Tabs() {
	n := zzsym.Choice("tabs", zzsym.Bound("tabs", 4, 5))
	var titles []textwidget.Line
	var us [][]unit
	for i := 0; i < n; i++ {
		u := anyContent(zzsym.Choice("len", 3), 1)
		titleStyle := spanStyles[i%2]
		for j := range u {
			u[j].style = titleStyle
		}
		us = append(us, u)
		titles = append(titles, textwidget.NewLine(textwidget.NewSpan(concat(u)).WithStyle(titleStyle)).WithStyle(lineStyle))
	}
	base := NewStyle().WithBackground(termenv.ANSIMagenta)
	mark := NewStyle().WithForeground(termenv.ANSIWhite).Underlined()
	t := tabswidget.New(titles...).WithStyle(base).WithHighlightStyle(mark)
	left, right, div := " ", " ", "\u2502"
	switch zzsym.Choice("padding", 3) {
	case 1:
		left, right, div = "", "", ""
		t = t.WithPaddingLeftStr(left).WithPaddingRightStr(right).WithDividerStr(div)
	case 2:
		left, right, div = "[", "]>", "--"
		t = t.WithPaddingLeftStr(left).WithPaddingRight(textwidget.NewLineStr(right)).WithDivider(textwidget.NewSpan(div))
	}
	sel := zzsym.Int("selected", -1, n)
	if sel >= 0 {
		t = t.Select(sel)
	} else if zzsym.Choice("unselect", 2) == 1 {
		t = t.Select(0).Unselect()
	}
	w := zzsym.Int("w", 0, zzsym.Bound("width", 9, 16))
	b := NewBufferFilled(Rect{Width: zzsym.Bound("width", 9, 16), Height: 2}, under)
	t.Render(Rect{Width: w, Height: 1 + zzsym.Choice("rows", 2)}, &b)
	w, sel = zzsym.Concrete(w), zzsym.Concrete(sel)
	x := 0
	expect := func(s string, styles ...Style) {
		if x < w {
			want := under
			want.SetStyle(base)
			for _, st := range styles {
				want.SetStyle(st)
			}
			want.Symbol = s
			zzsym.Assert(*b.CellAt(NewPosition(x, 0)) == want, "tabs do not show their titles, padding and dividers in order with their styles")
			zzsym.Cover("cell")
		}
		x++
	}
	for i := 0; i < n; i++ {
		for _, c := range left {
			expect(string(c))
		}
		for _, u := range us[i] {
			if i == sel {
				expect(u.s, lineStyle, u.style, mark)
				zzsym.Cover("selected")
			} else {
				expect(u.s, lineStyle, u.style)
			}
		}
		for _, c := range right {
			expect(string(c))
		}
		if i < n-1 {
			for _, c := range div {
				expect(string(c))
			}
		}
	}
	for ; x < w; x++ {
		want := under
		want.SetStyle(base)
		zzsym.Assert(*b.CellAt(NewPosition(x, 0)) == want, "something is drawn behind the last tab")
		zzsym.Cover("behind")
	}
}

// C32_Wide has wide titles, which are shown whole or not at all.
func C32_Wide() {
	c, d := zzsym.Rune("c", "cjk"), zzsym.Rune("d", "cjk")
	sel := zzsym.Int("selected", 0, 1)
	mark := NewStyle().Underlined()
	t := tabswidget.New(textwidget.NewLineStr(string(c)), textwidget.NewLineStr(string(d))).Select(sel).WithHighlightStyle(mark)
	w := zzsym.Int("w", 0, 10)
	b := NewBufferFilled(Rect{Width: 10, Height: 1}, under)
	t.Render(Rect{Width: w, Height: 1}, &b)
	w, sel = zzsym.Concrete(w), zzsym.Concrete(sel)
	for i, s := range []string{string(c), string(d)} {
		x := 1 + 5*i
		if x+2 > w {
			continue
		}
		cell := b.CellAt(NewPosition(x, 0))
		zzsym.Assert(cell.Symbol == s, "tabs do not show a wide title")
		zzsym.Assert((cell.Modifier&ModifierUnderlined != 0) == (i == sel), "the highlight is not on exactly the selected title")
		zzsym.Cover("wide")
	}
	for x := 0; x < 10; x++ {
		if b.CellAt(NewPosition(x, 0)).Modifier&ModifierUnderlined != 0 {
			zzsym.Assert(x >= 1+5*sel && x < 3+5*sel, "the highlight is not on exactly the selected title")
		}
	}
}

// ---- popup

// span is where one axis of a popup is expected: its length and the space
// before it.
func span(avail, want int, f Flex) (length, lo, hi int) {
	length = min(avail, want)
	room := avail - length
	switch f {
	case FlexStart:
		return length, 0, 0
	case FlexEnd:
		return length, room, room
	}
	return length, room / 2, (room + 1) / 2
}

func anyPopup() (popupwidget.Popup, Flex, Flex) {
	p := popupwidget.New()
	h, v := FlexCenter, FlexCenter
	switch zzsym.Choice("place", zzsym.Bound("places", 5, 9)) {
	case 1:
		p, h, v = p.Left().Top(), FlexStart, FlexStart
	case 2:
		p, h, v = p.Right().Bottom(), FlexEnd, FlexEnd
	case 3:
		p, h = p.Right(), FlexEnd
	case 4:
		p, v = p.Bottom(), FlexEnd
	case 5:
		p, h, v = p.Left().Bottom(), FlexStart, FlexEnd
	case 6:
		p, h, v = p.Right().Top(), FlexEnd, FlexStart
	case 7:
		p = p.Left().Top().Center().Middle()
	case 8:
		p, v = p.Top().Center(), FlexStart
	}
	return p, h, v
}

// C33_Place finds a popup of fixed size on the screen.
func C33_Place() {
	w, h := zzsym.Bound("width", 5, 7), zzsym.Bound("height", 4, 5)
	p, hor, ver := anyPopup()
	pw, ph := zzsym.Int("pw", 0, w+2), zzsym.Int("ph", 0, h+1)
	// one axis at a time
	switch zzsym.Choice("axis", zzsym.Bound("axes", 2, 3)) {
	case 0:
		zzsym.Assume(ph == 2)
	case 1:
		zzsym.Assume(pw == 3)
	}
	pad := 0
	if zzsym.Choice("padded", 2) == 1 {
		pad = 1
		p = p.WithPadding(NewPadding(1))
	}
	popup(w, h, p.WithWidth(ConstraintLen(pw)).WithHeight(ConstraintLen(ph)), pad, func(cw, ch int) bool { return cw == min(pw, w-2*pad) && ch == min(ph, h-2*pad) }, hor, ver)
}

// popup renders and reads back the extent of a popup.
func popup(w, h int, p popupwidget.Popup, pad int, size func(w, h int) bool, hor, ver Flex) {
	p = p.WithStyle(NewStyle().WithBackground(termenv.ANSIMagenta))
	content := zzsym.Choice("content", 2) == 1
	if content {
		p.Content = fillwidget.New("x").WithStyle(NewStyle().WithBackground(termenv.ANSIMagenta))
	}
	bordered := zzsym.Choice("bordered", 2) == 1
	if bordered {
		p = p.WithBlock(blockwidget.New().Bordered())
	}
	b := NewBufferFilled(Rect{Position: NewPosition(1, 1), Width: w + 2, Height: h + 2}, under)
	area := Rect{Position: NewPosition(2, 2), Width: w, Height: h}
	p.Render(area, &b)
	x0, y0, x1, y1 := 99, 99, -1, -1
	for y := 1; y < h+3; y++ {
		for x := 1; x < w+3; x++ {
			if *b.CellAt(NewPosition(x, y)) != under {
				x0, y0, x1, y1 = min(x0, x), min(y0, y), max(x1, x+1), max(y1, y+1)
			}
		}
	}
	if x1 < 0 {
		zzsym.Assert(size(0, h-2*pad) || size(w-2*pad, 0) || size(0, 0) || emptyPopup(size, w, h), "a popup is not shown")
		zzsym.Cover("empty")
		return
	}
	zzsym.Assert(size(x1-x0, y1-y0), "a popup does not have the requested size")
	place := func(from, length, avail int, f Flex) {
		room := avail - length
		lo, hi := 0, 0
		switch f {
		case FlexCenter:
			lo, hi = room/2, (room+1)/2
		case FlexEnd:
			lo, hi = room, room
		}
		zzsym.Assert(from >= lo && from <= hi, "a popup is not placed as asked")
	}
	place(x0-2-pad, x1-x0, w-2*pad, hor)
	place(y0-2-pad, y1-y0, h-2*pad, ver)
	inner := p.Inner(area)
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			c := b.CellAt(NewPosition(x, y))
			zzsym.Assert(c.Bg == termenv.ANSIMagenta && c.Fg != under.Fg && c.Modifier == 0, "a popup does not clear what is beneath")
			edge := x == x0 || x == x1-1 || y == y0 || y == y1-1
			in := !bordered || !edge
			zzsym.Assert(within(inner, x, y) == in, "the inner area of a popup is not what its block leaves")
			zzsym.Assert((c.Symbol == "x") == (in && content), "a popup does not show its content inside its block")
			zzsym.Assert(c.Symbol == " " || !in || content, "a popup does not clear what is beneath")
			zzsym.Cover("cell")
		}
	}
}

func emptyPopup(size func(w, h int) bool, w, h int) bool {
	for x := 0; x <= w; x++ {
		if size(x, 0) {
			return true
		}
	}
	for y := 0; y <= h; y++ {
		if size(0, y) {
			return true
		}
	}
	return false
}

// C33_Share asks for a percentage or ratio of the area.
func C33_Share() {
	w, h := zzsym.Bound("width", 6, 9), 3
	p, hor, ver := anyPopup()
	percent := zzsym.Int("percent", 0, 100)
	lo := percent * w / 100
	popup(w, h, p.WithWidth(ConstraintPercentage(percent)).WithHeight(ConstraintLen(2)), 0, func(cw, ch int) bool { return (cw == lo || cw == lo+1) && (ch == 2 || cw == 0) }, hor, ver)
}

// ---- throbber

// C34_Ticks delivers tick messages of two throbbers in any order.
func C34_Ticks() {
	type pending struct {
		msg   Msg
		owner int
		count int
		start bool
	}
	var s [2]throbberwidget.State
	var ticks [2]int
	var box []pending
	for i := range s {
		s[i] = throbberwidget.NewState()
		s[i].WithFPS(time.Nanosecond)
	}
	zzsym.Assert(s[0].ID() != s[1].ID(), "two throbbers have the same id")
	for i := range s {
		m := s[i].Tick()
		zzsym.Assert(m.(throbberwidget.TickMsg).ID() == s[i].ID(), "a tick message does not name its throbber")
		box = append(box, pending{m, i, 0, true})
	}
	other := zzsym.Int("other", 0, 9)
	for n := zzsym.Bound("deliveries", 4, 5); n > 0; n-- {
		to := zzsym.Choice("to", 2)
		k := zzsym.Choice("message", len(box)+2)
		if k == len(box)+1 {
			// started again, or copied as models are
			s[to] = func(t throbberwidget.State) throbberwidget.State { return t }(s[to])
			m := s[to].Tick()
			zzsym.Assert(m.(throbberwidget.TickMsg).ID() == s[to].ID(), "a tick message does not name its throbber")
			box = append(box, pending{m, to, ticks[to], ticks[to] == 0})
			continue
		}
		if k == len(box) {
			cmd, ok := s[to].TryUpdate(KeyMsg(Key{Type: KeyType(other)}))
			zzsym.Assert(cmd == nil && !ok, "a throbber handles another message")
			continue
		}
		p := box[k]
		cmd, ok := s[to].TryUpdate(p.msg)
		want := p.owner == to && (p.start || p.count == ticks[to])
		zzsym.Assert(ok == want && (cmd != nil) == want, "a throbber takes a tick that is not its latest, or refuses the one that is")
		if want {
			ticks[to]++
			m := cmd()
			zzsym.Assert(m.(throbberwidget.TickMsg).ID() == s[to].ID(), "a tick message does not name its throbber")
			box = append(box, pending{m, to, ticks[to], false})
			zzsym.Cover("taken")
		} else {
			zzsym.Cover("ignored")
		}
	}
	for i := range s {
		same(frameOf(s[i], throbberwidget.TypeLine), frameAt(ticks[i], throbberwidget.TypeLine), "a throbber does not advance by one frame per tick")
	}
}

func frameOf(s throbberwidget.State, t throbberwidget.Type) *Buffer {
	return shown(3, 1, func(a Rect, b *Buffer) { throbberwidget.New().WithType(t).RenderStateful(a, b, s) })
}

// frameAt is the frame after n ticks, from the set.
func frameAt(n int, t throbberwidget.Type) *Buffer {
	set := t.Set()
	f := set[n%len(set)]
	return shown(3, 1, func(a Rect, b *Buffer) {
		l := textwidget.NewLineStr(f.String())
		at := (3 - l.Width()) / 2
		l.Render(Rect{Position: NewPosition(a.X+at, a.Y), Width: 3 - at, Height: 1}, b)
	})
}

// C34_Many: no two of many throbbers ever mistake each other's ticks.
func C34_Many() {
	n := zzsym.Bound("throbbers", 300, 1200)
	s := make([]throbberwidget.State, n)
	for i := range s {
		s[i] = throbberwidget.NewState()
	}
	k := zzsym.Concrete(zzsym.Int("one", 0, n-1))
	m := s[k].Tick()
	for i := range s {
		zzsym.Assert(i == k || s[i].ID() != s[k].ID(), "two throbbers have the same id")
		_, ok := s[i].TryUpdate(m)
		zzsym.Assert(ok == (i == k), "a throbber takes a tick that is not its latest, or refuses the one that is")
	}
}

// C34_Apart: nor do throbbers that are made at the same time.
func C34_Apart() {
	a, done := throbberwidget.NewState(), make(chan throbberwidget.State)
	go func() { done <- throbberwidget.NewState() }()
	b := throbberwidget.NewState()
	c := <-done
	for i, s := range []*throbberwidget.State{&a, &b, &c} {
		for j, t := range []*throbberwidget.State{&a, &b, &c} {
			if i != j {
				_, ok := s.TryUpdate(t.Tick())
				zzsym.Assert(!ok, "a throbber takes the tick of another")
			}
		}
	}
}

// C34_Time: a throbber's ticks are as far apart as it says.
func C34_Time() {
	s := throbberwidget.NewState()
	d := time.Duration(zzsym.Choice("ms", 4)) * time.Millisecond
	s.WithFPS(d)
	m := s.Tick()
	for i := 0; i < 3; i++ {
		start := time.Now()
		cmd, ok := s.TryUpdate(m)
		zzsym.Assert(ok, "a throbber refuses its latest tick")
		m = cmd()
		zzsym.Assert(time.Since(start) >= d, "a throbber ticks before its time")
		if zzsym.Symbolic() {
			zzsym.Assert(time.Since(start) == d, "a throbber ticks after its time")
		}
	}
}

// C34_Wrap goes around every set.
func C34_Wrap() {
	t := throbberwidget.Type(zzsym.Choice("type", 9))
	n := zzsym.Concrete(zzsym.Int("ticks", 0, zzsym.Bound("ticks", 9, 20)))
	s := throbberwidget.NewState()
	for i := 0; i < n; i++ {
		_, ok := s.TryUpdate(throbberwidget.TickMsg{})
		zzsym.Assert(ok, "a throbber refuses a tick")
	}
	set := t.Set()
	f := set[n%len(set)]
	w, h := f.Dimensions()
	zzsym.Assert(w <= 3 && h == 1, "a frame is not one row")
	if w > 0 && (3-w)%2 == 0 {
		same(frameOf(s, t), frameAt(n, t), "a throbber does not wrap around its frames")
	}
	zzsym.Cover("wrapped")
}
