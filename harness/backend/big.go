package backend

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

// Screens of more columns or lines than a byte counts, and long histories.

// C11_Big: many cells in a row, now and then with other attributes, and some
// left out.
func C11_Big() {
	n := zzsym.Bound("many cells", 264, 520)
	t, d := on(termenv.TrueColor)
	every := []int{1, 5, 64, n}[zzsym.Choice("every", 4)]
	out := []int{-1, 1, 63, n - 2}[zzsym.Choice("left out", 4)]
	down := zzsym.Choice("down", 2) == 1
	want := make([]PositionedCell, n)
	var cs []PositionedCell
	fg := termenv.ANSIColor(zzsym.Int("fg", 0, 15))
	for i := range want {
		c := NewCell(string(rune('a' + i%26)))
		if i/every%2 == 1 {
			c.Fg, c.Modifier = fg, ModifierBold|ModifierUnderlined
		} else if i/every%4 == 2 {
			c.Bg = termenv.ANSI256Color(200)
		}
		want[i] = PositionedCell{Cell: c, Position: NewPosition(i, 2)}
		if down {
			want[i].Position = NewPosition(3, i)
		}
		if i == out {
			want[i].Cell.Symbol = ""
			continue
		}
		cs = append(cs, want[i])
	}
	send(t, d, cs)
	zzsym.Assert(len(t.Log) == len(cs), "the screen does not show the cells at their positions")
	for i, c := range cs {
		p := t.Log[i]
		zzsym.Assert(p.X == c.Position.X && p.Y == c.Position.Y && p.W == 1 && p.Sym == c.Symbol, "the screen does not show the cells at their positions")
		zzsym.Assert(p.Attrs == zzu.Attrs{Fg: zzu.Shown(termenv.TrueColor, c.Fg), Bg: zzu.Shown(termenv.TrueColor, c.Bg), Mod: c.Modifier}, "a cell is shown with other attributes")
	}
}

// C12_Big: a few symbols on a large screen, moved from frame to frame.
func C12_Big() {
	n := zzsym.Bound("many cells", 264, 520)
	w, h := n, 2
	if zzsym.Choice("tall", 2) == 1 {
		w, h = 2, n
	}
	s := &screen{fail: -1, area: NewRect(w, h)}
	t, err := NewTerminal(s, ViewportFullscreen{})
	zzsym.Assert(err == nil, "a terminal cannot be made")
	some := func() frame {
		i := []int{0, 2, n - 1, n, n + 1, 2*n - 2}[zzsym.Choice("at", 6)]
		f := frame{items: []item{{i % w, i / w, 1, string(zzsym.Rune("sym", "ascii")), -1}}}
		if zzsym.Choice("and the last", 2) == 1 {
			f.items = append(f.items, item{(2*n - 1) % w, (2*n - 1) / w, 1, "z", -1})
		}
		return f
	}
	for i := 0; i < 2; i++ {
		f := some()
		_, err = t.Draw(f)
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
		s.shows(f, "the screen does not show the last frame")
	}
}

// C12_Often: many frames on a small screen.
func C12_Often() {
	s := &screen{fail: -1, area: NewRect(3, 1)}
	t, err := NewTerminal(s, ViewportFullscreen{})
	zzsym.Assert(err == nil, "a terminal cannot be made")
	k := zzsym.Bound("draws", 6, 8)
	for i := 0; i < k; i++ {
		var f frame
		switch zzsym.Choice("frame", 3) {
		case 0:
			f.items = []item{{0, 0, 1, "a", -1}, {1, 0, 1, "b", 3}, {2, 0, 1, "c", -1}}
		case 1:
			f.items = []item{{1, 0, 2, "\u4e2d", -1}}
		}
		_, err := t.Draw(f)
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
		s.shows(f, "the screen does not show the last frame")
	}
	// and the same frame for long
	f := frame{items: []item{{0, 0, 1, string(zzsym.Rune("last", "ascii")), -1}}}
	for i := 0; i < 300; i++ {
		if i == 280 {
			f.items = append(f.items, item{2, 0, 1, "x", -1})
		}
		_, err := t.Draw(f)
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
		if i%40 == 0 || i > 275 {
			s.shows(f, "the screen does not show the last frame")
		}
	}
}

// C13_Often: every so often a draw fails.
func C13_Often() {
	s := &screen{fail: -1, area: NewRect(2, 1)}
	t, err := NewTerminal(s, ViewportFullscreen{})
	zzsym.Assert(err == nil, "a terminal cannot be made")
	k := zzsym.Bound("failing draws", 3, 4)
	frames := []frame{{}, {items: []item{{0, 0, 1, "a", -1}, {1, 0, 1, "b", -1}}}, {items: []item{{0, 0, 2, "\u4e2d", -1}}}}
	for i := 0; i < k; i++ {
		s.failed = false
		s.fail = -1
		if fail := zzsym.Choice("fail", 4); fail > 0 {
			s.fail = s.calls + fail
		}
		s.partial = 1
		_, err := t.Draw(frames[zzsym.Choice("frame", 3)])
		zzsym.Assert(s.failed == (err != nil), "the failure of the backend is not reported")
	}
	s.fail = -1
	f := frames[zzsym.Choice("last", 3)]
	_, err = t.Draw(f)
	zzsym.Assert(err == nil, "a draw failed although the backend worked")
	s.shows(f, "after a failed draw the screen does not show the next frame")
}
