package core

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// Buffers larger than a byte counts, in either direction.

// long is an area of many cells in a line or in a column.
func long(n int) Rect {
	w, h := n, 2
	if zzsym.Choice("tall", 2) == 1 {
		w, h = 2, n
	}
	return Rect{Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)), Width: w, Height: h}
}

// place is one of the positions of an area where something may end.
func place(a Rect) Position {
	n := max(a.Width, a.Height)
	i := []int{0, 1, n/2 - 1, n / 2, n - 9, n - 2, n - 1}[zzsym.Choice("place", 7)]
	j := zzsym.Choice("other place", 2)
	if a.Width < a.Height {
		i, j = j, i
	}
	return NewPosition(a.X+i, a.Y+j)
}

func C03_Big() {
	a := long(zzsym.Bound("many cells", 264, 520))
	b := NewBufferEmpty(a)
	p, q := place(a), place(a)
	b.CellAt(p).SetSymbol("A")
	zzsym.Assert((b.CellAt(q).Symbol == "A") == (p == q), "two positions share a cell, or one position has two")
	n := 0
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			at := NewPosition(x, y)
			zzsym.Assert(b.PosOf(n) == at, "PosOf is not in reading order")
			n++
		}
	}
	zzsym.Assert(zzu.Panics(func() { b.PosOf(n) }), "PosOf accepts an index past the end")
}

func C04_Big() {
	n := zzsym.Bound("many cells", 264, 520)
	a := long(n)
	b := NewBufferFilled(NewRect(zzsym.Choice("columns before", 3), 2), NewCell("D"))
	old := b.Area().Area()
	b.Resize(a)
	zzsym.Assert(b.Area() == a, "Resize does not set the area")
	i := 0
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			c := b.CellAt(NewPosition(x, y))
			zzsym.Assert(i < old || zzu.Blank(c), "a cell added by growing is not blank")
			c.SetSymbol("E").SetFg(termenv.ANSIRed)
			i++
		}
	}
	switch zzsym.Choice("then", 2) {
	case 0:
		b.Reset()
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				zzsym.Assert(zzu.Blank(b.CellAt(NewPosition(x, y))), "a cell is not blank after Reset")
			}
		}
	case 1:
		// shrunk and grown again, nothing comes back
		less := NewRect(1, zzsym.Choice("lines after", 3))
		b.Resize(less)
		b.Resize(a)
		i = 0
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				zzsym.Assert(i < less.Area() || zzu.Blank(b.CellAt(NewPosition(x, y))), "a cell added by growing is not blank")
				i++
			}
		}
	}
}

func C05_Big() {
	n := zzsym.Bound("many columns", 264, 520)
	str, syms, widths := "", []string{}, []int{}
	for i := 0; i < n; i++ {
		s := "a"
		switch {
		case i%37 == 30:
			s = string(zzsym.Rune("r", "narrow"))
		case i%41 == 40:
			s = "\u4e2d"
		case i%43 == 42:
			s = "e\u0301"
		}
		str += s
		syms = append(syms, s)
		widths = append(widths, uniseg.StringWidth(s))
	}
	w := []int{n / 2, n, n + 40}[zzsym.Choice("width", 3)]
	x := []int{0, 3, n / 4}[zzsym.Choice("x", 3)]
	limit := w - x
	b := NewBufferFilled(NewRect(w, 1), NewCell("."))
	gx := 0
	if k := zzsym.Choice("limit", 3); k == 0 {
		gx, _ = b.SetStringN(x, 0, str, 1<<40, NewStyle().Bold())
	} else {
		limit = min(limit, []int{0, n / 2, n}[k])
		gx, _ = b.SetStringN(x, 0, str, []int{0, n / 2, n}[k], NewStyle().Bold())
	}
	at := 0
	for i, s := range syms {
		if at+widths[i] > limit {
			break
		}
		c := b.CellAt(NewPosition(x+at, 0))
		zzsym.Assert(c.Symbol == s && c.Modifier == ModifierBold, "a cell is not what the string and the limits say")
		at += widths[i]
	}
	zzsym.Assert(gx == x+at, "the returned position is not just past the last cell written")
	for i := 0; i < w; i++ {
		if i < x || i >= x+at {
			zzsym.Assert(b.CellAt(NewPosition(i, 0)).Symbol == ".", "a cell is not what the string and the limits say")
		}
	}
}

func C06_Big() {
	a := long(zzsym.Bound("many cells", 264, 520))
	b := NewBufferEmpty(a)
	p, q := place(a), place(a)
	r := Rect{Position: NewPosition(min(p.X, q.X), min(p.Y, q.Y))}
	r.Width, r.Height = max(p.X, q.X)-r.X+1, max(p.Y, q.Y)-r.Y+1
	fg := termenv.ANSIColor(zzsym.Int("fg", 0, 15))
	b.SetStyle(r, NewStyle().WithForeground(fg).Bold())
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			c := b.CellAt(NewPosition(x, y))
			if x >= r.X && x < r.X+r.Width && y >= r.Y && y < r.Y+r.Height {
				zzsym.Assert(c.Fg == Color(fg) && c.Modifier == ModifierBold, "a cell inside the styled area is not patched")
			} else {
				zzsym.Assert(zzu.Blank(c), "a cell outside the styled area changed")
			}
		}
	}
}

// Few cells of many differ, the first and the last of them too; and all do.
func C07_Big() {
	a := long(zzsym.Bound("many cells", 264, 520))
	before, after := NewBufferEmpty(a), NewBufferEmpty(a)
	all := zzsym.Choice("all", 3)
	var line []glyph
	for i := 0; i < a.Width; i++ {
		line = append(line, glyph{i, 1, false})
	}
	lines := make([][]glyph, a.Height)
	for y := range lines {
		lines[y] = line
		for x := 0; x < a.Width; x++ {
			if all == 1 {
				after.CellAt(NewPosition(a.X+x, a.Y+y)).SetSymbol(string(rune('a' + (x+y)%26)))
			}
			if all == 2 {
				before.CellAt(NewPosition(a.X+x, a.Y+y)).SetSymbol(string(rune('a' + (x+y)%26)))
			}
		}
	}
	p, q := place(a), NewPosition(a.X, a.Y)
	if all == 0 {
		q = place(a)
	}
	after.CellAt(p).SetSymbol(string(zzsym.Rune("p", "narrow")))
	after.CellAt(q).SetFg(termenv.ANSIColor(zzsym.Int("fg", 0, 15)))
	screen, want := showing(&before, lines), showing(&after, lines)
	for _, u := range before.Diff(&after) {
		x, y := u.Position.X-a.X, u.Position.Y-a.Y
		zzsym.Assert(y >= 0 && y < a.Height && x >= 0 && x < a.Width, "an update outside the frame")
		draw(screen[y], x, u.Cell.Symbol, u.Cell.Fg, 1)
	}
	for r := range want {
		for c := range want[r] {
			zzsym.Assert(screen[r][c].sym == want[r][c].sym && screen[r][c].fg == want[r][c].fg, "after the diff the terminal does not show the second frame")
		}
	}
}

func C08_Big() {
	a := long(zzsym.Bound("many cells", 264, 520))
	before, after := NewBufferFilled(a, NewCell("x")), NewBufferFilled(a, NewCell("x"))
	p, q := place(a), place(a)
	sym := string(zzsym.Rune("p", "narrow"))
	after.CellAt(p).SetSymbol(sym)
	after.CellAt(q).Skip = true
	d := before.Diff(&after)
	if p == q || sym == "x" {
		zzsym.Assert(len(d) == 0, "an update where nothing changed")
		return
	}
	zzsym.Assert(len(d) == 1 && d[0].Position == p, "an update where nothing changed")
}
