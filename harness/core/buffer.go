package core

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// ---------------------------------------------------------------- C02

func C02_Setters() {
	hi := zzsym.Bound("side", 1<<20, 1<<40)
	lo := 0
	if zzsym.Choice("negative", 2) == 1 {
		lo = -hi // a side can also reach out
	}
	v := func(n string) int { return zzsym.Int(n, lo, hi) }
	p := Padding{Top: v("top"), Right: v("right"), Bottom: v("bottom"), Left: v("left")}
	w := p
	s := v("s")
	for i := 0; i < 2; i++ {
		switch zzsym.Choice("setter", 4) {
		case 0:
			p = p.WithTop(s)
			w.Top = s
		case 1:
			p = p.WithRight(s)
			w.Right = s
		case 2:
			p = p.WithBottom(s)
			w.Bottom = s
		case 3:
			p = p.WithLeft(s)
			w.Left = s
		}
		s = v("s")
	}
	zzsym.Assert(p == w, "a setter changed another side than the one it names")
	if lo < 0 {
		return
	}
	a := Rect{Position: NewPosition(v("x"), v("y")), Width: v("w"), Height: v("h")}
	i := a.Inner(p)
	if a.Width > w.Left+w.Right && a.Height > w.Top+w.Bottom {
		zzsym.Cover("room")
		zzsym.Assert(i.X == a.X+w.Left && i.Y == a.Y+w.Top && i.Right() == a.Right()-w.Right && i.Bottom() == a.Bottom()-w.Bottom, "Inner does not remove the set sides")
	} else {
		zzsym.Assert(i.IsEmpty(), "Inner of a rectangle smaller than the padding is not empty")
	}
}

func C02_New() {
	v := func(n string) int { return zzsym.Int(n, 0, 1<<40) }
	a, b, c, d := v("a"), v("b"), v("c"), v("d")
	zzsym.Assert(NewPadding() == (Padding{}), "no sides")
	zzsym.Assert(NewPadding(a) == (Padding{Top: a, Right: a, Bottom: a, Left: a}), "one side")
	zzsym.Assert(NewPadding(a, b) == (Padding{Top: a, Right: b, Bottom: a, Left: b}), "two sides")
	zzsym.Assert(NewPadding(a, b, c, d) == (Padding{Top: a, Right: b, Bottom: c, Left: d}), "four sides")
}

// ---------------------------------------------------------------- C03

func smallRect(side int) Rect {
	return Rect{
		Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)),
		Width:    zzsym.Int("w", 0, side), Height: zzsym.Int("h", 0, side),
	}
}

func C03_Bijection() {
	side := zzsym.Bound("side", 4, 7)
	a := smallRect(side)
	b := NewBufferEmpty(a)
	zzsym.Assert(b.Area() == a, "Area is not the area asked for")
	p := NewPosition(zzsym.Int("px", -2000, 2000), zzsym.Int("py", -2000, 2000))
	q := NewPosition(zzsym.Int("qx", -2000, 2000), zzsym.Int("qy", -2000, 2000))
	zzsym.Assume(in(p.X, p.Y, a.X, a.Y, a.Width, a.Height))
	zzsym.Assume(in(q.X, q.Y, a.X, a.Y, a.Width, a.Height))
	b.CellAt(p).SetSymbol("A")
	got := b.CellAt(q).Symbol
	zzsym.Assert((got == "A") == (p == q), "two positions share a cell, or one position has two")
	zzsym.Assert((b.CellAt(p) == b.CellAt(q)) == (p == q), "distinct positions address the same cell")
	zzsym.Cover("pair")
}

func C03_PosOf() {
	side := zzsym.Bound("side", 5, 8)
	a := smallRect(side)
	b := NewBufferEmpty(a)
	i := zzsym.Int("i", 0, side*side)
	if i >= a.Width*a.Height {
		zzsym.Assert(zzu.Panics(func() { b.PosOf(i) }), "PosOf accepts an index past the end")
		zzsym.Cover("past the end")
		return
	}
	p := b.PosOf(i)
	zzsym.Assert(in(p.X, p.Y, a.X, a.Y, a.Width, a.Height), "PosOf leaves the area")
	j := zzsym.Int("j", 0, side*side)
	zzsym.Assume(j < a.Width*a.Height)
	q := b.PosOf(j)
	zzsym.Assert((p == q) == (i == j), "PosOf maps two indices to one position")
	zzsym.Assert(p.Y < q.Y || p.Y == q.Y && p.X <= q.X || i > j, "PosOf is not in reading order")
	zzsym.Cover("pair")
}

func C03_Outside() {
	side := zzsym.Bound("side", 3, 6)
	a := smallRect(side)
	b := NewBufferEmpty(a)
	p := NewPosition(zzsym.Int("px", -2000, 2000), zzsym.Int("py", -2000, 2000))
	zzsym.Assume(!in(p.X, p.Y, a.X, a.Y, a.Width, a.Height))
	ok := !zzu.Panics(func() { b.CellAt(p).SetSymbol("A") })
	zzsym.Assert(!ok, "a position outside the area addresses a cell")
	for y := 0; y < a.Height; y++ {
		for x := 0; x < a.Width; x++ {
			zzsym.Assert(b.CellAt(NewPosition(a.X+x, a.Y+y)).Symbol == " ", "a write outside the area changed a cell")
		}
	}
	zzsym.Cover("outside")
}

func C03_Index() {
	// the cell at PosOf(i) is the i-th cell of the buffer in diff order
	side := zzsym.Bound("side", 3, 5)
	a := smallRect(side)
	b, c := NewBufferEmpty(a), NewBufferEmpty(a)
	p := NewPosition(zzsym.Int("px", -2000, 2000), zzsym.Int("py", -2000, 2000))
	zzsym.Assume(in(p.X, p.Y, a.X, a.Y, a.Width, a.Height))
	c.CellAt(p).SetSymbol("A")
	d := b.Diff(&c)
	zzsym.Assert(len(d) == 1, "one changed cell is not one update")
	zzsym.Assert(d[0].Position == p && d[0].Cell.Symbol == "A", "the update is at another position")
	zzsym.Cover("update")
}

func C03_Filled() {
	side := zzsym.Bound("side", 4, 7)
	a := smallRect(side)
	cell := NewCell("z")
	cell.SetStyle(zzu.AnyStyle("st"))
	b := NewBufferFilled(a, cell)
	p := NewPosition(zzsym.Int("px", -2000, 2000), zzsym.Int("py", -2000, 2000))
	zzsym.Assume(in(p.X, p.Y, a.X, a.Y, a.Width, a.Height))
	zzsym.Assert(*b.CellAt(p) == cell, "a filled buffer has another cell")
}

// ---------------------------------------------------------------- C04

func C04_Resize() {
	side := zzsym.Bound("side", 3, 4)
	steps := zzsym.Bound("resizes", 2, 3)
	rect := func() Rect {
		return Rect{Position: NewPosition(zzsym.Int("x", -9, 9), zzsym.Int("y", -9, 9)), Width: zzsym.Choice("w", side+1), Height: zzsym.Choice("h", side+1)}
	}
	a := rect()
	b := NewBufferEmpty(a)
	for k := 0; k < steps; k++ {
		// dirty every cell
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				c := b.CellAt(NewPosition(x, y))
				c.SetSymbol("D").SetFg(termenv.ANSIRed).SetBg(termenv.ANSIRed)
				c.Modifier = ModifierBold
				c.Skip = true
			}
		}
		old := a.Area()
		a = rect()
		b.Resize(a)
		zzsym.Assert(b.Area() == a, "Resize does not set the area")
		n := 0
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				c := b.CellAt(NewPosition(x, y))
				if n >= old {
					zzsym.Assert(zzu.Blank(c), "a cell added by growing is not blank")
					zzsym.Cover("grown")
				}
				n++
			}
		}
		zzsym.Assert(zzu.Panics(func() { b.PosOf(a.Area()) }), "the buffer has more cells than positions")
		if n > 0 {
			b.PosOf(n - 1)
		}
		e := NewBufferFilled(a, NewCell("E"))
		zzsym.Assert(len(e.Diff(&b)) <= n, "the buffer has more cells than positions")
	}
	if zzsym.Choice("reset", 2) == 1 {
		b.Reset()
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				zzsym.Assert(zzu.Blank(b.CellAt(NewPosition(x, y))), "a cell is not blank after Reset")
			}
		}
		zzsym.Cover("reset")
	}
}

// ---------------------------------------------------------------- C05

type ref struct{ cells []Cell }

// setString checks one SetStringN call against its meaning.
func setString(str string, w int) {
	area := Rect{Position: NewPosition(zzsym.Int("ax", -1000, 1000), zzsym.Int("ay", -1000, 1000)), Width: w, Height: 2}
	under := NewCell(".")
	under.SetFg(termenv.ANSIMagenta).SetBg(termenv.ANSIColor(zzsym.Int("under.bg", 0, 15)))
	under.Modifier = ModifierItalic | ModifierCrossedOut
	b := NewBufferFilled(area, under)
	off := zzsym.Choice("off", w+1)
	row := zzsym.Choice("row", 2)
	n := zzsym.Int("n", -2, 2*w+2)
	unlimited := zzsym.Choice("unlimited", 2) == 1
	style := zzu.ColorStyle("fg").WithModifier(ModifierBold).WithoutModifier(ModifierItalic)
	x, y := area.X+off, area.Y+row

	// the meaning
	want := make([]Cell, 2*w)
	for i := range want {
		want[i] = under
	}
	limit := w - off
	if !unlimited && n < limit {
		limit = n
	}
	at := 0
	g := uniseg.NewGraphemes(str)
	for g.Next() {
		sym, wd := g.Str(), g.Width()
		if wd == 0 || control(sym) {
			continue
		}
		if at+wd > limit {
			zzsym.Cover("clipped")
			break
		}
		c := &want[row*w+off+at]
		c.SetSymbol(sym).SetStyle(style)
		for k := 1; k < wd; k++ {
			want[row*w+off+at+k] = NewEmptyCell()
			zzsym.Cover("wide")
		}
		at += wd
	}

	var gx, gy int
	if unlimited {
		b.SetString(x, y, str, style)
		gx, gy = x+at, y
	} else {
		gx, gy = b.SetStringN(x, y, str, n, style)
	}
	for r := 0; r < 2; r++ {
		for c := 0; c < w; c++ {
			got := b.CellAt(NewPosition(area.X+c, area.Y+r))
			zzsym.Assert(*got == want[r*w+c], "a cell is not what the string and the limits say")
		}
	}
	zzsym.Assert(gx == x+at && gy == y, "the returned position is not just past the last cell written")
	zzsym.ObserveInt("at", gx-x)
}

func control(s string) bool {
	for _, r := range s {
		if r < 0x20 || r >= 0x7f && r < 0xa0 {
			return true
		}
	}
	return false
}

func C05_Any() {
	w := zzsym.Bound("columns", 3, 5)
	k := zzsym.Bound("runes", 3, 4)
	setString(zzsym.Str("s", zzsym.Choice("len", k+1), "any"), w)
}

func C05_Clusters() {
	// grapheme clusters of several runes, and wide or zero-width ones between letters
	parts := []string{"e\u0301", "\U0001F468\u200d\U0001F469\u200d\U0001F467", "\u2e3b", "\u4e2d", "\u200b", "\r\n", "a", "\t", "\U0001F1E9\U0001F1EA", "\u0301"}
	s := ""
	k := zzsym.Bound("clusters", 2, 3)
	for i := 0; i < k; i++ {
		s += parts[zzsym.Choice("part", len(parts))]
	}
	setString(s, 4)
}

func C05_Text() {
	// plain text, longer than the line
	w := zzsym.Bound("columns", 6, 12)
	k := zzsym.Bound("runes", 8, 14)
	setString(zzsym.Str("s", k, "text"), w)
}

// ---------------------------------------------------------------- C06

func C06_SetStyle() {
	side := zzsym.Bound("side", 3, 5)
	a := Rect{Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)), Width: zzsym.Choice("w", side+1), Height: zzsym.Choice("h", side+1)}
	base := NewCell("s")
	base.SetFg(termenv.ANSIGreen).SetBg(termenv.ANSIBlack)
	base.Modifier = ModifierItalic
	b := NewBufferFilled(a, base)
	r := Rect{Position: NewPosition(zzsym.Int("rx", -3000, 3000), zzsym.Int("ry", -3000, 3000)), Width: zzsym.Int("rw", 0, 4000), Height: zzsym.Int("rh", 0, 4000)}
	st := NewStyle().WithForeground(termenv.ANSIRed).WithModifier(ModifierBold).WithoutModifier(ModifierItalic)
	b.SetStyle(r, st)
	want := base
	want.SetStyle(st)
	for dy := 0; dy < a.Height; dy++ {
		for dx := 0; dx < a.Width; dx++ {
			x, y := a.X+dx, a.Y+dy
			got := *b.CellAt(NewPosition(x, y))
			if in(x, y, r.X, r.Y, r.Width, r.Height) {
				zzsym.Assert(got == want, "a cell inside the styled area is not patched")
				zzsym.Cover("styled")
			} else {
				zzsym.Assert(got == base, "a cell outside the styled area changed")
				zzsym.Cover("untouched")
			}
		}
	}
}
