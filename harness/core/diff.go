package core

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// A frame of one or more lines; every wide symbol is followed by blank cells
// and none reaches past the end of its line.
type glyph struct {
	col, w int
	blank  bool // left as it is in an empty buffer
}

func anyFrame(name string, area Rect, maxw int, lines [][]glyph) Buffer {
	b := NewBufferEmpty(area)
	for row := 0; row < area.Height; row++ {
		for _, g := range lines[row] {
			if g.blank {
				continue
			}
			var sym string
			switch g.w {
			case 1:
				sym = string(zzsym.Rune(name, "narrow"))
			case 2:
				sym = string(zzsym.Rune(name, "cjk"))
			case 3:
				sym = "\u2e3a"
			case 4:
				sym = "\u2e3b"
			}
			b.CellAt(NewPosition(area.X+g.col, area.Y+row)).SetSymbol(sym).SetFg(termenv.ANSIColor(zzsym.Int(name+".fg", 0, 15)))
		}
	}
	return b
}

// layouts of one line: how its columns are shared out among symbols
func anyLine(name string, w, maxw int) []glyph {
	var gs []glyph
	for c := 0; c < w; {
		n := min(maxw, w-c)
		k := zzsym.Choice(name, n+1)
		blank := k == 0
		if blank {
			k = 1
		}
		gs = append(gs, glyph{c, k, blank})
		c += k
	}
	return gs
}

type col struct {
	sym  string
	fg   Color
	head int // column of the symbol that covers this one
	w    int
}

func showing(b *Buffer, lines [][]glyph) [][]col {
	a := b.Area()
	out := make([][]col, a.Height)
	for r := range out {
		out[r] = make([]col, a.Width)
		for _, g := range lines[r] {
			c := b.CellAt(NewPosition(a.X+g.col, a.Y+r))
			for k := 0; k < g.w; k++ {
				out[r][g.col+k] = col{c.Symbol, c.Fg, g.col, g.w}
			}
		}
	}
	return out
}

// draw puts a symbol on the terminal; what is left of a symbol it overlaps is
// up to the terminal.
func draw(line []col, x int, sym string, fg Color, w int) bool {
	if x < 0 || x+w > len(line) {
		return false
	}
	for k := x; k < x+w; k++ {
		if o := line[k]; o.w > 1 {
			for j := o.head; j < o.head+o.w; j++ {
				line[j] = col{"undefined", ResetColor{}, j, 1}
			}
		}
	}
	for k := x; k < x+w; k++ {
		line[k] = col{sym, fg, x, w}
	}
	return true
}

func diffCorrect(w, h, maxw int) {
	area := Rect{Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)), Width: w, Height: h}
	var l1, l2 [][]glyph
	for i := 0; i < h; i++ {
		l1 = append(l1, anyLine("l1", w, maxw))
		l2 = append(l2, anyLine("l2", w, maxw))
	}
	a, b := anyFrame("a", area, maxw, l1), anyFrame("b", area, maxw, l2)
	screen, want := showing(&a, l1), showing(&b, l2)
	for _, u := range a.Diff(&b) {
		x, y := u.Position.X-area.X, u.Position.Y-area.Y
		zzsym.Assert(y >= 0 && y < h && x >= 0 && x < w, "an update outside the frame")
		zzsym.Assert(draw(screen[y], x, u.Cell.Symbol, u.Cell.Fg, uniseg.StringWidth(u.Cell.Symbol)), "an update reaches past the end of its line")
		zzsym.Cover("update")
	}
	for r := range want {
		for c := range want[r] {
			zzsym.Assert(screen[r][c].sym == want[r][c].sym && screen[r][c].head == want[r][c].head && screen[r][c].fg == want[r][c].fg, "after the diff the terminal does not show the second frame")
		}
	}
}

func C07_Narrow() { diffCorrect(zzsym.Bound("columns", 2, 3), 2, 1) }
func C07_Wide()   { diffCorrect(zzsym.Bound("wide columns", 4, 6), 1, 2) }
func C07_Wider()  { diffCorrect(zzsym.Bound("wider columns", 4, 5), 1, 4) }
func C07_Lines()  { diffCorrect(2, 2, 2) }

// anyColor is a colour of any kind; some of them are the same colour in
// another way to say it.
func anyColor(name string) Color {
	switch zzsym.Choice(name, 5) {
	case 0:
		return ResetColor{}
	case 1:
		return termenv.ANSIColor(zzsym.Int(name+".16", 0, 15))
	case 2:
		return termenv.ANSI256Color(zzsym.Int(name+".256", 0, 255))
	case 3:
		return termenv.NoColor{}
	}
	return termenv.RGBColor([]string{"#808000", "#000000", "#1a2b3c"}[zzsym.Choice(name+".rgb", 3)])
}

func C07_Cells() {
	// colours and modifiers alone also make a difference
	area := NewRect(2, 1)
	a, b := NewBufferEmpty(area), NewBufferEmpty(area)
	pa, pb := a.CellAt(NewPosition(0, 0)), b.CellAt(NewPosition(0, 0))
	pa.Modifier, pb.Modifier = Modifier(zzsym.Int("ma", 0, 511)), Modifier(zzsym.Int("mb", 0, 511))
	pa.Bg, pb.Bg = anyColor("ba"), anyColor("bb")
	if zzsym.Choice("which", 2) == 1 {
		pa.Fg, pa.Bg = pa.Bg, pa.Fg
		pb.Fg, pb.Bg = pb.Bg, pb.Fg
	}
	d := a.Diff(&b)
	shows := func(c *Cell) [2]zzu.Paint {
		return [2]zzu.Paint{zzu.Shown(termenv.TrueColor, c.Fg), zzu.Shown(termenv.TrueColor, c.Bg)}
	}
	if pa.Modifier != pb.Modifier || shows(pa) != shows(pb) {
		zzsym.Assert(len(d) > 0, "a change of colour or modifier is not drawn")
	} else if *pa == *pb {
		zzsym.Assert(len(d) == 0, "what did not change is drawn")
	}
	if len(d) > 0 {
		zzsym.Assert(d[0].Cell == *pb, "the update is not the new cell")
	}
}

// ---------------------------------------------------------------- C08

func C08_Self() {
	w := zzsym.Bound("columns", 5, 7)
	area := NewRect(w, 1).Positioned(zzsym.Int("x", -9, 9), zzsym.Int("y", -9, 9))
	l := [][]glyph{anyLine("l", w, 4)}
	a := anyFrame("a", area, 4, l)
	zzsym.Assert(len(a.Diff(&a)) == 0, "a frame differs from itself")
	zzsym.Cover("self")
}

func minimal(w, h, maxw int) {
	area := Rect{Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)), Width: w, Height: h}
	var l1, l2 [][]glyph
	for i := 0; i < h; i++ {
		l1 = append(l1, anyLine("l1", w, maxw))
		l2 = append(l2, anyLine("l2", w, maxw))
	}
	a, b := anyFrame("a", area, maxw, l1), anyFrame("b", area, maxw, l2)
	skip := zzsym.Choice("skip", w*h+1)
	if skip < w*h {
		b.CellAt(NewPosition(area.X+skip%w, area.Y+skip/w)).Skip = true
	}
	last := -1
	for _, u := range a.Diff(&b) {
		x, y := u.Position.X-area.X, u.Position.Y-area.Y
		i := y*w + x
		zzsym.Assert(i > last, "an update is repeated or out of order")
		last = i
		zzsym.Assert(i != skip, "a skipped cell is drawn")
		// changed, or touched by a wide symbol of either frame on its line
		touched := *a.CellAt(u.Position) != *b.CellAt(u.Position)
		for _, g := range l1[y] {
			if g.w > 1 && g.col <= x && x < g.col+g.w {
				touched = true
				zzsym.Cover("touched")
			}
		}
		for _, g := range l2[y] {
			if g.w > 1 && g.col <= x && x < g.col+g.w {
				touched = true
			}
		}
		zzsym.Assert(touched, "an update where nothing changed")
		zzsym.Cover("update")
	}
}

func C08_Narrow() { minimal(zzsym.Bound("columns", 2, 3), 2, 1) }
func C08_Wide()   { minimal(zzsym.Bound("wide columns", 4, 5), 1, 3) }
func C08_Lines()  { minimal(2, 2, 2) }
