package backend

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

func on(profile termenv.Profile) (*zzu.Term, *DefaultBackend) {
	t := &zzu.Term{}
	d := NewDefaultBackend(t, t)
	zzsym.SetField(&d, profile)
	return t, &d
}

func send(t *zzu.Term, d *DefaultBackend, cells []PositionedCell) {
	zzsym.Assert(d.Draw(cells) == nil, "Draw failed although every write worked")
	zzsym.Assert(d.Flush() == nil, "Flush failed although every write worked")
	t.Process()
	zzsym.Assert(t.Attrs == zzu.Attrs{}, "attributes are left on after drawing")
}

// ---------------------------------------------------------------- C10

// modifiers of two cells drawn one after the other, of which k modifiers are
// free and the others are the same in both
func modifiers(k int) {
	same := Modifier(0)
	if zzsym.Choice("others", 2) == 1 {
		same = ModifierAll
	}
	from, to := same, same
	bit := 0
	for i := 0; i < k; i++ {
		// increasing choices
		bit += zzsym.Choice("which", 9-k+i-bit+1)
		m := Modifier(1) << bit
		from, to = from&^m, to&^m
		if zzsym.Bool("from") {
			from |= m
		}
		if zzsym.Bool("to") {
			to |= m
		}
		bit++
	}
	pair(from, to)
}

func pair(from, to Modifier) {
	t, d := on(termenv.TrueColor)
	a, b := NewCell("a"), NewCell("b")
	a.Modifier, b.Modifier = from, to
	cs := []PositionedCell{{Cell: a, Position: NewPosition(0, 0)}, {Cell: b, Position: NewPosition(1, 0)}}
	send(t, d, cs)
	pa, _ := t.At(0, 0)
	pb, _ := t.At(1, 0)
	zzsym.Assert(pa.Sym == "a" && pb.Sym == "b", "the cells are not where they belong")
	zzsym.Assert(pa.Attrs.Mod == from, "the first cell is not shown with its modifiers")
	zzsym.Assert(pb.Attrs.Mod == to, "the second cell is not shown with its modifiers")
}

func C10_Pairs() { modifiers(zzsym.Bound("modifiers that differ", 3, 5)) }

func C10_Removed() {
	// everything on, then any set; and any set, then everything
	m := Modifier(0)
	for i := 0; i < 9; i++ {
		if zzsym.Bool("m") {
			m |= 1 << i
		}
	}
	if zzsym.Choice("dir", 2) == 0 {
		pair(ModifierAll, m)
	} else {
		pair(m, ModifierAll&^m)
	}
}

// ---------------------------------------------------------------- C11

var symbols = []string{"", "a", "\u4e2d", "\u2e3b", "e\u0301"}

func anyColor(name string) Color {
	switch zzsym.Choice(name, 6) {
	case 0:
		return ResetColor{}
	case 1:
		return termenv.ANSIColor(zzsym.Int(name+".16", 0, 15))
	case 2:
		return termenv.ANSI256Color(zzsym.Int(name+".256", 16, 255))
	case 3:
		return termenv.RGBColor("#1a2b3c")
	case 4:
		return termenv.NoColor{}
	default:
		return termenv.RGBColor("#zz")
	}
}

func expect(t *zzu.Term, profile termenv.Profile, cells []PositionedCell) {
	want := &zzu.Term{}
	for _, c := range cells {
		w := 1
		switch c.Cell.Symbol {
		case "":
			continue
		case "\u4e2d":
			w = 2
		case "\u2e3b":
			w = 4
		}
		want.Log = append(want.Log, zzu.Print{X: c.Position.X, Y: c.Position.Y, W: w, Sym: c.Cell.Symbol, Attrs: zzu.Attrs{
			Fg: zzu.Shown(profile, c.Cell.Fg), Bg: zzu.Shown(profile, c.Cell.Bg), Mod: c.Cell.Modifier}})
	}
	look := func(x, y int) {
		g, gok := t.At(x, y)
		w, wok := want.At(x, y)
		zzsym.Assert(gok == wok && g.X == w.X && g.W == w.W && g.Sym == w.Sym, "the screen does not show the cells at their positions")
		zzsym.Assert(g.Attrs.Fg == w.Attrs.Fg && g.Attrs.Bg == w.Attrs.Bg, "a cell is shown in other colours")
		zzsym.Assert(g.Attrs.Mod == w.Attrs.Mod, "a cell is shown with other modifiers")
	}
	for _, l := range [][]zzu.Print{want.Log, t.Log} {
		for _, p := range l {
			for k := 0; k < p.W; k++ {
				look(p.X+k, p.Y)
			}
		}
	}
}

func C11_Positions() {
	// any positions
	n := zzsym.Bound("cells", 2, 3)
	t, d := on(termenv.TrueColor)
	var cs []PositionedCell
	for i := 0; i < n; i++ {
		c := NewCell(string(rune('a' + i)))
		c.Modifier = Modifier(i)
		cs = append(cs, PositionedCell{Cell: c, Position: NewPosition(zzsym.Int("x", 0, zzsym.Bound("coordinate", 200, 5000)), zzsym.Int("y", 0, 3))})
	}
	send(t, d, cs)
	expect(t, termenv.TrueColor, cs)
}

// C11_Modifiers: three cells in a row, of which the middle one has other
// modifiers.
func C11_Modifiers() {
	t, d := on(termenv.TrueColor)
	var from, to Modifier
	k := zzsym.Choice("first", 9)
	l := (k + 1 + zzsym.Choice("second", 8)) % 9
	for _, b := range []int{k, l} {
		if zzsym.Bool("from") {
			from |= 1 << b
		}
		if zzsym.Bool("to") {
			to |= 1 << b
		}
	}
	var cs []PositionedCell
	for i, m := range []Modifier{from, to, from} {
		c := NewCell(string(rune('a' + i)))
		c.Modifier = m
		cs = append(cs, PositionedCell{Cell: c, Position: NewPosition(5+i, 4)})
	}
	send(t, d, cs)
	expect(t, termenv.TrueColor, cs)
}

func C11_Symbols() {
	// runs of cells that touch or overlap, narrow, wide and empty
	n := zzsym.Bound("cells", 3, 4)
	t, d := on(termenv.TrueColor)
	var cs []PositionedCell
	x := zzsym.Int("x", 10, 80)
	for i := 0; i < n; i++ {
		c := NewCell(symbols[zzsym.Choice("sym", len(symbols))])
		if i == 1 {
			c.Modifier = ModifierBold
			c.Fg = termenv.ANSIColor(zzsym.Int("fg", 0, 7))
		}
		cs = append(cs, PositionedCell{Cell: c, Position: NewPosition(x, 7)})
		x += zzsym.Choice("step", 3)
	}
	send(t, d, cs)
	expect(t, termenv.TrueColor, cs)
	zzsym.Cover("drawn")
}

func C11_Colors() {
	profile := termenv.Profile(zzsym.Choice("profile", 4))
	t, d := on(profile)
	var cs []PositionedCell
	n := zzsym.Bound("coloured cells", 2, 2)
	mods := []Modifier{0, ModifierBold | ModifierReversed}
	for i := 0; i < n; i++ {
		c := NewCell("c")
		c.Modifier = ModifierBold
		if i == n-1 {
			c.Fg, c.Bg = anyColor("fg"), anyColor("bg")
			c.Modifier = mods[zzsym.Choice("mod", 2)]
		} else if zzsym.Choice("first", 2) == 1 {
			c.Fg, c.Bg = termenv.ANSIRed, termenv.ANSIColor(zzsym.Int("bg.16", 0, 7))
		}
		cs = append(cs, PositionedCell{Cell: c, Position: NewPosition(i, 0)})
	}
	send(t, d, cs)
	expect(t, profile, cs)
}

func C11_Twice() {
	// one draw does not depend on the one before it
	t, d := on(termenv.TrueColor)
	a, b := NewCell("a"), NewCell("b")
	a.Fg, a.Modifier = anyColor("fg"), ModifierBold
	b.Bg = anyColor("bg")
	x := zzsym.Choice("x", 3)
	cs := []PositionedCell{{Cell: a, Position: NewPosition(1, 0)}, {Cell: b, Position: NewPosition(x, 0)}}
	send(t, d, cs[:1])
	zzsym.Assert(d.SetCursorPosition(NewPosition(9, 9)) == nil, "SetCursorPosition failed")
	t.Process()
	zzsym.Assert(t.X == 9 && t.Y == 9, "SetCursorPosition moves elsewhere")
	send(t, d, cs[1:])
	expect(t, termenv.TrueColor, cs)
}

func C11_Modes() {
	t, d := on(termenv.TrueColor)
	zzsym.Assert(d.HideCursor() == nil && d.EnableAlternateScreen() == nil && d.EnableBracketedPaste() == nil, "a mode cannot be set")
	t.Process()
	zzsym.Assert(t.Hidden && t.Alt && t.Paste, "a mode is not on after it was set")
	switch zzsym.Choice("off", 3) {
	case 0:
		zzsym.Assert(d.ShowCursor() == nil, "a mode cannot be reset")
		t.Process()
		zzsym.Assert(!t.Hidden && t.Alt && t.Paste, "showing the cursor changes something else")
	case 1:
		zzsym.Assert(d.LeaveAlternateScreen() == nil, "a mode cannot be reset")
		t.Process()
		zzsym.Assert(t.Hidden && !t.Alt && t.Paste, "leaving the alternate screen changes something else")
	case 2:
		zzsym.Assert(d.DisableBracketedPaste() == nil, "a mode cannot be reset")
		t.Process()
		zzsym.Assert(t.Hidden && t.Alt && !t.Paste, "disabling bracketed paste changes something else")
	}
	t.Log = append(t.Log, zzu.Print{X: 0, Y: 0, W: 1, Sym: "x"})
	zzsym.Assert(d.ClearAll() == nil, "the screen cannot be cleared")
	t.Process()
	zzsym.Assert(len(t.Log) == 0, "the screen is not cleared")
}
