package core

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

func anyCell() Cell {
	c := NewCell("x")
	c.Fg = termenv.ANSIColor(zzsym.Int("cfg", 0, 15))
	c.Bg = termenv.ANSIColor(zzsym.Int("cbg", 0, 15))
	c.Modifier = zzu.AnyModifier("cmod")
	return c
}

func C09_Patch() {
	a, b := zzu.AnyStyle("a"), zzu.AnyStyle("b")
	c := anyCell()
	one, two := c, c
	one.SetStyle(a).SetStyle(b)
	p := a.Patched(b)
	two.SetStyle(p)
	zzsym.Assert(one == two, "styling by a then b differs from styling by a patched with b")
	zzsym.Assert(p.Patched(b) == p, "patching is not idempotent")
	zzsym.Assert(a.Patched(NewStyle()) == a, "patching with the empty style changes a style")
	d := c
	d.SetStyle(NewStyle())
	zzsym.Assert(d == c, "the empty style changes a cell")
	e := c
	e.SetStyle(NewStyle().Patched(a))
	f := c
	f.SetStyle(a)
	zzsym.Assert(e == f, "patching the empty style differs from the style")
	// set attributes win, the rest is kept
	if b.Foreground.IsSet() {
		zzsym.Assert(p.Foreground.Color() == b.Foreground.Color(), "the patch's foreground does not win")
		zzsym.Cover("fg wins")
	} else {
		zzsym.Assert(p.Foreground == a.Foreground, "the foreground is not kept")
	}
	if b.Background.IsSet() {
		zzsym.Assert(p.Background.Color() == b.Background.Color(), "the patch's background does not win")
	} else {
		zzsym.Assert(p.Background == a.Background, "the background is not kept")
		zzsym.Cover("bg kept")
	}
	zzsym.Assert(f.Symbol == "x" && !f.Skip, "styling changes the symbol")
}

func C09_Modifiers() {
	// the last word on each modifier wins
	c := anyCell()
	s := NewStyle()
	want := c.Modifier
	for i := 0; i < 3; i++ {
		m := zzu.AnyModifier("m")
		if zzsym.Choice("remove", 2) == 0 {
			s = s.WithModifier(m)
			want |= m
		} else {
			s = s.WithoutModifier(m)
			want &^= m
		}
	}
	c.SetStyle(s)
	zzsym.Assert(c.Modifier == want, "adding and removing modifiers does not compose")
	zzsym.Assert(c.Modifier.Contains(want), "Contains")
}

func C09_Shorthands() {
	base := zzu.AnyStyle("s")
	type fg struct {
		f    func(Style) Style
		want termenv.ANSIColor
	}
	i := zzsym.Choice("which", 16)
	fgs := []fg{{Style.Black, 0}, {Style.Red, 1}, {Style.Green, 2}, {Style.Yellow, 3}, {Style.Blue, 4}, {Style.Magenta, 5}, {Style.Cyan, 6}, {Style.White, 7},
		{Style.BrightBlack, 8}, {Style.BrightRed, 9}, {Style.BrightGreen, 10}, {Style.BrightYellow, 11}, {Style.BrightBlue, 12}, {Style.BrightMagenta, 13}, {Style.BrightCyan, 14}, {Style.BrightWhite, 15}}
	bgs := []fg{{Style.OnBlack, 0}, {Style.OnRed, 1}, {Style.OnGreen, 2}, {Style.OnYellow, 3}, {Style.OnBlue, 4}, {Style.OnMagenta, 5}, {Style.OnCyan, 6}, {Style.OnWhite, 7},
		{Style.OnBrightBlack, 8}, {Style.OnBrightRed, 9}, {Style.OnBrightGreen, 10}, {Style.OnBrightYellow, 11}, {Style.OnBrightBlue, 12}, {Style.OnBrightMagenta, 13}, {Style.OnBrightCyan, 14}, {Style.OnBrightWhite, 15}}
	zzsym.Assert(fgs[i].f(base) == base.WithForeground(fgs[i].want), "a foreground shorthand sets something else")
	zzsym.Assert(bgs[i].f(base) == base.WithBackground(bgs[i].want), "a background shorthand sets something else")
	if i < 6 {
		ms := []func(Style) Style{Style.Bold, Style.Dim, Style.Italic, Style.Underlined, Style.Reversed, Style.CrossedOut}
		w := []Modifier{ModifierBold, ModifierDim, ModifierItalic, ModifierUnderlined, ModifierReversed, ModifierCrossedOut}
		zzsym.Assert(ms[i](base) == base.WithModifier(w[i]), "a modifier shorthand sets something else")
	}
}

func C09_Set() {
	a := zzu.AnyStyle("a")
	k := termenv.ANSIColor(zzsym.Int("k", 0, 15))
	f, b := a.WithForeground(k), a.WithBackground(k)
	zzsym.Assert(f.Foreground.IsSet() && f.Foreground.Color() == Color(k) && f.Background == a.Background, "WithForeground")
	zzsym.Assert(b.Background.IsSet() && b.Background.Color() == Color(k) && b.Foreground == a.Foreground, "WithBackground")
	c, d := anyCell(), anyCell()
	d = c
	c.SetStyle(f)
	d.SetStyle(a)
	zzsym.Assert(c.Fg == Color(k) && c.Bg == d.Bg && c.Modifier == d.Modifier, "setting the foreground changes something else")
}

func C09_RGB() {
	r, g, b := zzsym.Byte("r"), zzsym.Byte("g"), zzsym.Byte("b")
	hex := "0123456789abcdef"
	h := func(x byte) string { return string([]byte{hexd(hex, x>>4), hexd(hex, x&15)}) }
	want := termenv.RGBColor("#" + h(r) + h(g) + h(b))
	f, k := NewStyle().RGB(r, g, b), NewStyle().OnRGB(r, g, b)
	zzsym.Assert(f.Foreground.Color() == Color(want) && !f.Background.IsSet(), "RGB does not set the foreground it names")
	zzsym.Assert(k.Background.Color() == Color(want) && !k.Foreground.IsSet(), "OnRGB does not set the background it names")
}

func hexd(_ string, n byte) byte {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

// C09_Cell: the setters of a cell change what they are called after.
func C09_Cell() {
	c := anyCell()
	c.Skip = zzsym.Bool("skip")
	k := Color(termenv.ANSIColor(zzsym.Int("k", 0, 15)))
	r := string(zzsym.Rune("r", "any"))
	want := c
	switch zzsym.Choice("setter", 5) {
	case 0:
		c.SetFg(k)
		want.Fg = k
	case 1:
		c.SetBg(k)
		want.Bg = k
	case 2:
		c.SetSymbol(r)
		want.Symbol = r
	case 3:
		c.AppendSymbol(r)
		want.Symbol += r
	case 4:
		c.Reset()
		want = NewEmptyCell()
	}
	zzsym.Assert(c == want, "a cell's setter changes something else than it is called after")
}
