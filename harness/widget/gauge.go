package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/textwidget"
)

var eighths = []string{" ", "\u258f", "\u258e", "\u258d", "\u258c", "\u258b", "\u258a", "\u2589", "\u2588"}

// level is how many eighths of a cell a row of a gauge shows as filled.
func level(b *Buffer, y, w int) int {
	n, ended := 0, false
	for x := 0; x < w; x++ {
		c := b.CellAt(NewPosition(x, y)).Symbol
		k := -1
		for i, e := range eighths {
			if c == e {
				k = i
			}
		}
		if c == "." {
			k = 0
		}
		zzsym.Assert(k >= 0, "a gauge cell shows no part of a bar")
		zzsym.Assert(k == 0 || !ended, "a gauge has a hole")
		if k < 8 {
			ended = true
		}
		n += k
	}
	return n
}

// C22_Percent compares the filled length with the percentage.
func C22_Percent() {
	w := zzsym.Bound("width", 7, 16)
	unicode := zzsym.Choice("unicode", 2) == 1
	p := zzsym.Int("percent", 0, 100)
	b := shown(w, 3, gaugewidget.New().WithUnicode(unicode).WithPercent(p).Render)
	gaugeLevel(level(b, 0, w), level(b, 2, w), w, p, 100, unicode)
}

func gaugeLevel(n, m, w, num, den int, unicode bool) {
	zzsym.Assert(n == m, "the rows of a gauge differ")
	slack := 4
	if unicode {
		slack = 1
	}
	// n eighths are shown where 8*w*num/den are due
	d := n*den - 8*w*num
	if unicode {
		zzsym.Assert(2*d <= slack*den && 2*d >= -slack*den, "a gauge is not filled in proportion")
	} else {
		zzsym.Assert(d <= slack*den && d >= -slack*den && n%8 == 0, "a gauge is not filled in proportion")
	}
	if num == 0 {
		zzsym.Assert(n == 0, "a gauge at 0 is not empty")
		zzsym.Cover("empty")
	} else if num == den {
		zzsym.Assert(n == 8*w, "a gauge at 1 is not full")
		zzsym.Cover("full")
	} else {
		zzsym.Cover("part")
	}
}

// C22_Ratio does so for ratios n/2^k.
func C22_Ratio() {
	w := zzsym.Bound("width", 5, 12)
	unicode := zzsym.Choice("unicode", 2) == 1
	den := zzsym.Bound("denominator", 256, 1<<20)
	n := zzsym.Int("n", 0, den)
	b := shown(w, 2, gaugewidget.New().WithUnicode(unicode).WithRatio(float64(n)/float64(den)).Render)
	l := level(b, 0, w)
	gaugeLevel(l, l, w, n, den, unicode)
}

// C22_Monotone compares two gauges.
func C22_Monotone() {
	w := zzsym.Bound("width", 3, 6)
	unicode := zzsym.Choice("unicode", 2) == 1
	den := 64
	n := zzsym.Int("n", 0, den)
	m := zzsym.Int("m", 0, den)
	zzsym.Assume(n < m)
	g := gaugewidget.New().WithUnicode(unicode)
	f := func(n int) int {
		return level(shown(w, 2, g.WithRatio(float64(n)/float64(den)).Render), 0, w)
	}
	zzsym.Assert(f(n) <= f(m), "a larger ratio fills less")
	zzsym.Cover("pair")
}

// C22_Range passes ratios outside 0 and 1.
func C22_Range() {
	den := 1024
	n := zzsym.Int("n", -4*den, 4*den)
	r := float64(n) / float64(den)
	panicked := zzu.Panics(func() { gaugewidget.New().WithRatio(r) })
	zzsym.Assert(panicked == (n < 0 || n > den), "a ratio outside 0 and 1 is accepted, or one inside refused")
	p := zzsym.Int("percent", -300, 300)
	panicked = zzu.Panics(func() { gaugewidget.New().WithPercent(p) })
	zzsym.Assert(panicked == (p < 0 || p > 100), "a percentage outside 0 and 100 is accepted, or one inside refused")
	zzsym.Cover("range")
}

// C22_Label looks for the label in the middle row.
func C22_Label() {
	w := zzsym.Bound("width", 6, 9)
	h := 1 + zzsym.Choice("height", 4)
	g := gaugewidget.New().WithUnicode(zzsym.Choice("unicode", 2) == 1).WithGaugeStyle(NewStyle().Bold())
	var label []string
	p := zzsym.Int("percent", 0, 100)
	g = g.WithPercent(p)
	if zzsym.Choice("own", 2) == 1 {
		for i := zzsym.Choice("len", zzsym.Bound("label", 4, 8)); i > 0; i-- {
			label = append(label, string(zzsym.Rune("r", "narrow")))
		}
		s := ""
		for _, l := range label {
			s += l
		}
		if zzsym.Choice("span", 2) == 1 {
			g = g.WithLabel(textwidget.NewSpan(s).WithStyle(NewStyle().Italic()))
		} else {
			g = g.WithLabelStr(s)
		}
	} else {
		p = zzsym.Concrete(p)
		if p == 100 {
			label = append(label, "1")
		}
		if p >= 10 {
			label = append(label, string(rune('0'+p/10%10)))
		}
		label = append(label, string(rune('0'+p%10)), "%")
	}
	b := shown(w, h, g.Render)
	left := (w - len(label)) / 2
	for i, l := range label {
		zzsym.Assert(b.CellAt(NewPosition(left+i, h/2)).Symbol == l, "the label is not shown in the middle")
		zzsym.Cover("label")
	}
	// what the label leaves of its row, and every other row, is bar
	bar := shown(w, 3, g.Render)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if y != h/2 || x < left || x >= left+len(label) {
				zzsym.Assert(*b.CellAt(NewPosition(x, y)) == *bar.CellAt(NewPosition(x, 0)), "the row of the label is not filled as the others are")
			}
		}
	}
}

// C22_Colours: the filled cells show in the colours of the gauge's style, the
// others on its background, and every cell with its modifiers.
func C22_Colours() {
	w := zzsym.Bound("width", 5, 8)
	s, own := zzu.AnyStyle("s"), zzu.AnyStyle("g")
	n := zzsym.Int("n", 0, 16)
	unicode := zzsym.Choice("unicode", 2) == 1
	b := shown(w, 3, gaugewidget.New().WithStyle(s).WithGaugeStyle(own).WithUnicode(unicode).WithRatio(float64(n)/16).Render)
	filled := NewEmptyCell()
	filled.SetStyle(NewStyle().Patched(own))
	both := s.Patched(own)
	for _, y := range []int{0, 2} {
		for x := 0; x < w; x++ {
			c := b.CellAt(NewPosition(x, y))
			// the cell the ratio ends in may be of either kind
			if 16*(x+1) <= w*n {
				zzsym.Assert(c.Fg == filled.Fg && c.Bg == filled.Bg, "the bar of a gauge is not in its colours")
				zzsym.Cover("bar")
			} else if 16*x >= w*n {
				zzsym.Assert(!both.Foreground.IsSet() || c.Fg == both.Foreground.Color(), "the rest of a gauge is not in its foreground")
				zzsym.Assert(!both.Background.IsSet() || c.Bg == both.Background.Color(), "the rest of a gauge is not on its background")
				zzsym.Cover("rest")
			}
		}
	}
}
