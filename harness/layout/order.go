package layout

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

func sameSplit(l Layout, area Rect) {
	mode := 1 + zzsym.Choice("order", zzsym.Bound("map orders", 2, 12))
	a, as := l.SplitWithSpacers(area)
	zzsym.MapOrder(mode)
	b, bs := l.SplitWithSpacers(area)
	zzsym.Assert(len(a) == len(b) && len(as) == len(bs), "the number of segments depends on the map order")
	for i := range a {
		zzsym.Assert(a[i] == b[i], "the segments depend on the map order")
	}
	for i := range as {
		zzsym.Assert(as[i] == bs[i], "the spacers depend on the map order")
	}
	zzsym.ObserveInt("w", a[0].Width)
	zzsym.Cover("compared")
}

func C16_Legacy() {
	hi := zzsym.Bound("cells", 25, 60)
	ks := []int{kMin, kMax, kLen}
	asks := []ask{anyAsk(0, ks, hi, 1), anyAsk(1, ks, hi, 1), anyAsk(2, ks, hi, 1)}
	l := build(asks).Horizontal().WithSpacing(SpacingSpace(zzsym.Int("spacing", 0, 1)))
	sameSplit(l, NewRect(zzsym.Int("w", 0, hi), 1))
}

func C16_Coefficients() {
	hi := zzsym.Bound("cells", 25, 60)
	ks := []int{kPct, kFill, kRough + kPct}
	asks := []ask{anyAsk(0, ks, hi, 1), anyAsk(1, ks[:2], hi, 2), anyAsk(2, []int{kMax, kMin}, hi, 1)}
	l := build(asks).WithFlex(flexes[zzsym.Choice("flex", 2)])
	sameSplit(l, NewRect(1, zzsym.Int("h", 0, hi)))
}

func C16_Flex() {
	hi := zzsym.Bound("cells", 25, 60)
	asks := []ask{anyAsk(0, allKinds, hi, 1), anyAsk(1, []int{kMin, kLen, kFill, kMax}, hi, 2)}
	l := build(asks).Horizontal().WithFlex(flexes[1+zzsym.Choice("flex", 5)]).WithSpacing(SpacingSpace(zzsym.Int("spacing", 0, 1)))
	sameSplit(l, NewRect(zzsym.Int("w", 0, hi), 1))
}

// many constraints of the same kind: the symbols of the linear system must
// stay distinct
func C16_Many() {
	n := 15
	asks := make([]ask, n)
	for i := range asks {
		asks[i] = ask{kind: kLen, n: 1 + i%3}
	}
	hi := zzsym.Bound("cells", 5, 40)
	sameSplit(build(asks).Horizontal().WithFlex(FlexStart), NewRect(zzsym.Int("w", hi-5, hi), 1))
}

// C16_History: a layout's segments do not depend on what was split before.
// What the second layout makes of the same area elsewhere tells what is right.
func C16_History() {
	w := zzsym.Int("w", 3, zzsym.Bound("cells", 20, 60))
	n := zzsym.Int("len", 0, 9)
	spacing, flex, pad := zzsym.Choice("spacing", 2), 1+zzsym.Choice("flex", 2), zzsym.Choice("pad", 2)
	what := zzsym.Choice("what", 7)
	cs := func(k int, c Constraint) []Constraint { return []Constraint{ConstraintLen(k), c} }
	make := func(second bool) Layout {
		s, f, p, k := spacing, flex, pad, n
		var c Constraint = ConstraintMin(2)
		vertical := false
		if second {
			switch what {
			case 0:
				s = 1 - s
			case 1:
				f = 3 - f
			case 2:
				p = 1 - p
			case 3:
				k++
			case 4:
				c = ConstraintMax(2)
			case 5:
				vertical = true
			case 6:
				c = ConstraintMin(3)
			}
		}
		l := NewLayout(cs(k, c)...).Horizontal()
		if vertical {
			l = l.Vertical()
		}
		return l.WithSpacing(spacingOf(s)).WithFlex(flexes[f]).WithPadding(NewPadding(0, p, 0, 0))
	}
	area := NewRect(w, 3)
	first, again := make(false), make(true)
	first.SplitWithSpacers(area)
	got, gs := again.SplitWithSpacers(area)
	area.X, area.Y = 1000, 500
	want, ws := again.SplitWithSpacers(area)
	zzsym.Assert(len(got) == len(want) && len(gs) == len(ws), "the number of segments depends on what was split before")
	home := func(r Rect) Rect { r.X -= 1000; r.Y -= 500; return r }
	for i := range got {
		zzsym.Assert(got[i] == home(want[i]), "a segment depends on what was split before")
	}
	for i := range gs {
		zzsym.Assert(gs[i].Width == ws[i].Width && gs[i].Height == ws[i].Height, "a spacer depends on what was split before")
	}
	zzsym.Cover("history")
}
