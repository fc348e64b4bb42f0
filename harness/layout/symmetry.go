package layout

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// ---------------------------------------------------------------- C51

func turn(r Rect) Rect {
	return Rect{Position: NewPosition(r.Y, r.X), Width: r.Height, Height: r.Width}
}

func anyLayout(hi int) Layout {
	ks := [][]int{{kMin, kFill, kPct}, {kLen, kMax}}
	if zzsym.Bound("all kinds", 0, 1) == 1 {
		ks = [][]int{allKinds, {kLen, kMin, kMax, kFill}}
	}
	asks := []ask{anyAsk(0, ks[0], hi, 1), anyAsk(1, ks[1], hi, 1)}
	if zzsym.Choice("three", zzsym.Bound("third segment", 1, 2)) == 1 {
		asks = append(asks, anyAsk(2, []int{kMin, kFill}, hi, 1))
	}
	return build(asks).WithFlex(flexes[zzsym.Choice("flex", len(flexes))]).WithSpacing(spacingOf(zzsym.Int("spacing", -1, 1)))
}

// C51_Turned: a layout runs the same way in both directions.
func C51_Turned() {
	hi := zzsym.Bound("cells", 15, 80)
	l := anyLayout(hi)
	area := Rect{Position: NewPosition(zzsym.Int("x", 0, 5), 3), Width: zzsym.Int("w", 0, hi), Height: 2}
	h, hs := l.Horizontal().SplitWithSpacers(area)
	v, vs := l.Vertical().SplitWithSpacers(turn(area))
	zzsym.Assert(len(h) == len(v) && len(hs) == len(vs), "the number of segments depends on the direction")
	for i := range h {
		zzsym.Assert(h[i] == turn(v[i]), "a segment depends on the direction")
	}
	for i := range hs {
		zzsym.Assert(hs[i] == turn(vs[i]), "a spacer depends on the direction")
	}
	zzsym.Cover("turned")
}

// C51_Moved: moving the area moves the segments along.
func C51_Moved() {
	hi := zzsym.Bound("cells", 15, 80)
	l := anyLayout(hi).Horizontal()
	w := zzsym.Int("w", 0, hi)
	dx, dy := zzsym.Int("dx", -20, zzsym.Bound("offset", 10, 400)), zzsym.Int("dy", -9, 40)
	a := l.Split(NewRect(w, 2))
	b := l.Split(NewRect(w, 2).Positioned(dx, dy))
	zzsym.Assert(len(a) == len(b), "the number of segments depends on where the area is")
	for i := range a {
		zzsym.Assert(b[i].X == a[i].X+dx && b[i].Y == a[i].Y+dy && b[i].Width == a[i].Width && b[i].Height == a[i].Height, "a segment depends on where the area is")
	}
	zzsym.Cover("moved")
}

// C51_Spacers: the spacers are what the segments leave of the area.
func C51_Spacers() {
	hi := zzsym.Bound("cells", 15, 80)
	l := anyLayout(hi).Horizontal()
	area := Rect{Position: NewPosition(zzsym.Int("x", 0, 5), 3), Width: zzsym.Int("w", 0, hi), Height: 2}
	if zzsym.Choice("padded", 2) == 1 {
		// a segment and a spacer span what the padding leaves
		p := NewPadding(zzsym.Int("t", 0, 1), zzsym.Int("r", 0, 2), zzsym.Int("b", 0, 1), zzsym.Int("l", 0, 2))
		l = l.WithPadding(p)
		area.Width += p.Left + p.Right
		segs, spacers := l.SplitWithSpacers(area)
		area = Rect{Position: NewPosition(area.X+p.Left, area.Y+p.Top), Width: area.Width - p.Left - p.Right, Height: area.Height - p.Top - p.Bottom}
		spaces(area, segs, spacers)
		return
	}
	segs, spacers := l.SplitWithSpacers(area)
	spaces(area, segs, spacers)
}

func spaces(area Rect, segs, spacers []Rect) {
	zzsym.Assert(len(spacers) == len(segs)+1, "there is not a spacer on either side of every segment")
	end := area.X
	for i, s := range spacers {
		next := area.X + area.Width
		if i < len(segs) {
			next = segs[i].X
		}
		zzsym.Assert(s.Y == area.Y && s.Height == area.Height, "a spacer does not span the area")
		zzsym.Assert(s.Width == max(0, next-end), "a spacer is not the gap between its segments")
		zzsym.Assert(s.Width == 0 || s.X == end, "a spacer is not the gap between its segments")
		if i < len(segs) {
			end = segs[i].X + segs[i].Width
		}
	}
	zzsym.Cover("spacers")
}

// C51_Handed: the segments are handed out in order.
func C51_Handed() {
	n := zzsym.Choice("segments", 5)
	var cs []Constraint
	for i := 0; i < n; i++ {
		cs = append(cs, ConstraintLen(zzsym.Int("len"+digits[i], 0, 9)))
	}
	l := NewLayout().WithConstraints(cs...).Horizontal().WithFlex(FlexStart)
	s := l.Split(NewRect(40, 1))
	zzsym.Assert(len(s) == n, "there is not a segment for every constraint")
	x := 0
	for i := range s {
		want := Rect{Position: NewPosition(x, 0), Width: int(cs[i].(ConstraintLen)), Height: 1}
		zzsym.Assert(s[i] == want, "the segments are not in the order of their constraints")
		x += want.Width
	}
	var got [4]Rect
	switch {
	case n == 0:
		return
	case zzsym.Choice("assign", 2) == 1:
		k := zzsym.Choice("asked", n+1)
		skip := zzsym.Choice("skip", n)
		var to []*Rect
		for i := 0; i < k; i++ {
			if i == skip {
				to = append(to, nil)
			} else {
				to = append(to, &got[i])
			}
		}
		s.Assign(to...)
		for i := range got {
			want := Rect{}
			if i < k && i != skip {
				want = s[i]
			}
			zzsym.Assert(got[i] == want, "Assign hands out other segments")
		}
		return
	case n == 1:
		got[0] = s.Unwrap()
	case n == 2:
		got[0], got[1] = s.Unwrap2()
	case n == 3:
		got[0], got[1], got[2] = s.Unwrap3()
	case n == 4:
		got[0], got[1], got[2], got[3] = s.Unwrap4()
	}
	for i := range s {
		zzsym.Assert(got[i] == s[i], "Unwrap hands out other segments")
	}
}
