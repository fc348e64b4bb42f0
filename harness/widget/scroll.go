package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/scrollwidget"
)

// bar is a rendered scrollbar, read from the screen: cells before the thumb,
// in it and behind it.
type bar struct{ before, thumb, behind int }

// scrollbar renders a scrollbar and reads it back.
func scrollbar(o scrollwidget.Orientation, w, h int, st scrollwidget.State) (bar, bool) {
	b := NewBufferFilled(Rect{Position: NewPosition(1, 1), Width: w + 2, Height: h + 2}, under)
	area := Rect{Position: NewPosition(2, 2), Width: w, Height: h}
	scrollwidget.New(o).RenderStateful(area, &b, st)
	vertical := o == scrollwidget.OrientationVerticalLeft || o == scrollwidget.OrientationVerticalRight
	n, track := w, "\u2550"
	if vertical {
		n, track = h, "\u2551"
	}
	at := func(i int) Position {
		switch o {
		case scrollwidget.OrientationVerticalLeft:
			return NewPosition(2, 2+i)
		case scrollwidget.OrientationVerticalRight:
			return NewPosition(2+w-1, 2+i)
		case scrollwidget.OrientationHorizontalTop:
			return NewPosition(2+i, 2)
		}
		return NewPosition(2+i, 2+h-1)
	}
	// everything that is not on the edge is untouched
	for y := 1; y < h+3; y++ {
		for x := 1; x < w+3; x++ {
			p := NewPosition(x, y)
			if (x == at(0).X || !vertical && x >= 2 && x < 2+w) && (y == at(0).Y || vertical && y >= 2 && y < 2+h) {
				continue
			}
			zzsym.Assert(*b.CellAt(p) == under, "a scrollbar draws beside its edge")
		}
	}
	if n == 0 || w == 0 || h == 0 || b.CellAt(at(0)).Symbol == "." {
		for i := 0; i < n; i++ {
			if w > 0 && h > 0 {
				zzsym.Assert(*b.CellAt(at(i)) == under, "a part of a scrollbar is missing")
			}
		}
		return bar{}, false
	}
	i := 0
	if vertical {
		zzsym.Assert(b.CellAt(at(0)).Symbol == "\u25b2" || b.CellAt(at(0)).Symbol == "\u2191", "a vertical scrollbar does not begin with its arrow")
		zzsym.Assert(b.CellAt(at(n-1)).Symbol == "\u25bc" || b.CellAt(at(n-1)).Symbol == "\u2193", "a vertical scrollbar does not end with its arrow")
		i, n = 1, n-1
	}
	var r bar
	for ; i < n && b.CellAt(at(i)).Symbol == track; i++ {
		r.before++
	}
	for ; i < n && b.CellAt(at(i)).Symbol == "\u2588"; i++ {
		r.thumb++
	}
	for ; i < n && b.CellAt(at(i)).Symbol == track; i++ {
		r.behind++
	}
	zzsym.Assert(i == n, "a scrollbar is not a track with one thumb on it")
	zzsym.Assert(r.thumb >= 1, "a scrollbar has no thumb")
	return r, true
}

// C25_Thumb checks the thumb of any scrollbar.
func C25_Thumb() {
	o := orientations[zzsym.Choice("orientation", 4)]
	n := zzsym.Choice("track", zzsym.Bound("track", 5, 8))
	w, h := 2, n+1
	vertical := o == scrollwidget.OrientationVerticalLeft || o == scrollwidget.OrientationVerticalRight
	arrows := 2
	if !vertical {
		w, h, arrows = n, 2, 0
	}
	content := zzsym.Int("content", 0, zzsym.Bound("content", 9, 40))
	position := zzsym.Int("position", -1, zzsym.Bound("content", 9, 40))
	st := scrollwidget.NewState(content)
	viewport := zzsym.Int("viewport", 0, zzsym.Bound("viewport", 3, 20))
	st.SetPosition(position).SetViewportContentLen(viewport)
	r, ok := scrollbar(o, w, h, st)
	length := w
	if vertical {
		length = h
	}
	if !ok {
		zzsym.Assert(content == 0 || length <= arrows, "a scrollbar with content and room is not shown")
		zzsym.Cover("hidden")
		return
	}
	zzsym.Assert(r.before+r.thumb+r.behind == length-arrows, "a scrollbar does not use its whole track")
	// as long as the viewport is of all that can be scrolled through
	if viewport == 0 {
		viewport = length
	}
	all := content - 1 + viewport
	longer := r.thumb*all - viewport*(length-arrows)
	zzsym.Assert(longer <= all || r.thumb == 1, "the thumb is more than a cell longer than the part that is visible")
	zzsym.Assert(-longer <= all, "the thumb is more than a cell shorter than the part that is visible")
	if position <= 0 {
		zzsym.Assert(r.before == 0, "the thumb of the first position is not at the beginning")
		zzsym.Cover("first")
	}
	if position >= content-1 {
		zzsym.Assert(r.behind == 0, "the thumb of the last position is not at the end")
		zzsym.Cover("last")
	}
}

// C25_Monotone compares two positions.
func C25_Monotone() {
	o := orientations[zzsym.Choice("orientation", 2)*2]
	n := 1 + zzsym.Choice("track", zzsym.Bound("track", 4, 7))
	w, h := 1, n+2
	if o == scrollwidget.OrientationHorizontalBottom {
		w, h = n, 1
	}
	content := zzsym.Int("content", 1, zzsym.Bound("content", 9, 40))
	p := zzsym.Int("p", 0, zzsym.Bound("content", 9, 40)-1)
	zzsym.Assume(p+1 < content)
	viewport := zzsym.Int("viewport", 0, zzsym.Bound("viewport", 2, 20))
	f := func(p int) bar {
		st := scrollwidget.NewState(content)
		st.SetPosition(p).SetViewportContentLen(viewport)
		r, ok := scrollbar(o, w, h, st)
		zzsym.Assert(ok, "a scrollbar with content and room is not shown")
		return r
	}
	a, b := f(p), f(p+1)
	zzsym.Assert(a.before <= b.before, "the thumb moves back as the position moves forward")
	zzsym.Assert(a.before+a.thumb <= b.before+b.thumb, "the end of the thumb moves back as the position moves forward")
	zzsym.Cover("pair")
}

// C25_Inner: the inner area is what the bar leaves.
func C25_Inner() {
	big := zzsym.Bound("size", 4, 6)
	area := Rect{Position: NewPosition(zzsym.Int("x", -9, 9), zzsym.Int("y", -9, 9)), Width: zzsym.Int("w", 0, big), Height: zzsym.Int("h", 0, big)}
	k := zzsym.Choice("orientation", 4)
	i := scrollwidget.New(orientations[k]).Inner(area)
	want := area
	switch k {
	case 0:
		want.Width--
	case 1:
		want.Width--
		want.X++
	case 2:
		want.Height--
	case 3:
		want.Height--
		want.Y++
	}
	if want.Width <= 0 || want.Height <= 0 {
		zzsym.Assert(i.IsEmpty(), "an inner area although the bar takes everything")
		zzsym.Cover("none")
		return
	}
	zzsym.Assert(i == want, "the inner area of a scrollbar is not what the bar leaves")
	zzsym.Cover("inner")
}

// C26_Step applies one command to any valid position.
func C26_Step() {
	n := zzsym.Int("content", 0, huge)
	p := zzsym.Int("position", 0, huge)
	zzsym.Assume(p < n || p == 0)
	s := scrollwidget.NewState(n)
	zzsym.Assert(s.Position() == 0, "a new state is not at the first position")
	s.SetPosition(p)
	zzsym.Assert(s.Position() == p, "a position is not kept")
	step(&s, p, n, zzsym.Choice("command", 6))
	zzsym.Cover("step")
}

func step(s *scrollwidget.State, p, n, k int) int {
	last := n - 1
	if n == 0 {
		last = 0
	}
	switch k {
	case 0:
		s.Next()
	case 1:
		s.Prev()
	case 2:
		s.First()
	case 3:
		s.Last()
	case 4:
		s.Scroll(scrollwidget.DirectionForward)
	case 5:
		s.Scroll(scrollwidget.DirectionBackward)
	}
	switch k {
	case 0, 4:
		if p < last {
			p++
		}
	case 1, 5:
		if p > 0 {
			p--
		}
	case 2:
		p = 0
	case 3:
		p = last
	}
	zzsym.Assert(s.Position() == p, "a scroll command did not go to its position")
	zzsym.Assert(s.Position() >= 0 && (s.Position() < n || s.Position() == 0), "the position is outside the content")
	return p
}

// C26_History applies several commands, with and without rendering.
func C26_History() {
	n := zzsym.Int("content", 0, zzsym.Bound("content", 6, 1000))
	s := scrollwidget.NewState(n)
	p := 0
	for i := zzsym.Bound("commands", 3, 5); i > 0; i-- {
		p = step(&s, p, n, zzsym.Choice("command", 6))
	}
	if n > 0 {
		r := s.Ratio()
		zzsym.Assert(r >= 0 && r < 1, "the ratio is outside the content")
	}
	zzsym.Cover("history")
}
