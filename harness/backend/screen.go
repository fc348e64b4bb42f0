package backend

import (
	"errors"
	"io"
	"strings"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

// screen is a terminal behind the backend interface. Draws become visible
// when they are flushed.
type screen struct {
	t       zzu.Term
	queue   []zzu.Print
	area    Rect
	hidden  bool
	calls   int
	fail    int // the call that fails
	partial int // how many cells a failing Draw still applies
	failed  bool
	half    bool // a failing clear clears all the same
}

var errFault = errors.New("fault")

func (s *screen) fault() error {
	s.calls++
	if s.calls == s.fail {
		s.failed = true
		return errFault
	}
	return nil
}

func (s *screen) Draw(cells []PositionedCell) error {
	err := s.fault()
	for i, c := range cells {
		if err != nil && i >= s.partial {
			break
		}
		p := c.Position
		zzsym.Assert(p.X >= s.area.X && p.X < s.area.X+s.area.Width && p.Y >= s.area.Y && p.Y < s.area.Y+s.area.Height, "a cell outside the viewport is drawn")
		w := 1
		if c.Symbol == "\u4e2d" {
			w = 2
		}
		zzsym.Assert(p.X+w <= s.area.X+s.area.Width, "a symbol reaches past the viewport")
		fg := zzu.Paint{}
		if a, ok := c.Fg.(termenv.ANSIColor); ok {
			fg = zzu.Paint{Kind: 1, A: int(a)}
		}
		s.t.X, s.t.Y = p.X+w, p.Y
		s.queue = append(s.queue, zzu.Print{X: p.X, Y: p.Y, W: w, Sym: c.Symbol, Attrs: zzu.Attrs{Fg: fg, Mod: c.Modifier}})
	}
	return err
}

func (s *screen) Flush() error {
	if err := s.fault(); err != nil {
		return err
	}
	s.t.Log = append(s.t.Log, s.queue...)
	s.queue = nil
	return nil
}
func (s *screen) HideCursor() error {
	if err := s.fault(); err != nil {
		return err
	}
	s.hidden = true
	return nil
}
func (s *screen) ShowCursor() error { s.hidden = false; return s.fault() }
func (s *screen) ClearAll() error {
	err := s.fault()
	if err == nil || s.half {
		s.t.Log, s.queue = nil, nil
	}
	return err
}

// ClearAfterCursor blanks the rest of the cursor's line and all lines below.
func (s *screen) ClearAfterCursor() error {
	err := s.fault()
	if err != nil && !s.half {
		return err
	}
	var l []zzu.Print
	for _, p := range s.t.Log {
		if p.Y < s.t.Y || p.Y == s.t.Y && p.X < s.t.X {
			l = append(l, p)
		}
	}
	s.t.Log, s.queue = l, nil
	return err
}
func (s *screen) SetCursorPosition(p Position) error {
	if err := s.fault(); err != nil {
		return err
	}
	s.t.X, s.t.Y = p.X, p.Y
	return nil
}
func (s *screen) GetSize() (Size, bool, error) {
	return Size{Width: s.area.Width, Height: s.area.Height}, true, s.fault()
}
func (s *screen) GetCursorPosition() (Position, error) { return Position{}, nil }
func (s *screen) ClearBeforeCursor() error             { return nil }
func (s *screen) ClearCurrentLine() error              { return nil }
func (s *screen) ClearUntilNewLine() error             { return nil }
func (s *screen) EnableRawMode() error                 { return nil }
func (s *screen) DisableRawMode() error                { return nil }
func (s *screen) EnableAlternateScreen() error         { return nil }
func (s *screen) LeaveAlternateScreen() error          { return nil }
func (s *screen) EnableBracketedPaste() error          { return nil }
func (s *screen) DisableBracketedPaste() error         { return nil }
func (s *screen) Input() io.Reader                     { return nil }
func (s *screen) Output() io.Writer                    { return io.Discard }
func (s *screen) Read(p []byte) (int, error)           { return 0, io.EOF }

// item is one symbol of a frame.
type item struct {
	x, y, w int
	sym     string
	fg      int
}

type frame struct{ items []item }

func (f frame) Render(area Rect, buffer *Buffer) {
	for _, it := range f.items {
		c := buffer.CellAt(NewPosition(area.X+it.x, area.Y+it.y))
		c.SetSymbol(it.sym)
		if it.fg >= 0 {
			c.SetFg(termenv.ANSIColor(it.fg))
		}
	}
}

// anyWidget draws into some of the cells of its area.
func anyWidget(w, h, maxw int) frame {
	var f frame
	for y := 0; y < h; y++ {
		for x := 0; x < w; {
			switch zzsym.Choice("cell", min(maxw+1, w-x+1)) {
			case 0: // left blank
				x++
			case 1:
				f.items = append(f.items, item{x, y, 1, string(zzsym.Rune("sym", "ascii")), zzsym.Int("fg", 0, 7)})
				x++
			case 2:
				f.items = append(f.items, item{x, y, 2, "\u4e2d", -1})
				x += 2
			}
		}
	}
	return f
}

// sparse draws up to two symbols anywhere.
func sparse(w, h int) frame {
	var f frame
	at := 0
	for i := 0; i < 2; i++ {
		at += zzsym.Choice("at", w*h-at+1)
		if at >= w*h {
			break
		}
		f.items = append(f.items, item{at % w, at / w, 1, string(zzsym.Rune("sym", "ascii")), -1})
		at++
	}
	return f
}

func (s *screen) shows(f frame, msg string) {
	x := 0
	i := 0
	for y := 0; y < s.area.Height; y++ {
		for x = 0; x < s.area.Width; x++ {
			got, _ := s.t.At(s.area.X+x, s.area.Y+y)
			want := item{x: x, y: y, w: 1, sym: " ", fg: -1}
			if i < len(f.items) && f.items[i].y == y && f.items[i].x == x {
				want = f.items[i]
				i++
			}
			fg := zzu.Paint{}
			if want.fg >= 0 {
				fg = zzu.Paint{Kind: 1, A: want.fg}
			}
			zzsym.Assert(got.Sym == want.sym && got.X == s.area.X+want.x && got.W == want.w && got.Attrs.Fg == fg && got.Attrs.Mod == 0, msg)
			x += want.w - 1
		}
	}
	zzsym.Cover("shown")
}

// ---------------------------------------------------------------- C12

func history(steps, w, h, maxw int) {
	s := &screen{fail: -1, area: NewRect(w, h)}
	fixed := zzsym.Choice("fixed", 2) == 1
	var v Viewport = ViewportFullscreen{}
	if fixed {
		s.area = s.area.Positioned(zzsym.Int("vx", 0, 50), zzsym.Int("vy", 0, 50))
		v = ViewportFixed(s.area)
	}
	t, err := NewTerminal(s, v)
	zzsym.Assert(err == nil, "a terminal cannot be made")
	for i := 0; i < steps; i++ {
		op := 0
		if i > 0 && i < steps-1 {
			op = zzsym.Choice("op", 4)
		}
		switch op {
		case 0:
			var f frame
			if maxw == 0 {
				f = sparse(s.area.Width, s.area.Height)
			} else {
				f = anyWidget(s.area.Width, s.area.Height, maxw)
			}
			_, err := t.Draw(f)
			zzsym.Assert(err == nil, "a draw failed although the backend worked")
			s.shows(f, "the screen does not show the last frame")
			zzsym.Assert(s.hidden, "the cursor is visible though the frame has none")
		case 1:
			a := s.area
			a.Width = 1 + zzsym.Choice("w", w)
			a.Height = 1 + zzsym.Choice("h", h)
			if fixed {
				// the new area may be elsewhere, the old one is not cleared by the terminal's owner
				s.t.Log = nil
			}
			s.area = a
			zzsym.Assert(t.Resize(a) == nil, "a resize failed although the backend worked")
			zzsym.Cover("resized")
		case 2:
			zzsym.Assert(t.Clear() == nil, "a clear failed although the backend worked")
			s.shows(frame{}, "the screen is not blank after it was cleared")
			zzsym.Cover("cleared")
		case 3:
			p := NewPosition(zzsym.Int("px", 0, 60), zzsym.Int("py", 0, 60))
			zzsym.Assert(t.SetCursorPosition(p) == nil && t.ShowCursor() == nil, "the cursor cannot be moved although the backend worked")
			zzsym.Assert(s.t.X == p.X && s.t.Y == p.Y && !s.hidden, "the cursor is not where it was asked for")
			zzsym.Cover("moved")
		}
	}
}

func C12_Narrow() { history(zzsym.Bound("steps", 3, 4), 2, 1, 1) }
func C12_Wide()   { history(3, zzsym.Bound("columns", 3, 4), 1, 2) }
func C12_Lines()  { history(3, 2, zzsym.Bound("lines", 2, 3), 0) }

// widget draws through SetString, as widgets do
type words struct {
	s    string
	x, y int
	w    int
}

func (f words) Render(area Rect, buffer *Buffer) {
	buffer.SetStringN(area.X+f.x, area.Y+f.y, f.s, f.w, NewStyle())
}

func C12_Strings() {
	w := zzsym.Bound("columns", 4, 6)
	s := &screen{fail: -1, area: NewRect(w, 1)}
	t, _ := NewTerminal(s, ViewportFullscreen{})
	parts := []string{"a", "\u4e2d", ""}
	for i := 0; i < 2; i++ {
		str := ""
		for k := 0; k < 3; k++ {
			str += parts[zzsym.Choice("part", 3)]
		}
		x := zzsym.Choice("x", w)
		_, err := t.Draw(words{str, x, 0, w})
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
		var f frame
		for _, r := range str {
			rw := 1
			if r != 'a' {
				rw = 2
			}
			if x+rw > w {
				break
			}
			f.items = append(f.items, item{x, 0, rw, string(r), -1})
			x += rw
		}
		s.shows(f, "the screen does not show the last frame")
	}
}

// ---------------------------------------------------------------- C13

func faults(w, maxw int) {
	s := &screen{fail: -1, area: NewRect(w, 1)}
	t, err := NewTerminal(s, ViewportFullscreen{})
	zzsym.Assert(err == nil, "a terminal cannot be made")
	n := zzsym.Bound("draws before", 1, 2)
	for i := 0; i < n; i++ {
		_, err := t.Draw(anyWidget(w, 1, maxw))
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
	}
	s.fail = s.calls + 1 + zzsym.Choice("which", 3)
	s.partial = zzsym.Choice("partial", w+1)
	_, err = t.Draw(anyWidget(w, 1, maxw))
	zzsym.Assert(s.failed == (err != nil), "the failure of the backend is not reported")
	if s.failed {
		zzsym.Assert(errors.Is(err, errFault), "another error is reported than the backend's")
		zzsym.Cover("failed")
	}
	if zzsym.Choice("lost", 2) == 1 {
		s.queue = nil // what was not flushed is gone
	}
	s.fail = -1
	f := anyWidget(w, 1, maxw)
	_, err = t.Draw(f)
	zzsym.Assert(err == nil, "a draw failed although the backend worked")
	s.shows(f, "after a failed draw the screen does not show the next frame")
}

func C13_Narrow() { faults(2, 1) }
func C13_Wide()   { faults(zzsym.Bound("columns", 2, 3), 2) }

// broken is an output that refuses everything while it is broken.
type broken struct {
	*zzu.Term
	broken, failed bool
}

func (b *broken) Write(p []byte) (int, error) {
	if b.broken {
		b.failed = true
		return 0, errFault
	}
	return b.Term.Write(p)
}

// C13_Output: the output fails at any point of what the backend writes, which
// it does when the backend's buffer is full.
func C13_Output() {
	out := &broken{Term: &zzu.Term{}, broken: true}
	d := NewDefaultBackend(out.Term, out)
	zzsym.SetField(&d, termenv.TrueColor)
	a, b := NewCell(strings.Repeat("a", 4100-zzsym.Int("room", 0, 80))), NewCell("b")
	a.Fg, a.Modifier, b.Bg, b.Modifier = termenv.ANSIRed, ModifierBold, termenv.ANSIBlue, ModifierItalic
	cells := []PositionedCell{{Cell: a}, {Cell: b, Position: NewPosition(zzsym.Choice("x", 2)*5000, 1)}}
	err := d.Draw(cells)
	drawn := err == nil
	if drawn {
		err = d.Flush()
	}
	zzsym.Assert(err != nil && errors.Is(err, errFault), "an output that fails is not reported")
	if !drawn {
		zzsym.Cover("failed while drawing")
	}
	out.broken = false
	send(out.Term, &d, cells[1:])
	p, ok := out.At(cells[1].Position.X, 1)
	zzsym.Assert(ok && p.Sym == "b" && p.Attrs == zzu.Attrs{Bg: zzu.Shown(termenv.TrueColor, b.Bg), Mod: b.Modifier}, "the output does not work again after it failed")
}

func C13_New() {
	s := &screen{fail: 1, area: NewRect(2, 2)}
	t, err := NewTerminal(s, ViewportFullscreen{})
	zzsym.Assert(err != nil && errors.Is(err, errFault) && t == nil, "the failure to get the size is not reported")
}

// C13_Resize: a resize or a clear that fails is reported, and the next draw
// shows its frame all the same, whatever the failed operation left behind.
func C13_Resize() {
	s := &screen{fail: -1, area: NewRect(2, zzsym.Choice("h", 3))}
	var v Viewport = ViewportFullscreen{}
	fixed := zzsym.Choice("fixed", 2) == 1
	if fixed {
		s.area = s.area.Positioned(zzsym.Choice("vx", 2), zzsym.Choice("vy", 2))
		v = ViewportFixed(s.area)
	}
	t, _ := NewTerminal(s, v)
	if zzsym.Choice("drawn", 2) == 1 {
		_, err := t.Draw(sparse(s.area.Width, s.area.Height))
		zzsym.Assert(err == nil, "a draw failed although the backend worked")
	}
	s.fail = s.calls + 1 + zzsym.Choice("which", 6)
	s.half = zzsym.Choice("cleared all the same", 2) == 1
	var err error
	if zzsym.Choice("op", 2) == 0 {
		s.area.Width = 1 + zzsym.Choice("w", 3)
		if fixed {
			s.t.Log = nil // the old area is the owner's to clear
		}
		err = t.Resize(s.area)
	} else {
		err = t.Clear()
	}
	zzsym.Assert(s.failed == (err != nil) && (err == nil || errors.Is(err, errFault)), "the failure of the backend is not reported")
	if s.failed {
		zzsym.Cover("failed")
	}
	s.fail = -1
	f := sparse(s.area.Width, s.area.Height)
	_, err = t.Draw(f)
	zzsym.Assert(err == nil, "a draw failed although the backend worked")
	s.shows(f, "after a failed resize or clear the screen does not show the next frame")
}

// C13_Again: draws and clears that fail one after another.
func C13_Again() {
	s := &screen{fail: -1, area: NewRect(2, 1)}
	t, _ := NewTerminal(s, ViewportFullscreen{})
	_, err := t.Draw(sparse(2, 1))
	zzsym.Assert(err == nil, "a draw failed although the backend worked")
	for i := 0; i < zzsym.Bound("failures", 2, 3); i++ {
		s.failed = false
		s.partial = 0
		which := zzsym.Choice("op", 4)
		if which == 3 {
			s.fail = s.calls + 1
			s.half = zzsym.Choice("cleared all the same", 2) == 1
			err = t.Clear()
		} else {
			s.fail = s.calls + 1 + which
			if which == 0 {
				s.partial = zzsym.Choice("partial", 3)
			}
			_, err = t.Draw(sparse(2, 1))
		}
		zzsym.Assert(s.failed == (err != nil) && (err == nil || errors.Is(err, errFault)), "the failure of the backend is not reported")
		if zzsym.Choice("lost", 2) == 1 {
			s.queue = nil
		}
	}
	s.fail = -1
	f := sparse(2, 1)
	_, err = t.Draw(f)
	zzsym.Assert(err == nil, "a draw failed although the backend worked")
	s.shows(f, "after failures the screen does not show the next frame")
}
