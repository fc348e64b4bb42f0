package backend

import (
	"io"
	"strings"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzh/zzu"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C46

// page is what is on a 3x3 part of a terminal, and its modes.
type page struct {
	sym                [3][3]string
	x, y               int
	hidden, alt, paste bool
}

func (p *page) matches(t *zzu.Term) {
	for y := range p.sym {
		for x := range p.sym[y] {
			g, _ := t.At(x, y)
			zzsym.Assert(g.Sym == p.sym[y][x], "the screen shows something else than asked for")
		}
	}
	zzsym.Assert(t.X == p.x && t.Y == p.y, "the cursor is somewhere else than asked for")
	zzsym.Assert(t.Hidden == p.hidden, "the cursor's visibility is not the one asked for")
	zzsym.Assert(t.Alt == p.alt, "the screen in use is not the one asked for")
	zzsym.Assert(t.Paste == p.paste, "bracketed paste is not as asked for")
}

func (p *page) erase(in func(x, y int) bool) {
	for y := range p.sym {
		for x := range p.sym[y] {
			if in(x, y) {
				p.sym[y][x] = " "
			}
		}
	}
}

const commands = 12

func (p *page) do(b TerminalBackend, k int) (err error) {
	cx, cy := p.x, p.y
	switch k {
	case 0:
		err = b.ClearAll()
		p.erase(func(x, y int) bool { return true })
	case 1:
		err = b.ClearAfterCursor()
		p.erase(func(x, y int) bool { return y > cy || y == cy && x >= cx })
	case 2:
		err = b.ClearBeforeCursor()
		p.erase(func(x, y int) bool { return y < cy || y == cy && x <= cx })
	case 3:
		err = b.ClearCurrentLine()
		p.erase(func(x, y int) bool { return y == cy })
	case 4:
		err = b.ClearUntilNewLine()
		p.erase(func(x, y int) bool { return y == cy && x >= cx })
	case 5:
		p.x, p.y = zzsym.Int("x", 0, 3), zzsym.Int("y", 0, 3)
		err = b.SetCursorPosition(NewPosition(p.x, p.y))
	case 6:
		err = b.HideCursor()
		p.hidden = true
	case 7:
		err = b.ShowCursor()
		p.hidden = false
	case 8:
		err = b.EnableAlternateScreen()
		p.alt = true
	case 9:
		err = b.LeaveAlternateScreen()
		p.alt = false
	case 10:
		err = b.EnableBracketedPaste()
		p.paste = true
	case 11:
		err = b.DisableBracketedPaste()
		p.paste = false
	}
	return err
}

// C46_Commands: every command does what it is called, at once, and nothing
// else.
func C46_Commands() {
	t, d := on(termenv.TrueColor)
	p := &page{}
	for y := range p.sym {
		for x := range p.sym[y] {
			p.sym[y][x] = string(rune('a' + 3*y + x))
			t.Log = append(t.Log, zzu.Print{X: x, Y: y, W: 1, Sym: p.sym[y][x]})
		}
	}
	p.x, p.y = zzsym.Int("x", 0, 3), zzsym.Int("y", 0, 3)
	p.hidden, p.alt, p.paste = zzsym.Bool("hidden"), zzsym.Bool("alt"), zzsym.Bool("paste")
	t.X, t.Y, t.Hidden, t.Alt, t.Paste = p.x, p.y, p.hidden, p.alt, p.paste
	for i := zzsym.Bound("commands", 2, 3); i > 0; i-- {
		zzsym.Assert(p.do(d, zzsym.Choice("command", commands)) == nil, "a command failed although every write worked")
		t.Process()
		p.matches(t)
	}
	zzsym.Assert(t.Attrs == zzu.Attrs{}, "a command changes the attributes")
}

// C46_Far: the cursor goes to positions of any size.
func C46_Far() {
	t, d := on(termenv.TrueColor)
	x, y := zzsym.Int("x", 0, zzsym.Bound("coordinate", 2000, 100000)), zzsym.Int("y", 0, 2)
	if zzsym.Choice("swap", 2) == 1 {
		x, y = y, x
	}
	zzsym.Assert(d.SetCursorPosition(NewPosition(x, y)) == nil, "SetCursorPosition failed")
	t.Process()
	zzsym.Assert(t.X == x && t.Y == y, "the cursor is somewhere else than asked for")
}

// C46_Failing: a command whose output fails says so, and does not keep later
// ones from working.
func C46_Failing() {
	out := &broken{Term: &zzu.Term{}, broken: true}
	d := NewDefaultBackend(out.Term, out)
	p := &page{}
	zzsym.Assert(p.do(&d, zzsym.Choice("command", commands)) != nil, "a command does not report that its output failed")
	out.broken = false
	p = &page{}
	p.erase(func(x, y int) bool { return true })
	zzsym.Assert(p.do(&d, zzsym.Choice("next", commands)) == nil, "a command fails after another one did")
	out.Process()
	p.matches(out.Term)
}

// C46_Full: no failure is lost when the output's buffer is full, either.
func C46_Full() {
	out := &broken{Term: &zzu.Term{}, broken: true}
	d := NewDefaultBackend(out.Term, out)
	// the bytes of a cell fill the buffer, of 4096 bytes, up to a few
	c := NewEmptyCell()
	c.SetSymbol(strings.Repeat("a", zzsym.Int("size", 4050, 4096)))
	err := d.Draw([]PositionedCell{{Cell: c}})
	p := &page{}
	next := p.do(&d, zzsym.Choice("command", commands))
	zzsym.Assert(next != nil, "a command does not report that its output failed")
	if err != nil {
		zzsym.Cover("drawing failed")
	} else {
		zzsym.Cover("command failed")
	}
}

// relay records what it is asked for.
type relay struct {
	screen
	calls []int
	fail  bool
}

func (r *relay) note(k int) error {
	r.calls = append(r.calls, k)
	if r.fail {
		return errFault
	}
	return nil
}
func (r *relay) EnableRawMode() error         { return r.note(0) }
func (r *relay) DisableRawMode() error        { return r.note(1) }
func (r *relay) EnableAlternateScreen() error { return r.note(2) }
func (r *relay) LeaveAlternateScreen() error  { return r.note(3) }
func (r *relay) EnableBracketedPaste() error  { return r.note(4) }
func (r *relay) DisableBracketedPaste() error { return r.note(5) }
func (r *relay) HideCursor() error            { return r.note(6) }
func (r *relay) ShowCursor() error            { return r.note(7) }
func (r *relay) SetCursorPosition(p Position) error {
	r.t.X, r.t.Y = p.X, p.Y
	return r.note(8)
}
func (r *relay) GetSize() (Size, bool, error) {
	err := r.note(9)
	return Size{Width: r.area.Width, Height: r.area.Height}, true, err
}
func (r *relay) Read(p []byte) (int, error) { return copy(p, "input"), r.note(10) }
func (r *relay) Input() io.Reader           { return &r.t }
func (r *relay) Output() io.Writer          { return &r.t }

// C46_Terminal: the terminal hands each request to its backend, and reports
// what the backend reported.
func C46_Terminal() {
	r := &relay{screen: screen{fail: -1, area: NewRect(zzsym.Int("w", 0, 500), zzsym.Int("h", 0, 500))}}
	t, err := NewTerminal(r, ViewportFixed(NewRect(1, 1)))
	zzsym.Assert(err == nil, "a terminal cannot be made")
	r.calls = nil
	r.fail = zzsym.Bool("fail")
	k := zzsym.Choice("request", 11)
	switch k {
	case 0:
		err = t.EnableRawMode()
	case 1:
		err = t.DisableRawMode()
	case 2:
		err = t.EnableAlternateScreen()
	case 3:
		err = t.LeaveAlternateScreen()
	case 4:
		err = t.EnableBracketedPaste()
	case 5:
		err = t.DisableBracketedPaste()
	case 6:
		err = t.HideCursor()
	case 7:
		err = t.ShowCursor()
	case 8:
		p := NewPosition(zzsym.Int("x", 0, 500), zzsym.Int("y", 0, 500))
		err = t.SetCursorPosition(p)
		zzsym.Assert(r.t.X == p.X && r.t.Y == p.Y, "the cursor is moved elsewhere")
	case 9:
		var size Size
		size, _, err = t.Size()
		zzsym.Assert(r.fail || size.Width == r.area.Width && size.Height == r.area.Height, "the terminal reports another size")
	case 10:
		buf := make([]byte, zzsym.Choice("room", 7))
		var n int
		n, err = t.Read(buf)
		zzsym.Assert(n == min(len(buf), 5) && string(buf[:n]) == "input"[:n], "the terminal reads something else")
	}
	zzsym.Assert((err != nil) == r.fail, "the backend's error is not the terminal's")
	zzsym.Assert(len(r.calls) == 1 && r.calls[0] == k, "the terminal asks its backend for something else")
	zzsym.Assert(t.Input() == io.Reader(&r.t) && t.Output() == io.Writer(&r.t), "the terminal's input and output are not its backend's")
	v, ok := t.Viewport().(ViewportFixed)
	zzsym.Assert(ok && Rect(v) == NewRect(1, 1), "the terminal's viewport is not the one it was made with")
}

// ---------------------------------------------------------------- C12

// C12_Real: the same over the backend of real terminals.
func C12_Real() {
	out, d := on(termenv.TrueColor)
	w := zzsym.Bound("columns of a real screen", 3, 4)
	area := NewRect(w, 1).Positioned(zzsym.Int("vx", 0, 3), zzsym.Int("vy", 0, 3))
	t, err := NewTerminal(d, ViewportFixed(area))
	zzsym.Assert(err == nil, "a terminal cannot be made")
	for i := 0; i < 2; i++ {
		f := anyWidget(w, 1, 2)
		s := &screen{area: area}
		_, err := t.Draw(f)
		zzsym.Assert(err == nil, "a draw failed although the output worked")
		out.Process()
		s.t = *out
		s.shows(f, "the screen does not show the last frame")
		zzsym.Assert(out.Hidden, "the cursor is visible though the frame has none")
		if i == 0 && zzsym.Choice("clear", 2) == 1 {
			zzsym.Assert(t.Clear() == nil, "a clear failed although the output worked")
			out.Process()
			s.t = *out
			s.shows(frame{}, "the screen is not blank after it was cleared")
		}
	}
}
