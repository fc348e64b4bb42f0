package zzu

import (
	"io"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// Paint is a colour as a terminal understands it: kind 0 is the default
// colour, 1 one of the 16, 2 one of the 256, 3 a direct one.
type Paint struct{ Kind, A, B, C int }

// Attrs is what a terminal applies to the text it prints.
type Attrs struct {
	Fg, Bg Paint
	Mod    bento.Modifier
}

// Print is one grapheme cluster on the screen.
type Print struct {
	X, Y, W int
	Sym     string
	Attrs   Attrs
	erase   func(x, y int) bool // for the erasure of the columns it holds for
}

// Erase blanks the columns in holds for.
func (t *Term) Erase(in func(x, y int) bool) { t.Log = append(t.Log, Print{erase: in}) }

// touches reports whether what q did reaches a column of p.
func (q Print) touches(p Print) bool {
	if q.erase == nil {
		return q.Y == p.Y && q.X < p.X+p.W && p.X < q.X+q.W
	}
	for i := 0; i < p.W; i++ {
		if q.erase(p.X+i, p.Y) {
			return true
		}
	}
	return false
}

// Term is a terminal with an unbounded screen.
type Term struct {
	X, Y   int
	Attrs  Attrs
	Log    []Print
	Hidden bool
	Alt    bool
	Paste  bool
	pend   []byte
	Bytes  int
}

var _ io.Writer = (*Term)(nil)

func (t *Term) Read([]byte) (int, error) { return 0, io.EOF }

func (t *Term) Write(p []byte) (int, error) {
	t.pend = append(t.pend, p...)
	t.Bytes += len(p)
	return len(p), nil
}

// Process interprets everything written so far.
func (t *Term) Process() {
	b := t.pend
	t.pend = nil
	for i := 0; i < len(b); {
		if b[i] != 0x1b {
			j := i
			for j < len(b) && b[j] != 0x1b {
				j++
			}
			g := uniseg.NewGraphemes(string(b[i:j]))
			for g.Next() {
				w := g.Width()
				if w == 0 {
					continue
				}
				t.Log = append(t.Log, Print{X: t.X, Y: t.Y, W: w, Sym: g.Str(), Attrs: t.Attrs})
				t.X += w
			}
			i = j
			continue
		}
		zzsym.Assert(i+1 < len(b) && b[i+1] == '[', "a malformed escape sequence was written")
		i += 2
		private := i < len(b) && b[i] == '?'
		if private {
			i++
		}
		params := []int{0}
		given := []bool{false}
		for i < len(b) && (b[i] >= '0' && b[i] <= '9' || b[i] == ';') {
			if b[i] == ';' {
				params, given = append(params, 0), append(given, false)
			} else {
				n := len(params) - 1
				params[n] = params[n]*10 + int(b[i]-'0')
				given[n] = true
			}
			i++
		}
		zzsym.Assert(i < len(b), "a truncated escape sequence was written")
		t.csi(private, params, given, b[i])
		i++
	}
}

func (t *Term) csi(private bool, p []int, given []bool, final byte) {
	switch {
	case private && (final == 'h' || final == 'l'):
		switch p[0] {
		case 25:
			t.Hidden = final == 'l'
		case 1049:
			t.Alt = final == 'h'
		case 2004:
			t.Paste = final == 'h'
		default:
			zzsym.Fail("an unknown private mode was set")
		}
	case private:
		zzsym.Fail("an unknown private sequence was written")
	case final == 'H':
		zzsym.Assert(len(p) == 2 && p[0] >= 1 && p[1] >= 1, "a malformed cursor movement was written")
		t.Y, t.X = p[0]-1, p[1]-1
	case final == 'm':
		t.sgr(p)
	case final == 'J' && len(p) == 1 && p[0] == 2:
		t.Log = nil
	case final == 'J' && len(p) == 1 && p[0] == 0:
		cx, cy := t.X, t.Y
		t.Erase(func(x, y int) bool { return y > cy || y == cy && x >= cx })
	case final == 'J' && len(p) == 1 && p[0] == 1:
		cx, cy := t.X, t.Y
		t.Erase(func(x, y int) bool { return y < cy || y == cy && x <= cx })
	case final == 'K' && len(p) == 1 && p[0] <= 2:
		cx, cy, mode := t.X, t.Y, p[0]
		t.Erase(func(x, y int) bool {
			return y == cy && (mode == 2 || mode == 0 && x >= cx || mode == 1 && x <= cx)
		})
	default:
		zzsym.Fail("an unknown sequence was written")
	}
}

var sgrOn = map[int]bento.Modifier{
	1: bento.ModifierBold, 2: bento.ModifierDim, 3: bento.ModifierItalic, 4: bento.ModifierUnderlined, 5: bento.ModifierSlowBlink,
	6: bento.ModifierRapidBlink, 7: bento.ModifierReversed, 8: bento.ModifierHidden, 9: bento.ModifierCrossedOut,
}

var sgrOff = map[int]bento.Modifier{
	22: bento.ModifierBold | bento.ModifierDim, 23: bento.ModifierItalic, 24: bento.ModifierUnderlined,
	25: bento.ModifierSlowBlink | bento.ModifierRapidBlink, 27: bento.ModifierReversed, 28: bento.ModifierHidden, 29: bento.ModifierCrossedOut,
}

func (t *Term) sgr(p []int) {
	for i := 0; i < len(p); i++ {
		n := p[i]
		switch {
		case n == 0:
			t.Attrs = Attrs{}
		case n >= 1 && n <= 9:
			t.Attrs.Mod |= sgrOn[n]
		case n >= 22 && n <= 29 && n != 26:
			t.Attrs.Mod &^= sgrOff[n]
		case n >= 30 && n <= 37:
			t.Attrs.Fg = Paint{1, n - 30, 0, 0}
		case n == 39:
			t.Attrs.Fg = Paint{}
		case n >= 40 && n <= 47:
			t.Attrs.Bg = Paint{1, n - 40, 0, 0}
		case n == 49:
			t.Attrs.Bg = Paint{}
		case n >= 90 && n <= 97:
			t.Attrs.Fg = Paint{1, n - 82, 0, 0}
		case n >= 100 && n <= 107:
			t.Attrs.Bg = Paint{1, n - 92, 0, 0}
		case n == 38 || n == 48:
			var c Paint
			if i+2 < len(p) && p[i+1] == 5 {
				c = Paint{2, p[i+2], 0, 0}
				i += 2
			} else if i+4 < len(p) && p[i+1] == 2 {
				c = Paint{3, p[i+2], p[i+3], p[i+4]}
				i += 4
			} else {
				zzsym.Fail("a malformed colour was written")
			}
			if n == 38 {
				t.Attrs.Fg = c
			} else {
				t.Attrs.Bg = c
			}
		default:
			zzsym.Fail("an unknown attribute was written")
		}
	}
}

// At is what the screen shows in a column: a cluster whose every column is
// still intact, or nothing. What is left of a cluster that was overwritten in
// part is up to the terminal.
func (t *Term) At(x, y int) (Print, bool) {
	for i := len(t.Log) - 1; i >= 0; i-- {
		p := t.Log[i]
		if p.erase != nil {
			if p.erase(x, y) {
				break
			}
			continue
		}
		if p.Y != y || x < p.X || x >= p.X+p.W {
			continue
		}
		if p.W > 1 {
			for _, q := range t.Log[i+1:] {
				if q.touches(p) {
					return Print{X: x, Y: y, W: 1, Sym: "undefined"}, true
				}
			}
		}
		return p, true
	}
	return Print{X: x, Y: y, W: 1, Sym: " "}, false
}

// Shown is how a terminal shows a colour under a colour profile.
func Shown(p termenv.Profile, c bento.Color) Paint {
	if p == termenv.Ascii {
		return Paint{}
	}
	switch v := p.Convert(c).(type) {
	case termenv.ANSIColor:
		return Paint{1, int(v), 0, 0}
	case termenv.ANSI256Color:
		return Paint{2, int(v), 0, 0}
	case termenv.RGBColor:
		if len(v) == 7 {
			return Paint{3, hex(v[1])*16 + hex(v[2]), hex(v[3])*16 + hex(v[4]), hex(v[5])*16 + hex(v[6])}
		}
	}
	return Paint{}
}

func hex(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	}
	return int(b-'A') + 10
}
