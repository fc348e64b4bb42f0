package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/inputwidget"
)

// editor is a plain editor: a list of graphemes and a cursor between them.
type editor struct {
	us []unit
	at int
}

func (e *editor) insert(us []unit) {
	var l []unit
	l = append(l, e.us[:e.at]...)
	l = append(l, us...)
	l = append(l, e.us[e.at:]...)
	e.us = l
	e.at += len(us)
}

func (e *editor) cut(from int) {
	var l []unit
	l = append(l, e.us[:from]...)
	l = append(l, e.us[e.at:]...)
	e.us, e.at = l, from
}

func concat(us []unit) string {
	s := ""
	for _, u := range us {
		s += u.s
	}
	return s
}

// anyContent is k graphemes to insert.
func anyContent(k, kinds int) (us []unit) {
	for i := 0; i < k; i++ {
		switch zzsym.Choice("kind", kinds) {
		case 0:
			us = append(us, unit{s: string(zzsym.Rune("n", "ascii")), w: 1})
		case 1:
			r := zzsym.Rune("s", "blank")
			// a space that does not break is part of a word
			us = append(us, unit{s: string(r), w: 1, space: r != '\u00a0'})
		case 2:
			us = append(us, unit{s: string(zzsym.Rune("c", "cjk")), w: 2})
		case 3:
			us = append(us, unit{s: "e\u0301", w: 1})
		}
	}
	return us
}

const editOps = 16

// edit does the same to a state and to the plain editor.
func edit(s *inputwidget.State, e *editor, op, kinds int) {
	key := func(k Key, want bool) {
		cmd, ok := s.TryUpdate(KeyMsg(k))
		zzsym.Assert(ok == want && cmd == nil, "a key is not handled as it should be")
	}
	switch op {
	case 0, 1:
		us := anyContent(zzsym.Choice("insert", zzsym.Bound("insert", 3, 4)), kinds)
		if op == 0 {
			s.Append(concat(us))
		} else {
			key(Key{Type: KeyRunes, Runes: []rune(concat(us))}, true)
		}
		e.insert(us)
	case 2:
		key(Key{Type: KeySpace, Runes: []rune{' '}}, true)
		e.insert([]unit{{s: " ", w: 1, space: true}})
	case 3, 4, 5:
		switch op {
		case 3:
			s.DeleteUnderCursor()
		case 4:
			key(Key{Type: KeyBackspace}, true)
		case 5:
			key(Key{Type: KeyDelete}, true)
		}
		if e.at > 0 {
			e.cut(e.at - 1)
		}
	case 6, 7:
		if op == 6 {
			s.DeleteWordUnderCursor()
		} else {
			key(Key{Type: KeyCtrlW}, true)
		}
		from := e.at
		for from > 0 && e.us[from-1].space {
			from--
		}
		for from > 0 && !e.us[from-1].space {
			from--
		}
		e.cut(from)
	case 8:
		s.DeleteLine()
		e.us, e.at = nil, 0
	case 9, 10:
		if op == 9 {
			s.MoveCursorLeft()
		} else {
			key(Key{Type: KeyLeft}, true)
		}
		e.at = max(0, e.at-1)
	case 11, 12:
		if op == 11 {
			s.MoveCursorRight()
		} else {
			key(Key{Type: KeyRight}, true)
		}
		e.at = min(len(e.us), e.at+1)
	case 13:
		key(Key{Type: KeyCtrlA}, true)
		e.at = 0
	case 14:
		key(Key{Type: KeyCtrlE}, true)
		e.at = len(e.us)
	case 15:
		key(Key{Type: []KeyType{KeyUp, KeyEnter, KeyEsc, KeyTab, KeyCtrlC, KeyShiftUp}[zzsym.Choice("other", 6)]}, false)
	}
}

// agree compares a state with the plain editor; a mark at the cursor shows
// where it is. The state is not used any more afterwards.
func (e *editor) agree(s inputwidget.State) {
	zzsym.Assert(s.String() == concat(e.us), "the text is not what the edits make of it")
	s.Append("\u2503")
	zzsym.Assert(s.String() == concat(e.us[:e.at])+"\u2503"+concat(e.us[e.at:]), "the cursor is not where the edits leave it")
}

// anyEditor is a text with the cursor anywhere.
func anyEditor(k, kinds int) (inputwidget.State, *editor) {
	e := &editor{us: anyContent(k, kinds)}
	s := inputwidget.NewState()
	s.Append(concat(e.us))
	e.at = zzsym.Concrete(zzsym.Int("at", 0, len(e.us)))
	for i := len(e.us); i > e.at; i-- {
		s.MoveCursorLeft()
	}
	return s, e
}

// C30_Step applies one edit to any text and cursor.
func C30_Step() {
	kinds := zzsym.Bound("kinds", 3, 4)
	s, e := anyEditor(zzsym.Choice("len", zzsym.Bound("len", 4, 6)), kinds)
	edit(&s, e, zzsym.Choice("op", editOps), kinds)
	e.agree(s)
	zzsym.Cover("step")
}

// C30_Words deletes words from longer texts.
func C30_Words() {
	s, e := anyEditor(zzsym.Choice("len", zzsym.Bound("len", 7, 9)), 2)
	edit(&s, e, 6, 2)
	zzsym.Assert(s.String() == concat(e.us), "the text is not what the edits make of it")
	edit(&s, e, 6, 2)
	e.agree(s)
	zzsym.Cover("words")
}

// C30_History applies several edits to a short text.
func C30_History() {
	s, e := anyEditor(zzsym.Choice("len", 3), 2)
	for i := zzsym.Bound("edits", 3, 4); i > 0; i-- {
		edit(&s, e, []int{1, 2, 4, 7, 8, 10, 12, 13, 14}[zzsym.Choice("op", 9)], 2)
	}
	e.agree(s)
	zzsym.Cover("history")
}

// C30_Render: rendering does not change the text or the cursor.
func C30_Render() {
	s, e := anyEditor(zzsym.Choice("len", 5), 3)
	w := zzsym.Int("w", 0, 4)
	shown(4, 1, func(_ Rect, b *Buffer) {
		inputwidget.New().RenderStateful(Rect{Width: w, Height: 1}, b, &s)
	})
	e.agree(s)
	zzsym.Cover("rendered")
}

// ---- rendering

var cursorStyle = NewStyle().Underlined()

func look(in inputwidget.Input, s *inputwidget.State, w, h int) *Buffer {
	return shown(w, h, func(a Rect, b *Buffer) { in.WithCursorStyle(cursorStyle).RenderStateful(a, b, s) })
}

// check reads the rendered input back from row y.
func (e *editor) check(b *Buffer, y, w int, prompt []unit, a Alignment) {
	x := 0
	for x < w && b.CellAt(NewPosition(x, y)).Symbol == "." {
		x++
	}
	start := x
	pw := total(prompt)
	if pw >= w {
		// no room beside the prompt
		return
	}
	for _, u := range prompt {
		zzsym.Assert(b.CellAt(NewPosition(x, y)).Symbol == u.s, "the prompt is not shown")
		x += u.w
	}
	// find the marked cell
	mark, marks := -1, 0
	for i := 0; i < w; i++ {
		if b.CellAt(NewPosition(i, y)).Modifier&ModifierUnderlined != 0 {
			mark = i
			marks++
		}
	}
	zzsym.Assert(marks == 1, "not exactly one cell is marked as the cursor")
	zzsym.Assert(mark >= x, "the cursor is in the prompt")
	// what is before the mark are the graphemes before the cursor
	first := e.at
	at := mark
	for at > x {
		zzsym.Assert(first > 0, "more is shown before the cursor than there is")
		first--
		at -= e.us[first].w
		zzsym.Assert(at >= x, "a grapheme is cut")
		zzsym.Assert(b.CellAt(NewPosition(at, y)).Symbol == e.us[first].s, "the text before the cursor is not what is shown before it")
	}
	// the mark is the next grapheme or a blank
	c := b.CellAt(NewPosition(mark, y)).Symbol
	last := e.at
	at = mark + 1
	if last < len(e.us) && c == e.us[last].s {
		at = mark + e.us[last].w
		last++
		zzsym.Cover("on")
	} else {
		zzsym.Assert(c == " ", "the cursor shows something else than the next grapheme or a blank")
		zzsym.Cover("end")
	}
	end := at
	for at < w && last < len(e.us) && b.CellAt(NewPosition(at, y)).Symbol == e.us[last].s {
		at += e.us[last].w
		last++
		end = at
	}
	for ; at < w; at++ {
		zzsym.Assert(*b.CellAt(NewPosition(at, y)) == under, "something is shown behind the text")
	}
	if pw+total(e.us)+1 <= w {
		zzsym.Assert(first == 0 && last == len(e.us), "the text is not shown whole although there is room")
		zzsym.Cover("whole")
	} else {
		zzsym.Cover("part")
	}
	zzsym.Assert(end <= w, "a grapheme is cut")
	switch a {
	case AlignmentRight:
		zzsym.Assert(end == w, "a right-aligned input does not end at the right")
	case AlignmentCenter:
		d := start - (w - end)
		zzsym.Assert(d >= -1 && d <= 1, "a centred input is not in the middle")
	default:
		zzsym.Assert(start == 0, "an input does not start at the left")
	}
}

var prompts = [][]unit{nil, {{s: ">", w: 1}}, {{s: "\u4e2d", w: 2}, {s: ">", w: 1}}}

func letters(k int) (us []unit) {
	for i := 0; i < k; i++ {
		r := zzsym.Rune("n", "ascii")
		zzsym.Assume(r != '.')
		us = append(us, unit{s: string(r), w: 1})
	}
	return us
}

func mixed(k int) (us []unit) {
	for i := 0; i < k; i++ {
		if zzsym.Choice("wide", 2) == 1 {
			us = append(us, unit{s: string(zzsym.Rune("c", "cjk")), w: 2})
		} else {
			us = append(us, letters(1)...)
		}
	}
	return us
}

func put(us []unit, at int) (inputwidget.State, *editor) {
	s := inputwidget.NewState()
	s.Append(concat(us))
	for i := len(us); i > at; i-- {
		s.MoveCursorLeft()
	}
	return s, &editor{us, at}
}

// C31_Once renders any text with the cursor anywhere.
func C31_Once() {
	us := mixed(zzsym.Choice("len", zzsym.Bound("len", 5, 6)))
	s, e := put(us, zzsym.Concrete(zzsym.Int("at", 0, len(us))))
	p := prompts[zzsym.Choice("prompt", 3)]
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 6, 9)))
	a := anyAlign()
	b := look(inputwidget.New().WithPrompt(concat(p)).WithAlignment(a), &s, w, 1)
	e.check(b, 0, w, p, a)
}

// C31_Scrolled renders between edits and moves.
func C31_Scrolled() {
	us := mixed(zzsym.Choice("len", zzsym.Bound("len", 5, 6)))
	s, e := put(us, zzsym.Concrete(zzsym.Int("at", 0, len(us))))
	p := prompts[zzsym.Choice("prompt", 2)]
	w := 2 + zzsym.Choice("w", zzsym.Bound("width", 3, 5))
	in := inputwidget.New().WithPrompt(concat(p))
	for i := zzsym.Bound("steps", 2, 3); i > 0; i-- {
		look(in, &s, w, 1)
		switch zzsym.Choice("op", 6) {
		case 0:
			n := 1 + zzsym.Choice("times", 2)
			for ; n > 0; n-- {
				s.MoveCursorLeft()
				e.at = max(0, e.at-1)
			}
		case 1:
			n := 1 + zzsym.Choice("times", 2)
			for ; n > 0; n-- {
				s.MoveCursorRight()
				e.at = min(len(e.us), e.at+1)
			}
		case 2:
			s.DeleteUnderCursor()
			if e.at > 0 {
				e.cut(e.at - 1)
			}
		case 3:
			us := letters(1)
			s.Append(concat(us))
			e.insert(us)
		case 4:
			s.MoveCursorBegin()
			e.at = 0
		case 5:
			w = 2 + zzsym.Choice("w", zzsym.Bound("width", 3, 5))
		}
	}
	e.check(look(in, &s, w, 1), 0, w, p, AlignmentLeft)
}

// C31_Long scrolls through a longer text.
func C31_Long() {
	n := zzsym.Bound("len", 8, 12)
	us := letters(n)
	k := zzsym.Int("wide", 0, n-1)
	us[zzsym.Concrete(k)] = unit{s: string(zzsym.Rune("c", "cjk")), w: 2}
	s, e := put(us, zzsym.Concrete(zzsym.Int("at", 0, n)))
	w := zzsym.Concrete(zzsym.Int("w", 2, zzsym.Bound("width", 6, 14)))
	in := inputwidget.New()
	look(in, &s, w, 1)
	to := zzsym.Concrete(zzsym.Int("to", 0, n))
	for ; e.at < to; e.at++ {
		s.MoveCursorRight()
	}
	for ; e.at > to; e.at-- {
		s.MoveCursorLeft()
	}
	e.check(look(in, &s, w, 1), 0, w, nil, AlignmentLeft)
}

// C31_Hidden renders without a cursor; C31_Placeholder an empty text.
func C31_Hidden() {
	us := letters(zzsym.Choice("len", 4))
	s, _ := put(us, zzsym.Concrete(zzsym.Int("at", 0, len(us))))
	s.ShowCursor(false)
	b := look(inputwidget.New(), &s, 5, 1)
	for x := 0; x < 5; x++ {
		want := under
		if x < len(us) {
			want.Symbol = us[x].s
		}
		zzsym.Assert(*b.CellAt(NewPosition(x, 0)) == want, "an input without cursor does not show just its text")
		zzsym.Cover("cell")
	}
}

func C31_Placeholder() {
	ph := letters(zzsym.Choice("len", 5))
	s := inputwidget.NewState()
	if zzsym.Choice("emptied", 2) == 1 {
		s.Append("a")
		s.DeleteUnderCursor()
	}
	w := zzsym.Concrete(zzsym.Int("w", 1, 6))
	st := NewStyle().Italic()
	b := look(inputwidget.New().WithPlaceholder(concat(ph)).WithPlaceholderStyle(st), &s, w, 1)
	for x := 0; x < w; x++ {
		want := under
		if x < len(ph) {
			want.Symbol = ph[x].s
			want.SetStyle(st)
		}
		if x == 0 {
			if len(ph) == 0 {
				want.Symbol = " "
			}
			want.SetStyle(cursorStyle)
		}
		zzsym.Assert(*b.CellAt(NewPosition(x, 0)) == want, "an empty input does not show its placeholder")
		zzsym.Cover("cell")
	}
}

// C31_Row places the input vertically.
func C31_Row() {
	us := letters(2)
	s, e := put(us, 1)
	h := zzsym.Concrete(zzsym.Int("h", 1, zzsym.Bound("height", 5, 9)))
	k := zzsym.Choice("vertical", 4)
	in := inputwidget.New()
	lo, hi := 0, 0
	switch k {
	case 1:
		in = in.Top()
	case 2:
		in = in.Middle()
		lo, hi = (h-1)/2, h/2
	case 3:
		in = in.Bottom()
		lo, hi = h-1, h-1
	}
	b := look(in, &s, 4, h)
	row := -1
	for y := 0; y < h; y++ {
		if b.CellAt(NewPosition(0, y)).Symbol != "." {
			zzsym.Assert(row < 0, "an input is drawn on two rows")
			row = y
		}
	}
	zzsym.Assert(row >= lo && row <= hi, "an input is not drawn on its row")
	e.check(b, row, 4, nil, AlignmentLeft)
}

// C31_Nothing has characters in the text that show nothing: pasted line
// breaks, tabs, zero-width spaces, combining marks typed by themselves.
func C31_Nothing() {
	k := 1 + zzsym.Choice("len", zzsym.Bound("len", 3, 4))
	s := inputwidget.NewState()
	var us []unit
	alone := false
	for i := 0; i < k; i++ {
		u := unit{s: []string{"\n", "\t", "\u200b", "\u0301"}[zzsym.Choice("nothing", zzsym.Bound("nothings", 2, 4))]}
		switch zzsym.Choice("kind", 3) {
		case 0:
			u = unit{s: string(rune('a' + i)), w: 1}
		case 1:
			u = unit{s: "\u4e2d", w: 2}
		default:
			alone = alone || u.s == "\u0301"
		}
		s.Append(u.s)
		us = append(us, u)
	}
	at := zzsym.Choice("at", k+1)
	for i := k; i > at; i-- {
		s.MoveCursorLeft()
	}
	w := 3 + zzsym.Choice("w", 6)
	b := look(inputwidget.New(), &s, w, 1)
	marks, mark := 0, 0
	for x := 0; x < w; x++ {
		if b.CellAt(NewPosition(x, 0)).Modifier&ModifierUnderlined != 0 {
			marks++
			mark = x
		}
	}
	zzsym.Assert(marks == 1, "not exactly one cell is marked as the cursor")
	if total(us)+1 > w || alone {
		return
	}
	var show []unit
	for i := 0; i <= k; i++ {
		if i == at {
			zzsym.Assert(mark == total(show), "the cursor is not where the text is edited")
			if i == k || us[i].w == 0 {
				show = append(show, unit{s: " ", w: 1})
			}
		}
		if i < k && us[i].w > 0 {
			show = append(show, us[i])
		}
	}
	x := 0
	for _, u := range show {
		zzsym.Assert(bare(b.CellAt(NewPosition(x, 0)).Symbol) == u.s, "the text is not shown whole although there is room")
		x += u.w
	}
	zzsym.Cover("whole")
}
