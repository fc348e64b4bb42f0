package widget

import (
	"strings"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C47

// brokenUp is any string of n runes, breaks and carriage returns, and the
// lines that make it up.
func brokenUp(n int) (s string, lines []string) {
	lines = []string{""}
	add := func(r string) {
		s += r
		lines[len(lines)-1] += r
	}
	for i := 0; i < n; i++ {
		if zzsym.Choice("return", 2) == 1 {
			s += "\r\n"
			lines = append(lines, "")
			continue
		}
		if r := zzsym.Rune("r", "line"); r == '\n' {
			s += "\n"
			lines = append(lines, "")
		} else {
			add(string(r))
		}
	}
	// a final line break ends the last line
	if len(lines) > 1 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	return
}

func isText(t textwidget.Text, lines []string, what string) {
	zzsym.Assert(t.Height() == len(lines) && len(t.Lines) == len(lines) && t.Lines.Height() == len(lines), what+": another number of lines")
	joined, width := "", 0
	for i, l := range lines {
		zzsym.Assert(t.Lines[i].String() == l, what+": a line is another one")
		w := 0
		for _, r := range l {
			if r >= 0x1100 {
				w++
			}
			w++
		}
		width = max(width, w)
		zzsym.Assert(t.Lines[i].Width() == w, what+": a line is of another width")
		if i > 0 {
			joined += "\n"
		}
		joined += l
	}
	zzsym.Assert(t.String() == joined && t.Lines.String() == joined, what+": the text reads as another one")
	zzsym.Assert(t.Width() == width && t.Lines.Width() == width, what+": the text is of another width")
}

// C47_Lines: a text made of a string holds the string's lines, however the
// string was handed over.
func C47_Lines() {
	n := zzsym.Choice("len", zzsym.Bound("pieces", 4, 6))
	s, lines := brokenUp(n)
	isText(textwidget.NewTextStr(s), lines, "a text made of a string")
	switch zzsym.Choice("how", 3) {
	case 0:
		isText(textwidget.NewText(textwidget.NewLinesStr(s)...), lines, "lines made of a string")
		// reading it back gives the same text
		if s != "" {
			t := textwidget.NewTextStr(s)
			again := textwidget.NewTextStr(t.String() + "\n")
			isText(again, lines, "a text made of a text's string")
		}
	case 1:
		isText(textwidget.NewText(textwidget.NewLinesStr(lines...)...), trimmed(lines), "lines made of strings")
	case 2:
		t := textwidget.NewText(textwidget.NewLineStr("x"), textwidget.NewLine(textwidget.NewSpan("y"), textwidget.NewSpan("z")))
		isText(t.WithLinesStr(s), append([]string{"x", "yz"}, lines...), "a text with lines added")
		isText(t, []string{"x", "yz"}, "a text that others were made of")
	}
}

// C47_Line: a line made of a string holds the string's lines one after
// another.
func C47_Line() {
	n := zzsym.Choice("len", zzsym.Bound("pieces", 4, 6))
	s, lines := brokenUp(n)
	l := textwidget.NewLineStr(s)
	if s == "" {
		zzsym.Assert(l.String() == "" && l.Width() == 0, "an empty line is not empty")
		return
	}
	zzsym.Assert(len(l.Spans) == len(lines), "a line made of lines is another number of spans")
	all := ""
	for i, x := range lines {
		zzsym.Assert(l.Spans[i].Content == x && l.Spans[i].Style == NewStyle(), "a line made of lines holds another one")
		all += x
	}
	zzsym.Assert(l.String() == all, "a line made of lines does not read as them")
}

// C47_Nothing: what has no parts reads as nothing.
func C47_Nothing() {
	t := textwidget.NewText()
	zzsym.Assert(t.String() == "" && t.Height() == 0 && t.Width() == 0, "a text of no lines is not empty")
	var ls textwidget.Lines
	zzsym.Assert(ls.String() == "" && ls.Height() == 0 && ls.Width() == 0, "no lines are not empty")
	ls = textwidget.NewLines()
	zzsym.Assert(ls.String() == "" && ls.Height() == 0 && ls.Width() == 0, "no lines are not empty")
	l := textwidget.NewLine()
	zzsym.Assert(l.String() == "" && l.Width() == 0, "a line of no spans is not empty")
	var zt textwidget.Text
	var zl textwidget.Line
	var zs textwidget.Span
	zzsym.Assert(zt.String() == "" && zl.String() == "" && zs.String() == "" && zs.Width() == 0, "the zero value is not empty")
	w, h := zzsym.Choice("w", 3), zzsym.Choice("h", 3)
	page := Rect{Width: w, Height: h}
	for i, r := range []func(Rect, *Buffer){t.Render, l.Render, textwidget.NewSpan("").Render} {
		a, b := NewBufferFilled(page, under), NewBufferFilled(page, under)
		r(page, &a)
		same(&a, &b, []string{"a text of no lines", "a line of no spans", "an empty span"}[i]+" shows something")
	}
}

// trimmed is what stays of lines that are joined and split again.
func trimmed(lines []string) []string {
	if len(lines) > 1 && lines[len(lines)-1] == "" {
		return lines[:len(lines)-1]
	}
	return lines
}

// C47_Long: lines of any length stay whole.
func C47_Long() {
	n := zzsym.Concrete(zzsym.Int("length", 65530, 65538))
	a := strings.Repeat("a", n)
	t := textwidget.NewTextStr(a + "\nb")
	zzsym.Assert(t.Height() == 2 && t.Lines[0].String() == a && t.Lines[1].String() == "b", "a long line is lost")
	l := textwidget.NewLineStr(a)
	zzsym.Assert(l.String() == a, "a long line is lost")
}

// C47_Spans: a line holds the spans it was given, in order.
func C47_Spans() {
	var want []textwidget.Span
	str := ""
	width := 0
	more := func() textwidget.Span {
		u := anyUnit(3)
		if zzsym.Choice("empty", 2) == 1 {
			u = unit{}
		}
		s := textwidget.NewSpan(u.s)
		zzsym.Assert(s.String() == u.s && s.Width() == u.w && s.Style == NewStyle(), "a span is not its content")
		if zzsym.Choice("styled", 2) == 1 {
			s = s.WithStyle(spanStyles[0])
			zzsym.Assert(s.Style == spanStyles[0] && s.Content == u.s, "a span does not have the style it was given")
			s = s.WithStylePatch(spanStyles[1])
			zzsym.Assert(s.Style == spanStyles[0].Patched(spanStyles[1]) && s.Content == u.s, "a span's style is not patched")
		}
		str += u.s
		width += u.w
		want = append(want, s)
		return s
	}
	l := textwidget.NewLine(more())
	switch zzsym.Choice("how", 4) {
	case 0:
		l = l.WithSpans(more(), more())
	case 1:
		l = l.WithSpans(more()).WithSpans()
	case 2:
		l = l.WithSpansStr(str, "xy")
		want = append(want, textwidget.NewSpan(str), textwidget.NewSpan("xy"))
		str, width = str+str+"xy", width+width+2
	case 3:
		t := textwidget.NewText()
		if zzsym.Choice("lines", 2) == 1 {
			t = textwidget.NewText(textwidget.NewLineStr("above"), l)
			textwidget.AppendTextSpans(&t, more(), more())
			zzsym.Assert(t.Height() == 2 && t.Lines[0].String() == "above", "adding spans to a text changes another line")
		} else {
			textwidget.AppendTextSpans(&t, want...)
			zzsym.Assert(t.Height() == 1, "adding spans to a text without lines does not make one")
		}
		l = t.Lines[t.Height()-1]
	}
	zzsym.Assert(len(l.Spans) == len(want), "a line does not hold its spans")
	for i := range want {
		zzsym.Assert(l.Spans[i] == want[i], "a line does not hold its spans")
	}
	zzsym.Assert(l.String() == str && l.Width() == width, "a line does not read as its spans")
}

// C47_Buffer: the buffer made of lines has room for exactly them and shows
// them.
func C47_Buffer() {
	n := zzsym.Choice("lines", 4)
	var ls textwidget.Lines
	var us [][]unit
	w := 0
	for i := 0; i < n; i++ {
		if i == 0 {
			spans, u := anySpans(zzsym.Bound("graphemes", 3, 4), 3)
			ls = append(ls, textwidget.NewLine(spans...).WithStyle(lineStyle))
			us = append(us, u)
		} else {
			var u []unit
			s := ""
			for k := zzsym.Choice("len", 3); k > 0; k-- {
				u = append(u, anyUnit(1))
				s += u[len(u)-1].s
			}
			ls = append(ls, textwidget.NewLineStr(s))
			us = append(us, u)
		}
		w = max(w, total(us[i]))
	}
	b := ls.NewBuffer()
	zzsym.Assert(b.Area() == Rect{Width: w, Height: n}, "a buffer made of lines is not of their size")
	for y, l := range us {
		x := 0
		for _, u := range l {
			want := NewCell(u.s)
			if y == 0 {
				want.SetStyle(lineStyle)
				want.SetStyle(u.style)
			}
			zzsym.Assert(*b.CellAt(NewPosition(x, y)) == want, "a buffer made of lines does not show them")
			for i := 1; i < u.w; i++ {
				zzsym.Assert(*b.CellAt(NewPosition(x+i, y)) == NewEmptyCell(), "the rest of a wide grapheme is not blank")
			}
			x += u.w
			zzsym.Cover("shown")
		}
		for ; x < w; x++ {
			zzsym.Assert(*b.CellAt(NewPosition(x, y)) == NewEmptyCell(), "a buffer made of lines shows something beside them")
			zzsym.Cover("blank")
		}
	}
}

// C47_Align: the alignments and styles that texts, lines and paragraphs are
// given are the ones they have.
func C47_Align() {
	style := NewStyle().WithForeground(termenv.ANSIColor(zzsym.Int("fg", 0, 15)))
	l := textwidget.NewLineStr("ab").WithStyle(style)
	t := textwidget.NewTextStr("ab\ncd").WithStyle(style)
	zzsym.Assert(l.Alignment == AlignmentNone && t.Alignment == AlignmentNone, "there is an alignment though none was given")
	var want Alignment
	switch zzsym.Choice("align", 4) {
	case 0:
		l, t, want = l.Left(), t.Left(), AlignmentLeft
	case 1:
		l, t, want = l.Center(), t.Center(), AlignmentCenter
	case 2:
		l, t, want = l.Right(), t.Right(), AlignmentRight
	case 3:
		want = anyAlign()
		l, t = l.WithAlignment(want), t.WithAlignment(want)
	}
	zzsym.Assert(l.Alignment == want && t.Alignment == want, "the alignment is another one than given")
	zzsym.Assert(l.Style == style && t.Style == style && l.String() == "ab" && t.String() == "ab\ncd", "an alignment changes something else")
}
