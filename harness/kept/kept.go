// Package kept decides whether what a call returned stays as it was.
package kept

import (
	"context"
	"io"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// ---------------------------------------------------------------- C55

func equal[T comparable](a, b []T, what string) {
	zzsym.Assert(len(a) == len(b), what)
	for i := range a {
		zzsym.Assert(a[i] == b[i], what)
	}
}

func copied[T any](s []T) []T { return append([]T(nil), s...) }

// kept calls for a result, for others, and for the same result again, and
// alters what it was given.
func kept[T comparable](call, other func() []T) {
	got := call()
	was := copied(got)
	o := other()
	oWas := copied(o)
	equal(got, was, "a later call changed what an earlier one had returned")
	again := call()
	equal(got, was, "the same call changed what it had returned before")
	equal(again, was, "the same call returns something else after another one")
	equal(o, oWas, "a later call changed what an earlier one had returned")
	var none T
	for i := range got {
		got[i] = none
	}
	_ = append(append(got[:0], o...), none, none)
	equal(o, oWas, "a result shares its elements with another one")
	equal(again, was, "a result shares its elements with another one")
	equal(call(), was, "what a caller does to a result changes later ones")
	if len(was) > 0 && len(oWas) > 0 {
		zzsym.Cover("two results")
	}
}

func someRect(name string) Rect {
	return Rect{Position: NewPosition(zzsym.Int(name+".x", -1000, 1000), zzsym.Int(name+".y", -1000, 1000)), Width: zzsym.Choice(name+".w", zzsym.Bound("side", 4, 7)), Height: zzsym.Choice(name+".h", zzsym.Bound("side", 4, 7))}
}

func C55_Rects() {
	a, b := someRect("a"), someRect("b")
	switch zzsym.Choice("slices", 3) {
	case 0:
		kept(a.Rows, b.Rows)
	case 1:
		kept(a.Columns, b.Columns)
	case 2:
		kept(a.Rows, b.Columns)
	}
}

func oneFrame(name string, w int) *Buffer {
	b := NewBufferEmpty(NewRect(w, 1))
	for x := 0; x < w; x++ {
		b.CellAt(NewPosition(x, 0)).SetSymbol(string(zzsym.Rune(name, "narrow"))).SetFg(termenv.ANSIColor(zzsym.Int(name+".fg", 0, 15)))
	}
	return &b
}

func cellsOf(b *Buffer) (s []Cell) {
	a := b.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			s = append(s, *b.CellAt(NewPosition(x, y)))
		}
	}
	return
}

// C55_Diff: the frames and what was returned for others stay as they are.
func C55_Diff() {
	w := zzsym.Bound("columns", 2, 3)
	a, b, c := oneFrame("a", w), oneFrame("b", w), oneFrame("c", w)
	ca, cb, cc := cellsOf(a), cellsOf(b), cellsOf(c)
	diff := func(a, b *Buffer) func() []PositionedCell {
		return func() []PositionedCell { return a.Diff(b) }
	}
	switch zzsym.Choice("other", 3) {
	case 0:
		kept(diff(a, b), diff(a, c))
	case 1:
		kept(diff(a, b), diff(b, c))
	case 2:
		kept(diff(a, b), diff(c, b))
	}
	equal(cellsOf(a), ca, "finding out what changed changes a frame")
	equal(cellsOf(b), cb, "finding out what changed changes a frame")
	equal(cellsOf(c), cc, "finding out what changed changes a frame")
}

// C55_Split: segments and spacers of one split, and of several.
func C55_Split() {
	cs := []Constraint{ConstraintLen(zzsym.Int("length", 0, 6)), ConstraintMin(1)}
	if zzsym.Choice("fill", 2) == 1 {
		cs[1] = ConstraintFill(1)
	}
	was := copied(cs)
	l := NewLayout(cs...).Horizontal().WithFlex([]Flex{FlexLegacy, FlexStart, FlexCenter, FlexSpaceBetween}[zzsym.Choice("flex", 4)])
	a := Rect{Position: NewPosition(2, 1), Width: 3 + zzsym.Choice("w", 3), Height: 2}
	b := Rect{Position: NewPosition(0, 5), Width: 4, Height: 1}
	other := l.Vertical().WithSpacing(SpacingSpace(1))
	switch zzsym.Choice("of", 3) {
	case 0:
		kept(func() []Rect { return l.Split(a) }, func() []Rect { return l.Split(b) })
	case 1:
		kept(func() []Rect { _, s := l.SplitWithSpacers(a); return s }, func() []Rect { _, s := other.SplitWithSpacers(a); return s })
	case 2:
		// an appended segment does not become a spacer
		seg, spc := l.SplitWithSpacers(a)
		s1, s2 := copied(seg), copied(spc)
		_ = append(append(seg, b, b), b)
		equal(spc, s2, "segments and spacers share their elements")
		_ = append(append(spc, b, b), b)
		equal(seg, s1, "segments and spacers share their elements")
		zzsym.Cover("two results")
	}
	for i := range cs {
		zzsym.Assert(l.Constraints[i] == was[i] && cs[i] == was[i], "a split changes the constraints")
	}
}

// C55_Graphemes: of spans and lines.
func C55_Graphemes() {
	st := NewStyle().Bold()
	s := textwidget.NewSpan(string(zzsym.Rune("a", "words")) + "b" + string(zzsym.Rune("c", "words"))).WithStyle(NewStyle().Red())
	t := textwidget.NewSpan("\u4e2dx" + string(zzsym.Rune("d", "narrow")))
	k, l := textwidget.NewLine(s, t), textwidget.NewLine(t, s, t).WithStyle(NewStyle().Italic())
	type graphemes = []textwidget.StyledGrapheme
	switch zzsym.Choice("of", 3) {
	case 0:
		kept(func() graphemes { return s.StyledGraphemes(st) }, func() graphemes { return t.StyledGraphemes(st) })
	case 1:
		kept(func() graphemes { return k.StyledGraphemes(st) }, func() graphemes { return l.StyledGraphemes(NewStyle()) })
	case 2:
		kept(func() graphemes { return k.StyledGraphemes(st) }, func() graphemes { return s.StyledGraphemes(st) })
	}
	zzsym.Assert(len(k.Spans) == 2 && k.Spans[0].Content == s.Content && k.Spans[1].Content == t.Content, "a line is changed")
}

// C55_Text: lines and spans made of strings.
func C55_Text() {
	a, b := string(zzsym.Rune("a", "line"))+"b\n"+string(zzsym.Rune("c", "line")), "x\n"+string(zzsym.Rune("d", "line"))+"\r\nz"
	strs := func(ls []textwidget.Line) (s []string) {
		for _, l := range ls {
			s = append(s, l.String())
			for _, p := range l.Spans {
				s = append(s, p.Content)
			}
		}
		return
	}
	of := []func(string) []textwidget.Line{
		func(s string) []textwidget.Line { return textwidget.NewLinesStr(s) },
		func(s string) []textwidget.Line { return textwidget.NewTextStr(s).Lines },
		func(s string) []textwidget.Line { return []textwidget.Line{textwidget.NewLineStr(s)} },
	}[zzsym.Choice("of", 3)]
	got := of(a)
	was := strs(got)
	o := of(b)
	oWas := strs(o)
	again := of(a)
	equal(strs(got), was, "a later call changed what an earlier one had returned")
	equal(strs(again), was, "the same call returns something else after another one")
	other := textwidget.NewSpan("other")
	for i := range got {
		for j := range got[i].Spans {
			got[i].Spans[j] = other
		}
		_ = append(got[i].Spans[:0], other, other, other)
	}
	for i := range got {
		got[i] = textwidget.NewLine(other)
	}
	_ = append(got[:0], got[0], got[0], got[0], got[0])
	equal(strs(o), oWas, "a result shares its elements with another one")
	equal(strs(again), was, "a result shares its elements with another one")
	equal(strs(of(a)), was, "what a caller does to a result changes later ones")
	zzsym.Cover("two results")
}

// pieces of input: each makes a message that holds runes, and what they are
var pieces = [][2]string{
	{" ", " "}, {"\x1b ", " "}, {"ab", "ab"}, {"\x1bq", "q"},
	{"\x1b[200~p\x1b[201~", "p"}, {"\x1b[200~v w\x1b[201~", "v w"}, {"\u4e2d", "\u4e2d"},
}

type chunks [][]byte

func (c *chunks) Read(p []byte) (int, error) {
	if len(*c) == 0 {
		return 0, io.EOF
	}
	n := copy(p, (*c)[0])
	*c = (*c)[1:]
	return n, nil
}

// C55_Messages: of keys, those before and those after. The caller alters some
// of them as soon as the next ones are there.
func C55_Messages() {
	n := zzsym.Bound("messages", 3, 4)
	var c chunks
	var want []string
	for i := 0; i < n; i++ {
		p := pieces[zzsym.Choice("piece", len(pieces))]
		if i == 0 || zzsym.Choice("read", 2) == 1 {
			c = append(c, nil)
		} else if len(want) > 0 && want[i-1] != " " && p[1] != " " && p[0][0] != 0x1b {
			zzsym.Assume(false) // one text
		}
		c[len(c)-1] = append(c[len(c)-1], p[0]...)
		want = append(want, p[1])
	}
	before := append(chunks(nil), c...)
	decode := func(c chunks) (ks []KeyMsg) {
		msgs := make(chan Msg, n+2)
		zzsym.Assert(VerifReadInputs(context.Background(), msgs, &c) != nil, "the reader did not end with the input")
		close(msgs)
		for m := range msgs {
			k, ok := m.(KeyMsg)
			zzsym.Assert(ok, "another message")
			ks = append(ks, k)
		}
		return
	}
	is := func(ks []KeyMsg, from int, what string) {
		zzsym.Assert(len(ks) == n, "other messages")
		for i := from; i < n; i++ {
			zzsym.Assert(string(ks[i].Runes) == want[i], what)
		}
	}
	ks := decode(c)
	is(ks, 0, "a later message changed the runes of an earlier one")
	for i := range ks {
		for j := range ks[i].Runes {
			ks[i].Runes[j] = '_'
		}
		_ = append(ks[i].Runes, '_', '_', '_')
		is(ks, i+1, "messages share their runes")
	}
	is(decode(before), 0, "what a caller does to the runes of a message changes later ones")
	zzsym.Cover("messages")
}
