package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// unit is one grapheme of known width.
type unit struct {
	s     string
	w     int
	style Style
	space bool
}

// anyUnit is a narrow, a wide or a combined grapheme.
func anyUnit(kinds int) unit {
	switch zzsym.Choice("kind", kinds) {
	case 0:
		return unit{s: string(zzsym.Rune("n", "narrow")), w: 1}
	case 1:
		return unit{s: string(zzsym.Rune("c", "cjk")), w: 2}
	default:
		return unit{s: "e\u0301", w: 1}
	}
}

var lineStyle = NewStyle().WithForeground(termenv.ANSIRed).Bold().Dim()

var spanStyles = []Style{
	NewStyle().WithForeground(termenv.ANSIBlue),
	NewStyle().WithBackground(termenv.ANSIYellow).WithoutModifier(ModifierBold).Italic(),
}

// anySpans is up to k graphemes split into two spans.
func anySpans(k, kinds int) (spans []textwidget.Span, units []unit) {
	cut := zzsym.Choice("cut", k+1)
	n := cut + zzsym.Choice("rest", k+1-cut)
	a, b := "", ""
	for i := 0; i < n; i++ {
		u := anyUnit(kinds)
		if i < cut {
			a += u.s
			u.style = spanStyles[0]
		} else {
			b += u.s
			u.style = spanStyles[1]
		}
		units = append(units, u)
	}
	spans = append(spans, textwidget.NewSpan(a).WithStyle(spanStyles[0]), textwidget.NewSpan(b).WithStyle(spanStyles[1]))
	return
}

func total(us []unit) int {
	n := 0
	for _, u := range us {
		n += u.w
	}
	return n
}

// lay is the row of cells that a line shows at width w: symbols placed at
// columns, and the columns that have the style of the line.
func lay(us []unit, w int, a Alignment) (at []int, from, to int) {
	t := total(us)
	skip, indent := 0, 0
	over := max(0, t-w)
	room := max(0, w-t)
	switch a {
	case AlignmentCenter:
		skip, indent = over/2, room/2
	case AlignmentRight:
		skip, indent = over, room
	}
	x := indent - skip
	for _, u := range us {
		if x >= 0 && x+u.w <= w {
			at = append(at, x)
		} else {
			at = append(at, -1)
		}
		x += u.w
	}
	if t > w {
		return at, 0, w
	}
	return at, indent, indent + t
}

// shows compares one row with the line it should show.
func shows(b *Buffer, x0, y, w int, us []unit, a Alignment, base Style, l Style) {
	at, from, to := lay(us, w, a)
	if len(us) == 0 {
		to = from
	}
	covered := make([]bool, w)
	for i, u := range us {
		if at[i] < 0 {
			zzsym.Cover("cut")
			continue
		}
		want := under
		want.SetStyle(base)
		want.SetStyle(l)
		want.SetStyle(u.style)
		want.Symbol = u.s
		zzsym.Assert(*b.CellAt(NewPosition(x0+at[i], y)) == want, "a grapheme is not shown at its place with its style")
		for j := 0; j < u.w; j++ {
			covered[at[i]+j] = true
		}
		zzsym.Cover("shown")
	}
	for x := 0; x < w; x++ {
		if covered[x] {
			continue
		}
		want := under
		want.SetStyle(base)
		if x >= from && x < to {
			want.SetStyle(l)
		}
		zzsym.Assert(*b.CellAt(NewPosition(x0+x, y)) == want, "a cell beside the text changed")
		zzsym.Cover("blank")
	}
}

// C27_Line renders a line at any width and alignment.
func C27_Line() {
	max := zzsym.Bound("width", 5, 7)
	spans, us := anySpans(zzsym.Bound("graphemes", 3, 5), zzsym.Bound("kinds", 2, 3))
	w := zzsym.Int("w", 1, max)
	a := anyAlign()
	l := textwidget.NewLine(spans...).WithStyle(lineStyle).WithAlignment(a)
	zzsym.Assert(l.Width() == total(us), "the width of a line is not the width of its graphemes")
	b := NewBufferFilled(Rect{Position: NewPosition(1, 1), Width: max + 2, Height: 3}, under)
	area := Rect{Position: NewPosition(2, 2), Width: w, Height: 1 + zzsym.Choice("rows", 2)}
	l.Render(area, &b)
	w = zzsym.Concrete(w)
	shows(&b, 2, 2, w, us, a, NewStyle(), l.Style)
	for x := 2; x < 2+w; x++ {
		zzsym.Assert(*b.CellAt(NewPosition(x, 3)) == under, "a line draws below its row")
	}
}

// C27_Long renders a longer line of plain graphemes.
func C27_Long() {
	n := zzsym.Bound("graphemes", 7, 12)
	var us []unit
	s := ""
	for i := 0; i < n; i++ {
		u := unit{s: string(rune('a' + i)), w: 1}
		if i == 3 {
			u = unit{s: string(zzsym.Rune("c", "cjk")), w: 2}
		}
		us = append(us, u)
		s += u.s
	}
	w := zzsym.Int("w", 1, n+4)
	a := anyAlign()
	b := NewBufferFilled(Rect{Width: n + 4, Height: 1}, under)
	textwidget.NewLineStr(s).WithAlignment(a).Render(Rect{Width: w, Height: 1}, &b)
	w = zzsym.Concrete(w)
	shows(&b, 0, 0, w, us, a, NewStyle(), NewStyle())
}

// C27_Text renders lines on consecutive rows.
func C27_Text() {
	w, h := zzsym.Bound("width", 3, 5), 1+zzsym.Choice("height", 3)
	own := anyAlign()
	parent := anyAlign()
	var lines []textwidget.Line
	var us [][]unit
	n := zzsym.Choice("lines", 4)
	for i := 0; i < n; i++ {
		var l []unit
		s := ""
		for k := zzsym.Choice("len", zzsym.Bound("graphemes", 3, 5)); k > 0; k-- {
			u := anyUnit(1)
			u.style = spanStyles[i%2]
			l = append(l, u)
			s += u.s
		}
		us = append(us, l)
		line := textwidget.NewLine(textwidget.NewSpan(s).WithStyle(spanStyles[i%2])).WithStyle(lineStyle)
		if i == 1 {
			line = line.WithAlignment(own)
		}
		lines = append(lines, line)
	}
	base := NewStyle().WithBackground(termenv.ANSIMagenta).Reversed()
	t := textwidget.NewText(lines...).WithStyle(base).WithAlignment(parent)
	zzsym.Assert(t.Height() == n, "the height of a text is not its number of lines")
	b := NewBufferFilled(Rect{Position: NewPosition(1, 1), Width: w + 2, Height: h + 2}, under)
	t.Render(Rect{Position: NewPosition(2, 2), Width: w, Height: h}, &b)
	for y := 0; y < h; y++ {
		if y >= n {
			shows(&b, 2, 2+y, w, nil, AlignmentLeft, base, NewStyle())
			continue
		}
		a := parent
		if y == 1 && own != AlignmentNone {
			a = own
		}
		shows(&b, 2, 2+y, w, us[y], a, base, lineStyle)
	}
}

// C27_Print prints a line of limited width.
func C27_Print() {
	spans, us := anySpans(zzsym.Bound("graphemes", 3, 4), 3)
	x := zzsym.Int("x", 0, 2)
	limit := zzsym.Int("limit", 0, zzsym.Bound("limit", 5, 8))
	b := NewBufferFilled(Rect{Width: 7, Height: 1}, under)
	l := textwidget.NewLine(spans...).WithStyle(lineStyle)
	var nx, ny int
	if zzsym.Choice("span", 2) == 1 {
		us = us[:0:0]
		nx, ny = spans[0].Print(&b, x, 0, limit)
		zzsym.Assert(nx-x <= spans[0].Width(), "a span is printed wider than it is")
		zzsym.Assert(nx-x <= limit && ny == 0, "a span is printed wider than the limit")
		zzsym.Cover("span")
		return
	}
	nx, ny = l.Print(&b, x, 0, limit)
	x, limit = zzsym.Concrete(x), zzsym.Concrete(limit)
	limit = min(limit, 7-x)
	// graphemes are printed as far as they fit; a span that does not fit
	// whole ends there, and what follows may go into the column left
	at := x
	cut := false
	for _, u := range us {
		if at+u.w > x+limit {
			cut = true
		}
		if cut {
			break
		}
		want := under
		want.SetStyle(lineStyle)
		want.SetStyle(u.style)
		want.Symbol = u.s
		zzsym.Assert(*b.CellAt(NewPosition(at, 0)) == want, "a grapheme is not printed at its place with its style")
		at += u.w
		zzsym.Cover("printed")
	}
	zzsym.Assert(ny == 0 && nx >= at && nx <= x+limit, "printing does not end behind the last grapheme")
	if !cut {
		zzsym.Assert(nx == at, "printing does not end behind the last grapheme")
	}
	for i := 0; i < 7; i++ {
		if i < x || i >= max(nx, at) {
			zzsym.Assert(*b.CellAt(NewPosition(i, 0)) == under, "printing changed a cell beside the text")
		}
	}
}

// C27_Split builds a text from a string with line breaks.
func C27_Split() {
	n := zzsym.Choice("len", zzsym.Bound("runes", 4, 6))
	s := ""
	lines := []string{""}
	for i := 0; i < n; i++ {
		switch zzsym.Choice("kind", 3) {
		case 0:
			s += "\n"
			lines = append(lines, "")
		case 1:
			r := string(zzsym.Rune("n", "narrow"))
			s += r
			lines[len(lines)-1] += r
		case 2:
			r := string(zzsym.Rune("c", "cjk"))
			s += r
			lines[len(lines)-1] += r
		}
	}
	// a final line break ends the last line
	if len(lines) > 1 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	t := textwidget.NewTextStr(s)
	zzsym.Assert(t.Height() == len(lines), "a string is not split into its lines")
	for i, l := range lines {
		zzsym.Assert(t.Lines[i].String() == l, "a line of a string is not kept")
		zzsym.Cover("line")
	}
	joined := ""
	for i, l := range lines {
		if i > 0 {
			joined += "\n"
		}
		joined += l
	}
	zzsym.Assert(t.String() == joined, "the string of a text is not its lines")
}

// ---- paragraphs

// graph is one grapheme of a wrapped text and where it was found.
type graph struct {
	unit
	line     int
	row, col int
}

// anyWords is a text of n graphemes: letters, spaces, wide letters and line
// breaks.
func anyWords(n, kinds int) (string, []graph, int) {
	s := ""
	var gs []graph
	line := 0
	for i := 0; i < n; i++ {
		switch zzsym.Choice("kind", kinds) {
		case 0:
			r := zzsym.Rune("n", "ascii")
			zzsym.Assume(r != ' ' && r != '.')
			u := unit{s: string(r), w: 1}
			s += u.s
			gs = append(gs, graph{unit: u, line: line})
		case 1:
			s += " "
			gs = append(gs, graph{unit: unit{s: " ", w: 1, space: true}, line: line})
		case 2:
			u := unit{s: string(zzsym.Rune("c", "cjk")), w: 2}
			s += u.s
			gs = append(gs, graph{unit: u, line: line})
		case 3:
			s += "\n"
			line++
		case 4:
			// whitespace of no width, and of two columns
			u := unit{s: "\u200b", space: true}
			if zzsym.Choice("ideographic space", 2) == 1 {
				u = unit{s: "\u3000", w: 2, space: true}
			}
			s += u.s
			gs = append(gs, graph{unit: u, line: line})
		case 5:
			// a space that is part of a word, and a letter of four columns
			u := unit{s: "\u00a0", w: 1}
			if zzsym.Choice("dash", 2) == 1 {
				u = unit{s: "\u2e3b", w: 4}
			}
			s += u.s
			gs = append(gs, graph{unit: u, line: line})
		}
	}
	return s, gs, line + 1
}

// locate reads rows from the screen and finds every grapheme that is not a
// space, in order.
func locate(b *Buffer, w, h int, gs []graph) (rows [][2]int) {
	k := 0
	next := func() {
		for k < len(gs) && (gs[k].space || gs[k].w > w) {
			gs[k].row = -1
			k++
		}
	}
	next()
	for y := 0; y < h; y++ {
		from, to := w, 0
		for x := 0; x < w; x++ {
			c := b.CellAt(NewPosition(x, y))
			if c.Symbol == "." {
				continue
			}
			if from == w {
				from = x
			}
			to = x + 1
			if c.Symbol == " " {
				continue
			}
			if c.Symbol == "\u3000" {
				zzsym.Assert(x+1 < w, "a wide grapheme is cut")
				to = x + 2
				continue
			}
			zzsym.Assert(k < len(gs), "the text shows more than it holds")
			zzsym.Assert(c.Symbol == gs[k].s, "the text is not shown in order")
			gs[k].row, gs[k].col = y, x
			if n := gs[k].w; n > 1 {
				to = x + n
				zzsym.Assert(to <= w, "a wide grapheme is cut")
				x += n - 1
			}
			k++
			next()
		}
		rows = append(rows, [2]int{from, to})
	}
	zzsym.Assert(k == len(gs), "a wrapped text loses a grapheme")
	return rows
}

// wrapped checks where the graphemes of a wrapped text are.
func wrapped(b *Buffer, w, h int, gs []graph, trim bool, a Alignment) {
	rows := locate(b, w, h, gs)
	for y, r := range rows {
		if r[0] >= r[1] {
			continue
		}
		switch a {
		case AlignmentRight:
			zzsym.Assert(r[1] == w, "a right-aligned row does not end at the right")
		case AlignmentCenter:
			d := r[0] - (w - r[1])
			zzsym.Assert(d >= -1 && d <= 1, "a centred row is not in the middle")
		default:
			zzsym.Assert(r[0] == 0, "a row does not start at the left")
		}
		if trim {
			first := b.CellAt(NewPosition(r[0], y)).Symbol
			zzsym.Assert(first != " " && first != "\u3000", "leading whitespace is not trimmed")
		}
	}
	// a line that fits takes a row
	widths := map[int]int{}
	for _, g := range gs {
		widths[g.line] += g.w
	}
	for _, g := range gs {
		fits := true
		for j := 0; j <= g.line; j++ {
			fits = fits && widths[j] <= w
		}
		if g.row >= 0 && fits {
			zzsym.Assert(g.row == g.line, "a line that fits does not take exactly a row")
			zzsym.Cover("fits")
		}
	}
	// pairs of neighbours
	last := -1
	for i := range gs {
		g := gs[i]
		if g.row < 0 {
			continue
		}
		p := last
		last = i
		if p < 0 {
			continue
		}
		q := gs[p]
		gap, skipped, apart := 0, false, false
		for j := p + 1; j < i; j++ {
			gap += gs[j].w
			if !gs[j].space {
				skipped = true
			} else {
				apart = true
			}
		}
		if q.line != g.line {
			zzsym.Assert(g.row-q.row >= g.line-q.line, "lines of the text share a row")
			trail := 0
			for j := p + 1; j < i; j++ {
				if gs[j].line == q.line {
					trail += gs[j].w
				}
			}
			zzsym.Assert(skipped || g.row-q.row <= g.line-q.line+(gap-trail+g.w-1)/w+(trail+w-1)/w, "a row is left blank between lines")
			zzsym.Cover("lines")
			continue
		}
		if skipped {
			continue
		}
		if q.row == g.row {
			zzsym.Assert(g.col == q.col+q.w+gap, "the space between two graphemes is not kept")
			zzsym.Cover("gap")
			continue
		}
		zzsym.Assert(g.row > q.row, "the text is not shown in order")
		zzsym.Assert((g.row-q.row-1)*w <= gap+g.w-1, "a row is left blank within a line")
		word := 0
		from, to := i, i+1
		for from > 0 && !gs[from-1].space && gs[from-1].line == g.line {
			from--
		}
		for to < len(gs) && !gs[to].space && gs[to].line == g.line {
			to++
		}
		for j := from; j < to; j++ {
			word += gs[j].w
		}
		if !apart {
			lead := 0
			if !trim {
				for j := from - 1; j >= 0 && gs[j].line == g.line && (gs[j].space || gs[j].w > w); j-- {
					if gs[j].space {
						lead += gs[j].w
					}
				}
			}
			zzsym.Assert(word+lead > w, "a word that fits on a row is broken")
			zzsym.Cover("broken")
		} else {
			zzsym.Assert(q.col-rows[q.row][0]+q.w+gap+word > w, "a word moves to the next row although it fits")
			zzsym.Cover("moved")
		}
	}
}

func wrap(s string, w, h int, trim bool, a Alignment, scroll int) *Buffer {
	p := paragraphwidget.NewStr(s).WithWrap(paragraphwidget.NewWrap().WithTrim(trim)).WithScroll(scroll, 0)
	p.Alignment = a
	return shown(w, h, p.Render)
}

func C28_Words() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 8, 11))
	s, gs, _ := anyWords(n, 2)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 5, 6)))
	trim := zzsym.Choice("trim", 2) == 1
	wrapped(wrap(s, w, n+2, trim, AlignmentLeft, 0), w, n+2, gs, trim, AlignmentLeft)
}

func C28_Wide() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 4, 6))
	s, gs, _ := anyWords(n, 3)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 4, 6)))
	trim := zzsym.Choice("trim", 2) == 1
	a := anyAlign()
	wrapped(wrap(s, w, n+2, trim, a, 0), w, n+2, gs, trim, a)
}

func C28_Lines() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 4, 6))
	s, gs, _ := anyWords(n, 4)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 3, 4)))
	trim := zzsym.Choice("trim", 2) == 1
	wrapped(wrap(s, w, 2*n+2, trim, AlignmentLeft, 0), w, 2*n+2, gs, trim, AlignmentLeft)
}

// C28_Blanks has whitespace and letters of every width.
func C28_Blanks() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 4, 6))
	s, gs, _ := anyWords(n, 6)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 5, 6)))
	trim := zzsym.Choice("trim", 2) == 1
	wrapped(wrap(s, w, 3*n+2, trim, AlignmentLeft, 0), w, 3*n+2, gs, trim, AlignmentLeft)
}

// C28_Dash has letters of four columns behind others.
func C28_Dash() {
	n := zzsym.Bound("graphemes", 6, 8)
	s := ""
	var gs []graph
	for i := 0; i < n; i++ {
		u := []unit{{s: string(rune('a' + i)), w: 1}, {s: " ", w: 1, space: true}, {s: "\u2e3b", w: 4}}[zzsym.Choice("kind", 3)]
		s += u.s
		gs = append(gs, graph{unit: u})
	}
	w := zzsym.Concrete(zzsym.Int("w", 4, zzsym.Bound("width", 5, 7)))
	trim := zzsym.Choice("trim", 2) == 1
	wrapped(wrap(s, w, 2*n+2, trim, AlignmentLeft, 0), w, 2*n+2, gs, trim, AlignmentLeft)
}

// C28_Scroll compares a scrolled paragraph with the rows it scrolled to.
func C28_Scroll() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 3, 5))
	s, _, _ := anyWords(n, 4)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 3, 4)))
	trim := zzsym.Choice("trim", 2) == 1
	h := 1 + zzsym.Choice("height", 3)
	scroll := zzsym.Concrete(zzsym.Int("scroll", 0, zzsym.Bound("scroll", 3, 5)))
	all := wrap(s, w, h+scroll, trim, AlignmentLeft, 0)
	part := wrap(s, w, h, trim, AlignmentLeft, scroll)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			zzsym.Assert(*part.CellAt(NewPosition(x, y)) == *all.CellAt(NewPosition(x, y+scroll)), "a scrolled paragraph does not show the rows below")
		}
	}
	zzsym.Cover("scrolled")
}

// C28_Reused renders one paragraph twice: the second render shows the same.
func C28_Reused() {
	n := zzsym.Choice("graphemes", 1+zzsym.Bound("graphemes", 4, 6))
	s, _, _ := anyWords(n, 4)
	w := zzsym.Concrete(zzsym.Int("w", 1, zzsym.Bound("width", 3, 4)))
	p := paragraphwidget.NewStr(s).Wrapped()
	same(shown(w, n+1, p.Render), shown(w, n+1, p.Render), "a second render of a paragraph shows something else")
	zzsym.Cover("twice")
}

// C29_Rows renders lines without wrapping.
func C29_Rows() {
	w, h := zzsym.Bound("width", 2, 4), 1+zzsym.Choice("height", 2)
	sx := zzsym.Concrete(zzsym.Int("sx", 0, zzsym.Bound("scroll", 2, 5)))
	sy := zzsym.Concrete(zzsym.Int("sy", 0, 2))
	a := anyAlign()
	own := AlignmentNone
	n := zzsym.Choice("lines", 3)
	var lines []textwidget.Line
	var us [][]unit
	for i := 0; i < n; i++ {
		var l []unit
		s := ""
		for k := zzsym.Choice("len", zzsym.Bound("graphemes", 3, 5)); k > 0; k-- {
			u := anyUnit(zzsym.Bound("kinds", 2, 3))
			u.style = spanStyles[i%2]
			l = append(l, u)
			s += u.s
		}
		us = append(us, l)
		line := textwidget.NewLine(textwidget.NewSpan(s).WithStyle(spanStyles[i%2])).WithStyle(lineStyle)
		if i == 1 {
			own = anyAlign()
			line = line.WithAlignment(own)
		}
		lines = append(lines, line)
	}
	base := NewStyle().WithBackground(termenv.ANSIMagenta)
	text := NewStyle().WithForeground(termenv.ANSICyan).Reversed()
	p := paragraphwidget.New(textwidget.NewText(lines...).WithStyle(text)).WithStyle(base).WithScroll(sy, sx)
	p.Alignment = a
	b := shown(w, h, p.Render)
	for y := 0; y < h; y++ {
		var l []unit
		al := a
		if sy+y < n {
			l = us[sy+y]
			if sy+y == 1 && own != AlignmentNone {
				al = own
			}
		}
		truncated(b, y, w, l, al, sx, base, text)
	}
}

// truncated compares a row with the part of a line that is shown there.
func truncated(b *Buffer, y, w int, us []unit, a Alignment, sx int, base, text Style) {
	if a == AlignmentLeft || a == AlignmentNone {
		gone := 0
		for len(us) > 0 && gone+us[0].w <= sx && a == AlignmentLeft {
			gone += us[0].w
			us = us[1:]
		}
	}
	k, t := 0, 0
	for k < len(us) && t+us[k].w <= w {
		t += us[k].w
		k++
	}
	us = us[:k]
	x := 0
	switch a {
	case AlignmentCenter:
		x = -1
	case AlignmentRight:
		x = w - t
	}
	look := func(u unit) Cell {
		want := under
		want.SetStyle(base)
		want.SetStyle(text)
		want.SetStyle(lineStyle)
		want.SetStyle(u.style)
		want.Symbol = u.s
		return want
	}
	if x < 0 {
		// within one cell of the middle
		x = (w - t) / 2
		if t > 0 && *b.CellAt(NewPosition(x, y)) != look(us[0]) {
			x++
		}
	}
	covered := make([]bool, w)
	for _, u := range us {
		zzsym.Assert(x+u.w <= w && *b.CellAt(NewPosition(x, y)) == look(u), "a paragraph does not show its line at its place with its style")
		for j := 0; j < u.w; j++ {
			covered[x+j] = true
		}
		x += u.w
		zzsym.Cover("shown")
	}
	for x := 0; x < w; x++ {
		if !covered[x] {
			want := under
			want.SetStyle(base)
			zzsym.Assert(*b.CellAt(NewPosition(x, y)) == want, "a cell beside the text changed")
			zzsym.Cover("blank")
		}
	}
}

// C29_Long cuts one long line at any width and offset.
func C29_Long() {
	n := zzsym.Bound("graphemes", 7, 12)
	var us []unit
	s := ""
	for i := 0; i < n; i++ {
		u := unit{s: string(rune('a' + i)), w: 1}
		if i == 2 || i == 5 {
			u = unit{s: string(zzsym.Rune("c", "cjk")), w: 2}
		}
		us = append(us, u)
		s += u.s
	}
	w := zzsym.Concrete(zzsym.Int("w", 2, n+4))
	sx := zzsym.Concrete(zzsym.Int("sx", 0, n+4))
	us2 := us
	b := shown(w, 1, paragraphwidget.NewStr(s).WithScroll(0, sx).Render)
	gone := 0
	for len(us2) > 0 && gone+us2[0].w <= sx {
		gone += us2[0].w
		us2 = us2[1:]
	}
	x := 0
	for _, u := range us2 {
		if x+u.w > w {
			break
		}
		zzsym.Assert(b.CellAt(NewPosition(x, 0)).Symbol == u.s, "a scrolled line does not show what is behind the offset")
		x += u.w
		zzsym.Cover("shown")
	}
	for ; x < w; x++ {
		zzsym.Assert(*b.CellAt(NewPosition(x, 0)) == under, "a cell behind the text changed")
	}
}

// nothings are graphemes that take no cell of their own.
var nothings = []string{"\u200b", "\t", "\u2060", "\u0301"}

func bare(s string) string {
	out := ""
	for _, r := range s {
		if r != '\u200b' && r != '\u2060' && r != '\u0301' {
			out += string(r)
		}
	}
	return out
}

// C27_Nothing has graphemes without a width at any place of the line.
func C27_Nothing() {
	k := zzsym.Bound("graphemes", 3, 4)
	n := 1 + zzsym.Choice("n", k)
	cut := zzsym.Choice("cut", n+1)
	s := []string{"", ""}
	var us []unit
	for i := 0; i < n; i++ {
		p := 0
		if i >= cut {
			p = 1
		}
		u := unit{style: spanStyles[p]}
		switch zzsym.Choice("kind", 3) {
		case 0:
			u.s, u.w = string(rune('a'+i)), 1
		case 1:
			u.s, u.w = "\u4e2d", 2
		default:
			d := nothings[zzsym.Choice("nothing", zzsym.Bound("nothings", 2, 4))]
			s[p] += d
			zzsym.Cover("nothing")
			continue
		}
		s[p] += u.s
		us = append(us, u)
	}
	w := 1 + zzsym.Choice("w", zzsym.Bound("width", 5, 7))
	a := anyAlign()
	l := textwidget.NewLine(
		textwidget.NewSpan(s[0]).WithStyle(spanStyles[0]),
		textwidget.NewSpan(s[1]).WithStyle(spanStyles[1]),
	).WithStyle(lineStyle).WithAlignment(a)
	zzsym.Assert(l.Width() == total(us), "the width of a line is not the width of its graphemes")
	b := NewBufferFilled(Rect{Width: w, Height: 1}, under)
	l.Render(b.Area(), &b)
	at, _, _ := lay(us, w, a)
	covered := make([]bool, w)
	for i, u := range us {
		if at[i] >= 0 {
			c := *b.CellAt(NewPosition(at[i], 0))
			zzsym.Assert(bare(c.Symbol) == u.s, "a grapheme is not shown at its place")
			want := under
			want.SetStyle(l.Style)
			want.SetStyle(u.style)
			c.Symbol = want.Symbol
			zzsym.Assert(c == want, "a grapheme is not shown with its style")
			for j := 0; j < u.w; j++ {
				covered[at[i]+j] = true
			}
		}
	}
	for x := 0; x < w; x++ {
		if !covered[x] {
			zzsym.Assert(b.CellAt(NewPosition(x, 0)).Symbol == under.Symbol, "what takes no cell is drawn into one")
		}
	}
}
