package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// The borders of each type, from the Unicode names of the box drawing
// characters: horizontal, vertical, then the corners top left, top right,
// bottom left, bottom right.
var boxes = map[blockwidget.BorderType][6]string{
	blockwidget.BorderTypeSharp:   {"\u2500", "\u2502", "\u250c", "\u2510", "\u2514", "\u2518"},
	blockwidget.BorderTypeRounded: {"\u2500", "\u2502", "\u256d", "\u256e", "\u2570", "\u256f"},
	blockwidget.BorderTypeDouble:  {"\u2550", "\u2551", "\u2554", "\u2557", "\u255a", "\u255d"},
	blockwidget.BorderTypeThick:   {"\u2501", "\u2503", "\u250f", "\u2513", "\u2517", "\u251b"},
}

var types = []blockwidget.BorderType{blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick}

func anyBorders(b blockwidget.Block) (blockwidget.Block, blockwidget.Side) {
	s := blockwidget.Side(zzsym.Choice("sides", 16))
	var l []blockwidget.Side
	for _, x := range []blockwidget.Side{blockwidget.SideLeft, blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom} {
		if s&x != 0 {
			l = append(l, x)
		}
	}
	if len(l) > 0 {
		b = b.WithBorderSides(l...)
	}
	return b, s
}

func anyInside(w, h int) *page {
	b := NewBufferFilled(Rect{Position: NewPosition(2, 1), Width: w, Height: h}, under)
	p := &page{&b, Rect{Position: NewPosition(zzsym.Int("x", 2, 2+w), zzsym.Int("y", 1, 1+h)), Width: zzsym.Int("w", 0, w), Height: zzsym.Int("h", 0, h)}}
	zzsym.Assume(p.area.X+p.area.Width <= 2+w && p.area.Y+p.area.Height <= 1+h)
	return p
}

// C19_Frame checks the borders that a block draws.
func C19_Frame() {
	side := zzsym.Bound("side", 3, 5)
	p := anyInside(side, side)
	k := zzsym.Choice("type", len(types))
	b, s := anyBorders(blockwidget.New().WithBorderType(types[k]).WithBorderStyle(NewStyle().WithForeground(termenv.ANSIRed)))
	frame(p, b, s, types[k])
}

// frame renders a block and compares every cell of the buffer.
func frame(p *page, b blockwidget.Block, s blockwidget.Side, t blockwidget.BorderType) {
	b.Render(p.area, p.Buffer)
	box := boxes[t]
	a := p.Area()
	for y := a.Y; y < a.Bottom(); y++ {
		for x := a.X; x < a.Right(); x++ {
			c := *p.CellAt(NewPosition(x, y))
			in := within(p.area, x, y)
			l := in && x == p.area.X && s&blockwidget.SideLeft != 0
			r := in && x == p.area.X+p.area.Width-1 && s&blockwidget.SideRight != 0
			u := in && y == p.area.Y && s&blockwidget.SideTop != 0
			d := in && y == p.area.Y+p.area.Height-1 && s&blockwidget.SideBottom != 0
			if !(l || r || u || d) {
				zzsym.Assert(c == under, "a cell that is not on a chosen border changed")
				continue
			}
			want := under
			want.SetFg(termenv.ANSIRed)
			ok := false
			try := func(cond bool, sym int) {
				if cond {
					want.Symbol = box[sym]
					if c == want {
						ok = true
					}
				}
			}
			if l && r || u && d {
				// one cell wide or high: any of the borders that meet here
				try(true, 0)
				try(true, 1)
				try(true, 2)
				try(true, 3)
				try(true, 4)
				try(true, 5)
				zzsym.Assert(ok, "a border cell shows something else than a border")
				zzsym.Cover("thin")
				continue
			}
			try(u && l, 2)
			try(u && r, 3)
			try(d && l, 4)
			try(d && r, 5)
			try((u || d) && !l && !r, 0)
			try((l || r) && !u && !d, 1)
			zzsym.Assert(ok, "a border cell does not show its border or corner")
			zzsym.Cover("border")
		}
	}
}

// C19_Inner checks the inner area against the parts that are drawn.
func C19_Inner() {
	big := zzsym.Bound("size", 1000, 1<<30)
	area := Rect{Position: NewPosition(zzsym.Int("x", -big, big), zzsym.Int("y", -big, big)), Width: zzsym.Int("w", 0, big), Height: zzsym.Int("h", 0, big)}
	pad := Padding{Left: zzsym.Int("pl", 0, 9), Right: zzsym.Int("pr", 0, 9), Top: zzsym.Int("pt", 0, 9), Bottom: zzsym.Int("pb", 0, 9)}
	b, s := anyBorders(blockwidget.New().WithPadding(pad))
	bit := func(c bool) int {
		if c {
			return 1
		}
		return 0
	}
	l, r := bit(s&blockwidget.SideLeft != 0), bit(s&blockwidget.SideRight != 0)
	u, d := s&blockwidget.SideTop != 0, s&blockwidget.SideBottom != 0
	switch zzsym.Choice("titles", 5) {
	case 1:
		b, u = b.WithTitleStr("t"), true
	case 2:
		b, d = b.WithTitle(blockwidget.NewTitleStr("t").Bottom()), true
	case 3:
		b, d = b.WithTitleStr("t").WithTitlePosition(blockwidget.TitlePositionBottom), true
	case 4:
		b, u, d = b.WithTitleStr("t").WithTitlePosition(blockwidget.TitlePositionBottom).WithTitle(blockwidget.NewTitleStr("t").Top()), true, true
	}
	i := b.Inner(area)
	w := area.Width - l - r - pad.Left - pad.Right
	h := area.Height - bit(u) - bit(d) - pad.Top - pad.Bottom
	if w > 0 && h > 0 {
		zzsym.Assert(i.X == area.X+l+pad.Left && i.Y == area.Y+bit(u)+pad.Top && i.Width == w && i.Height == h, "the inner area is not what borders, titles and padding leave")
		zzsym.Cover("room")
	} else {
		zzsym.Assert(i.IsEmpty() && i.Width >= 0 && i.Height >= 0, "the inner area is not empty although nothing is left")
		zzsym.Cover("full")
	}
}

// C19_Content fills the inner area and finds the frame intact.
func C19_Content() {
	p := anyInside(3, zzsym.Bound("rows", 2, 4))
	b, _ := anyBorders(blockwidget.New().WithPadding(NewPadding(zzsym.Choice("padding", 2))))
	if zzsym.Choice("title", 2) == 1 {
		b = b.WithTitleStr("ab").WithTitle(blockwidget.NewTitleStr("c").Bottom())
	}
	b.Render(p.area, p.Buffer)
	before := NewBufferFilled(p.Area(), under)
	b.Render(p.area, &before)
	fillwidget.New("#").Render(b.Inner(p.area), p.Buffer)
	a := p.Area()
	for y := a.Y; y < a.Bottom(); y++ {
		for x := a.X; x < a.Right(); x++ {
			c, old := p.CellAt(NewPosition(x, y)), before.CellAt(NewPosition(x, y))
			if old.Symbol != "." {
				zzsym.Assert(c.Symbol == old.Symbol, "content in the inner area overwrites the frame")
				zzsym.Cover("frame")
			}
			if !within(p.area, x, y) {
				zzsym.Assert(c.Symbol == ".", "the inner area reaches outside the area")
			}
		}
	}
}

// ---------------------------------------------------------------- C20

// C20_Group checks several titles of one alignment on one side.
func C20_Group() {
	width := zzsym.Int("width", 0, zzsym.Bound("width", 8, 12))
	left, right := zzsym.Choice("left", 2), zzsym.Choice("right", 2)
	align := aligns[1+zzsym.Choice("align", 3)]
	byBlock := zzsym.Choice("byblock", 2) == 1
	bottom := zzsym.Choice("bottom", 2) == 1
	b := blockwidget.New().WithTitlesStyle(NewStyle().WithForeground(termenv.ANSIRed))
	s := []blockwidget.Side{blockwidget.SideTop, blockwidget.SideBottom}
	if left == 1 {
		s = append(s, blockwidget.SideLeft)
	}
	if right == 1 {
		s = append(s, blockwidget.SideRight)
	}
	b = b.WithBorderSides(s...)
	if byBlock {
		b = b.WithTitlesAlignment(align)
	}
	if bottom {
		b = b.WithTitlePosition(blockwidget.TitlePositionBottom)
	}
	// any titles
	n := 1 + zzsym.Choice("titles", zzsym.Bound("titles", 2, 3))
	var texts [][]rune
	total := n - 1
	for i := 0; i < n; i++ {
		k := zzsym.Choice("len", zzsym.Bound("runes", 3, 4))
		r := []rune(zzsym.Str("t", k, "narrow"))
		texts = append(texts, r)
		total += k
		t := blockwidget.NewTitleStr(string(r))
		if !byBlock {
			t = t.WithAlignment(align)
		}
		b = b.WithTitle(t)
	}
	room := width - left - right
	if room < 0 {
		room = 0
	}

	// where each cell of the row comes from
	row := make([]string, width)
	for i := range row {
		row[i] = "\u2500"
	}
	suffix := align == AlignmentRight && !byBlock
	put := func(r []rune, x, limit int) {
		if len(r) > limit {
			zzsym.Cover("cut")
			cut := len(r) - limit
			if align == AlignmentCenter && !byBlock {
				cut /= 2
			} else if !suffix {
				cut = 0
			}
			r = r[cut : cut+limit]
		}
		for i, c := range r {
			row[left+x+i] = string(c)
		}
	}
	switch align {
	case AlignmentLeft, AlignmentCenter:
		x := 0
		if align == AlignmentCenter && room > total {
			x = (room - total) / 2
		}
		for _, r := range texts {
			if x >= room {
				break
			}
			put(r, x, room-x)
			x += len(r) + 1
		}
	case AlignmentRight:
		end := room
		for i := n - 1; i >= 0; i-- {
			if end <= 0 {
				break
			}
			x := end - len(texts[i])
			if x < 0 {
				x = 0
			}
			put(texts[i], x, end)
			end -= len(texts[i]) + 1
		}
	}

	p := insidePage(width, 3)
	b.Render(p.area, p.Buffer)
	p.contained()
	y, other := p.area.Y, p.area.Y+2
	if bottom {
		y, other = other, y
	}
	for x := 0; x < width; x++ {
		if x == 0 && left == 1 || x == width-1 && right == 1 {
			// the border next to the titles
			c := p.CellAt(NewPosition(p.area.X+x, y)).Symbol
			zzsym.Assert(c == "\u250c" || c == "\u2510" || c == "\u2514" || c == "\u2518", "a title is drawn over a border")
			continue
		}
		got := p.CellAt(NewPosition(p.area.X+x, y))
		zzsym.Assert(got.Symbol == row[x], "a title is not where its order and alignment put it")
		if row[x] != "\u2500" {
			zzsym.Assert(got.Fg == Color(termenv.ANSIRed), "a title has another style")
			zzsym.Cover("title")
		}
		zzsym.Assert(p.CellAt(NewPosition(p.area.X+x, other)).Symbol == "\u2500", "a title is on the other side")
	}
	zzsym.ObserveInt("total", total)
}

// C20_Sides mixes the alignments and the sides.
func C20_Sides() {
	width := zzsym.Int("width", 5, 8)
	p := insidePage(width, 3)
	b := blockwidget.New().WithBorderSides(blockwidget.SideTop, blockwidget.SideBottom)
	var rows [2][3]string
	for i := zzsym.Bound("titles", 3, 4); i > 0; i-- {
		side, k := zzsym.Choice("side", 2), zzsym.Choice("align", 3)
		if rows[side][k] != "" {
			continue
		}
		r := zzsym.Str("t", 1, "narrow")
		rows[side][k] = r
		t := blockwidget.NewTitleStr(r).WithAlignment(aligns[1+k])
		if side == 1 {
			t = t.Bottom()
		} else if zzsym.Choice("explicit", 2) == 1 {
			t = t.Top()
		}
		b = b.WithTitle(t)
	}
	b.Render(p.area, p.Buffer)
	for side := 0; side < 2; side++ {
		at := [3]int{0, (width - 1) / 2, width - 1}
		for x := 0; x < width; x++ {
			want := "\u2500"
			for k := range at {
				if at[k] == x && rows[side][k] != "" {
					want = rows[side][k]
					zzsym.Cover("title")
				}
			}
			zzsym.Assert(p.CellAt(NewPosition(p.area.X+x, p.area.Y+2*side)).Symbol == want, "a title is not on its side at its place")
		}
	}
}

// C20_Wide cuts titles of wide runes at the border.
func C20_Wide() {
	width := zzsym.Int("width", 2, 6)
	p := insidePage(width, 2)
	align := aligns[1+zzsym.Choice("align", 3)]
	r := zzsym.Str("t", zzsym.Bound("runes", 3, 4), "wide")
	b := blockwidget.New().Bordered().WithTitle(blockwidget.NewTitle(textwidget.NewLine(textwidget.NewSpan(r))).WithAlignment(align))
	b.Render(p.area, p.Buffer)
	p.contained()
	c := p.CellAt(NewPosition(p.area.X+width-1, p.area.Y))
	zzsym.Assert(c.Symbol == "\u2510", "a title is drawn over the right border")
	if width > 2 {
		in := Rect{Position: p.area.Position, Width: width - 1, Height: 1}
		p.area = in
		p.wideInside()
	}
}
