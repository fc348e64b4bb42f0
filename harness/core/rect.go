package core

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// coordinates and sizes a screen can have, with room to spare
func anyRect(name string, hi int) Rect {
	return Rect{
		Position: NewPosition(zzsym.Int(name+".x", -hi, hi), zzsym.Int(name+".y", -hi, hi)),
		Width:    zzsym.Int(name+".w", 0, hi),
		Height:   zzsym.Int(name+".h", 0, hi),
	}
}

// in is the set a rectangle denotes.
func in(x, y, rx, ry, rw, rh int) bool {
	return rx <= x && x < rx+rw && ry <= y && y < ry+rh
}

func C01_Intersection() {
	hi := zzsym.Bound("coordinate", 1<<20, 1<<40)
	a, b := anyRect("a", hi), anyRect("b", hi)
	x, y := zzsym.Int("px", -3*hi, 3*hi), zzsym.Int("py", -3*hi, 3*hi)
	i := a.Intersection(b)
	zzsym.Assert(i.Width >= 0 && i.Height >= 0, "intersection has a negative size")
	both := in(x, y, a.X, a.Y, a.Width, a.Height) && in(x, y, b.X, b.Y, b.Width, b.Height)
	zzsym.Assert(in(x, y, i.X, i.Y, i.Width, i.Height) == both, "intersection does not hold exactly the common cells")
	zzsym.Assert(i.Contains(NewPosition(x, y)) == both, "Contains of the intersection disagrees")
	zzsym.Assert(a.Contains(NewPosition(x, y)) == in(x, y, a.X, a.Y, a.Width, a.Height), "Contains is not set membership")
	if both {
		zzsym.Cover("common cell")
	}
	zzsym.ObserveInt("w", i.Width)
	zzsym.ObserveInt("h", i.Height)
}

func C01_Edges() {
	hi := zzsym.Bound("coordinate", 1<<20, 1<<30)
	a := anyRect("a", hi)
	x, y := zzsym.Int("px", -3*hi, 3*hi), zzsym.Int("py", -3*hi, 3*hi)
	inside := in(x, y, a.X, a.Y, a.Width, a.Height)
	edge := a.Left() <= x && x < a.Right() && a.Top() <= y && y < a.Bottom()
	zzsym.Assert(inside == edge, "Left/Right/Top/Bottom do not bound the cells")
	if inside {
		zzsym.Assert(!a.IsEmpty() && a.Area() > 0, "a rectangle with a cell is reported empty")
		zzsym.Cover("cell")
	}
	if a.IsEmpty() {
		zzsym.Assert(a.Area() == 0, "an empty rectangle has an area")
	}
	m := a.Positioned(3, 4)
	zzsym.Assert(m.X == 3 && m.Y == 4 && m.Width == a.Width && m.Height == a.Height, "Positioned changes the size")
	w := a.WithWidth(7)
	zzsym.Assert(w.X == a.X && w.Y == a.Y && w.Width == 7 && w.Height == a.Height, "WithWidth")
	h := a.WithHeight(7)
	zzsym.Assert(h.X == a.X && h.Y == a.Y && h.Width == a.Width && h.Height == 7, "WithHeight")
}

func C01_Inner() {
	hi := zzsym.Bound("coordinate", 1<<20, 1<<40)
	a := anyRect("a", hi)
	p := Padding{Top: zzsym.Int("top", 0, hi), Right: zzsym.Int("right", 0, hi), Bottom: zzsym.Int("bottom", 0, hi), Left: zzsym.Int("left", 0, hi)}
	x, y := zzsym.Int("px", -3*hi, 3*hi), zzsym.Int("py", -3*hi, 3*hi)
	i := a.Inner(p)
	zzsym.Assert(i.Width >= 0 && i.Height >= 0, "Inner has a negative size")
	want := a.X+p.Left <= x && x < a.X+a.Width-p.Right && a.Y+p.Top <= y && y < a.Y+a.Height-p.Bottom
	zzsym.Assert(i.Contains(NewPosition(x, y)) == want, "Inner does not remove exactly the padding")
	if want {
		zzsym.Cover("inner cell")
	} else {
		zzsym.Cover("padding")
	}
	zzsym.ObserveInt("x", i.X)
	zzsym.ObserveInt("w", i.Width)
}

func C01_Indent() {
	hi := zzsym.Bound("coordinate", 1<<20, 1<<40)
	a := anyRect("a", hi)
	off := zzsym.Int("off", 0, hi)
	x, y := zzsym.Int("px", -3*hi, 3*hi), zzsym.Int("py", -3*hi, 3*hi)
	i := a.IndentX(off)
	zzsym.Assert(i.Width >= 0, "IndentX has a negative size")
	want := in(x, y, a.X, a.Y, a.Width, a.Height) && x >= a.X+off
	zzsym.Assert(i.Contains(NewPosition(x, y)) == want, "IndentX does not remove exactly the first columns")
	if want {
		zzsym.Cover("cell left")
	}
}

func C01_Slices() {
	n := zzsym.Bound("side", 5, 12)
	a := Rect{Position: NewPosition(zzsym.Int("x", -1000, 1000), zzsym.Int("y", -1000, 1000)), Width: zzsym.Int("w", 0, n), Height: zzsym.Int("h", 0, n)}
	rows := a.Rows()
	zzsym.Assert(len(rows) == a.Height, "Rows: wrong number of rows")
	for k, r := range rows {
		zzsym.Assert(r.X == a.X && r.Width == a.Width && r.Y == a.Y+k && r.Height == 1, "Rows: not the k-th row")
	}
	cols := a.Columns()
	zzsym.Assert(len(cols) == a.Width, "Columns: wrong number of columns")
	for k, c := range cols {
		zzsym.Assert(c.Y == a.Y && c.Height == a.Height && c.X == a.X+k && c.Width == 1, "Columns: not the k-th column")
	}
	if len(rows) == n && len(cols) == n {
		zzsym.Cover("largest")
	}
}
