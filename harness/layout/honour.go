package layout

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// one cell, in the unit sizes are compared in (divisible by 100 and by every
// ratio denominator used)
const unit = 1200

// share gives what a asks of a line of w cells, in units.
func (a ask) share(w int) int {
	switch a.kind {
	case kLen, kMin:
		return a.n * unit
	case kPct:
		return w * a.n * (unit / 100)
	case kRatio:
		d := a.den
		if d == 0 {
			d = 1
		}
		return w * a.n * (unit / d)
	}
	return 0
}

// honoured asserts C15 for the segments l gives a line of w cells.
func honoured(asks []ask, flex Flex, w, spacing int) {
	n := len(asks)
	total := (n - 1) * spacing * unit
	maxes, weights, elastic, soft := 0, 0, false, false
	for _, a := range asks {
		total += a.share(w)
		switch a.kind {
		case kMax:
			maxes += a.n
			soft = true
		case kFill:
			weights += a.n
			elastic = true
		case kMin:
			elastic = true
			soft = true
		}
	}
	zzsym.Assume(total <= w*unit)
	if flex == FlexLegacy && !elastic {
		// the last segments stretch to fill the line
		zzsym.Assume(total+maxes*unit >= w*unit)
	}
	segs := build(asks).Horizontal().WithSpacing(spacingOf(spacing)).WithFlex(flex).Split(NewRect(w, 1))
	zzsym.Cover("fits")
	left := w*unit - total
	for i, a := range asks {
		s := segs[i].Width
		switch a.kind {
		case kLen:
			zzsym.Assert(s == a.n, "a length is not met although there is room")
		case kMin:
			zzsym.Assert(s >= a.n, "a segment is below its minimum although there is room")
		case kMax:
			zzsym.Assert(s <= a.n, "a segment is above its maximum although there is room")
			if left >= maxes*unit {
				zzsym.Assert(s == a.n, "a segment does not reach its maximum although there is room for all")
			}
		case kPct, kRatio:
			d := s*unit - a.share(w)
			zzsym.Assert(-unit < d && d < unit, "a percentage or ratio is off by a cell or more although there is room")
		case kFill:
			if !soft {
				d := s*unit*weights - left*a.n
				zzsym.Assert(-unit*weights <= d && d <= unit*weights, "a fill segment does not get its share of what is left")
			}
			for j, b := range asks[:i] {
				if b.kind == kFill {
					d := s*b.n - segs[j].Width*a.n
					zzsym.Assert(-(a.n+b.n) <= d && d <= a.n+b.n, "fill segments are not in proportion to their weights")
				}
			}
		}
	}
	zzsym.ObserveInt("size", segs[0].Width)
}

func anyFlex(n int) Flex {
	k := len(flexes)
	if n == 1 {
		k = 4 // a lone segment is stretched by the spacing modes
	}
	return flexes[zzsym.Choice("flex", k)]
}

func C15_One() {
	hi := zzsym.Bound("cells", 100, 300)
	asks := []ask{anyAsk(0, allKinds, hi, 6)}
	w, flex := zzsym.Int("w", 0, hi), anyFlex(1)
	honoured(asks, flex, w, 0)
}

func C15_Two() {
	hi := zzsym.Bound("cells", 30, 200)
	asks := []ask{anyAsk(0, allKinds, hi, 2), anyAsk(1, allKinds, hi, 2)}
	w, flex, spacing := zzsym.Int("w", 0, hi), anyFlex(2), zzsym.Int("spacing", 0, 3)
	honoured(asks, flex, w, spacing)
}

func C15_Three() {
	hi := zzsym.Bound("cells", 20, 60)
	ks := [][]int{allKinds, {kLen, kFill}, {kPct, kMin, kFill}}
	if zzsym.Bound("all kinds", 0, 1) == 1 {
		ks = [][]int{allKinds, allKinds, allKinds}
	}
	asks := []ask{anyAsk(0, ks[0], hi, 1), anyAsk(1, ks[1], hi, 2), anyAsk(2, ks[2], hi, 1)}
	w, flex := zzsym.Int("w", 0, hi), anyFlex(3)
	honoured(asks, flex, w, 0)
}

// percentages, ratios and weights that are rounded in binary
func C15_Rough() {
	hi := zzsym.Bound("cells", 30, 100)
	kinds := []int{kRough + kPct, kRough + kRatio}
	asks := []ask{anyAsk(0, kinds, hi, 9), anyAsk(1, []int{kRough + kPct, kLen, kFill}, hi, 2)}
	w, flex := zzsym.Int("w", 0, hi), anyFlex(2)
	honoured(asks, flex, w, 0)
}

func C15_Weights() {
	hi := zzsym.Bound("cells", 60, 200)
	n := 2 + zzsym.Choice("more", 2)
	asks := make([]ask, n)
	for i := range asks {
		asks[i] = ask{kind: kFill, n: []int{1, 3, 20, 2}[zzsym.Choice("weight"+digits[i], zzsym.Bound("weights", 3, 4))]}
	}
	w, flex, spacing := zzsym.Int("w", 0, hi), anyFlex(n), 1
	honoured(asks, flex, w, spacing)
}

// C15_Zero: a segment of weight zero only gets something if all others have
// weight zero as well, and these share alike.
func C15_Zero() {
	n := 2 + zzsym.Choice("more", zzsym.Bound("more segments", 1, 2))
	ws := make([]int, n)
	sum := 0
	for i := range ws {
		ws[i] = zzsym.Choice("weight"+digits[i], 2)
		sum += ws[i]
	}
	var cs []Constraint
	for _, w := range ws {
		cs = append(cs, ConstraintFill(w))
	}
	w := zzsym.Int("w", 0, zzsym.Bound("cells", 60, 200))
	segs := NewLayout(cs...).Horizontal().WithFlex(flexes[zzsym.Choice("flex", len(flexes))]).Split(NewRect(w, 1))
	for i := range segs {
		share := ws[i]
		if sum == 0 {
			share = 1
		}
		d := segs[i].Width*max(sum, n*(1-min(sum, 1))) - w*share
		m := max(sum, n*(1-min(sum, 1)))
		zzsym.Assert(-m <= d && d <= m, "a fill segment does not get its share")
	}
	zzsym.Cover("zero")
}

// C44: where the cells nobody asked for go.
func C44_Flex() {
	hi := zzsym.Bound("cells", 40, 200)
	n := 1 + zzsym.Choice("more", 3)
	asks := make([]ask, n)
	used := 0
	for i := range asks {
		asks[i] = ask{kind: []int{kLen, kMax}[zzsym.Choice("kind"+digits[i], 2)], n: zzsym.Int("amount"+digits[i], 0, hi)}
		used += asks[i].n
	}
	flex := zzsym.Choice("flex", len(flexes))
	spacing := zzsym.Int("spacing", 0, 3)
	w, x0 := zzsym.Int("w", 0, hi), zzsym.Int("x", 0, hi)
	area := NewRect(w, 1)
	area.X = x0
	used += spacing * (n - 1)
	zzsym.Assume(used <= w)
	segs := build(asks).Horizontal().WithSpacing(spacingOf(spacing)).WithFlex(flexes[flex]).Split(area)
	first, last := segs[0], segs[n-1]
	head, tail := first.X-x0, x0+w-last.Right()
	zzsym.Cover("excess")
	packed := func() {
		for i := 1; i < n; i++ {
			zzsym.Assert(segs[i].X-segs[i-1].Right() == spacing, "packed segments are not the spacing apart")
		}
	}
	switch flexes[flex] {
	case FlexLegacy:
		zzsym.Assert(head == 0 && tail == 0, "legacy flex leaves cells unused")
		packed()
	case FlexStart:
		zzsym.Assert(head == 0 && tail == w-used, "start flex does not pack at the start")
		packed()
	case FlexEnd:
		zzsym.Assert(tail == 0 && head == w-used, "end flex does not pack at the end")
		packed()
	case FlexCenter:
		zzsym.Assert(head-tail <= 1 && tail-head <= 1, "center flex is off centre")
		if n == 1 {
			zzsym.Assert(head+tail == w-used, "center flex changes the sizes")
		}
		for i := 1; i < n; i++ {
			zzsym.Assert(segs[i].X-segs[i-1].Right() == spacing, "centred segments are not the spacing apart")
		}
	case FlexSpaceBetween:
		zzsym.Assert(head == 0 && tail == 0, "space-between leaves cells at the ends")
		for i := 2; i < n; i++ {
			d := (segs[i].X - segs[i-1].Right()) - (segs[i-1].X - segs[i-2].Right())
			zzsym.Assert(-1 <= d && d <= 1, "space-between gaps differ by more than a cell")
		}
	}
	zzsym.ObserveInt("head", head)
}

// C44_Gaps: with more segments, their gaps are alike.
func C44_Gaps() {
	hi := zzsym.Bound("cells", 40, 200)
	n := 4 + zzsym.Choice("more", zzsym.Bound("further segments", 1, 3))
	var cs []Constraint
	used := 0
	for i := 0; i < n; i++ {
		k := 2 + i%3
		cs = append(cs, ConstraintLen(k))
		used += k
	}
	spacing := zzsym.Int("spacing", 0, 2)
	used += spacing * (n - 1)
	w := zzsym.Int("w", 0, hi)
	zzsym.Assume(used <= w)
	around := zzsym.Choice("around", 2) == 1
	flex := FlexSpaceBetween
	if around {
		flex = FlexSpaceAround
	}
	segs := NewLayout(cs...).Horizontal().WithSpacing(spacingOf(spacing)).WithFlex(flex).Split(NewRect(w, 1))
	lo, most := w, 0
	for i := 1; i < n; i++ {
		d := segs[i].X - segs[i-1].Right()
		lo, most = min(lo, d), max(most, d)
	}
	zzsym.Assert(most-lo <= 1, "the gaps differ by more than a cell")
	head, tail := segs[0].X, w-segs[n-1].Right()
	if around {
		zzsym.Assert(head-tail <= 1 && tail-head <= 1, "space-around is off centre")
	} else {
		zzsym.Assert(head == 0 && tail == 0, "space-between leaves cells at the ends")
	}
	zzsym.Cover("gaps")
}
