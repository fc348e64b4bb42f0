package layout

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

const (
	kLen = iota
	kMin
	kMax
	kFill
	kPct
	kRatio
	kRough = 16
)

var (
	flexes = []Flex{FlexLegacy, FlexStart, FlexEnd, FlexCenter, FlexSpaceBetween, FlexSpaceAround}

	// coefficients whose multiples are exact in binary
	percents = []int{50, 25, 100, 0, 150}
	ratios   = []ConstraintRatio{{Num: 1, Den: 2}, {Num: 3, Den: 4}, {Num: 1, Den: 0}}
	weights  = []int{1, 2}

	// coefficients that are rounded
	roughPercents = []int{30, 33, 70, 110}
	roughRatios   = []ConstraintRatio{{Num: 1, Den: 3}, {Num: 2, Den: 3}, {Num: 1, Den: 5}}
	roughWeights  = []int{1, 3, 0}
)

var digits = []string{"0", "1", "2", "3", "4", "5"}

// ask is one constraint: its kind and amount (for a ratio, amount/den).
type ask struct {
	kind, n, den int
}

func (a ask) constraint() Constraint {
	switch a.kind {
	case kLen:
		return ConstraintLen(a.n)
	case kMin:
		return ConstraintMin(a.n)
	case kMax:
		return ConstraintMax(a.n)
	case kFill:
		return ConstraintFill(a.n)
	case kPct:
		return ConstraintPercentage(a.n)
	}
	return ConstraintRatio{Num: a.n, Den: a.den}
}

// anyAsk picks a constraint of one of the kinds: lengths, minima and maxima
// with an arbitrary amount, the others from a list (their amounts are
// coefficients of the linear system).
func anyAsk(i int, kinds []int, hi, variety int) ask {
	k := kinds[zzsym.Choice("kind"+digits[i], len(kinds))]
	switch k {
	case kLen, kMin, kMax:
		return ask{kind: k, n: zzsym.Int("amount"+digits[i], 0, hi)}
	case kRough + kFill:
		return ask{kind: kFill, n: roughWeights[zzsym.Choice("weight"+digits[i], min(variety, len(roughWeights)))]}
	case kRough + kPct:
		return ask{kind: kPct, n: roughPercents[zzsym.Choice("percent"+digits[i], min(variety, len(roughPercents)))]}
	case kRough + kRatio:
		r := roughRatios[zzsym.Choice("ratio"+digits[i], min(variety, len(roughRatios)))]
		return ask{kind: kRatio, n: r.Num, den: r.Den}
	case kFill:
		return ask{kind: k, n: weights[zzsym.Choice("weight"+digits[i], min(variety, len(weights)))]}
	case kPct:
		return ask{kind: k, n: percents[zzsym.Choice("percent"+digits[i], min(variety, len(percents)))]}
	}
	r := ratios[zzsym.Choice("ratio"+digits[i], min(variety, len(ratios)))]
	return ask{kind: kRatio, n: r.Num, den: r.Den}
}

func build(asks []ask) Layout {
	cs := make([]Constraint, len(asks))
	for i, a := range asks {
		cs[i] = a.constraint()
	}
	return NewLayout(cs...)
}

// along gives the start and size of r along the layout axis.
func along(horizontal bool, r Rect) (start, size int) {
	if horizontal {
		return r.X, r.Width
	}
	return r.Y, r.Height
}

func across(horizontal bool, r Rect) (start, size int) { return along(!horizontal, r) }

// tiles asserts C14 for segments of area.
func tiles(segs Splitted, n int, area Rect, horizontal bool, spacing int) {
	zzsym.Assert(len(segs) == n, "not one segment per constraint")
	as, aw := along(horizontal, area)
	cs, cw := across(horizontal, area)
	prevEnd := as
	for i, s := range segs {
		x, w := along(horizontal, s)
		y, h := across(horizontal, s)
		zzsym.Assert(w >= 0, "segment of negative size")
		zzsym.Assert(x >= as && x+w <= as+aw, "segment reaches outside the area")
		zzsym.Assert(y == cs && h == cw, "segment does not span the cross axis")
		if i > 0 && spacing >= 0 {
			zzsym.Assert(x >= prevEnd, "segments overlap or are out of order")
			if (n-1)*spacing <= aw {
				zzsym.Assert(x-prevEnd >= spacing, "segments closer than the spacing")
			}
		}
		prevEnd = x + w
	}
}

func spacingOf(s int) Spacing {
	if s < 0 {
		return SpacingOverlap(-s)
	}
	return SpacingSpace(s)
}

var allKinds = []int{kLen, kMin, kMax, kFill, kPct, kRatio}

func C14_One() {
	hi := zzsym.Bound("cells", 30, 200)
	horizontal := zzsym.Bool("horizontal")
	a := anyAsk(0, allKinds, hi, 6)
	area := NewRect(zzsym.Int("w", 0, hi), zzsym.Int("h", 0, hi))
	area.X, area.Y = zzsym.Int("x", 0, hi), zzsym.Int("y", 0, hi)
	pad := Padding{Top: zzsym.Int("top", 0, 2), Right: zzsym.Int("right", 0, 2), Bottom: zzsym.Int("bottom", 0, 2), Left: zzsym.Int("left", 0, 2)}
	l := build([]ask{a}).WithFlex(flexes[zzsym.Choice("flex", len(flexes))]).WithPadding(pad)
	if horizontal {
		l = l.Horizontal()
	}
	inner := area.Inner(pad)
	segs := l.Split(area)
	tiles(segs, 1, inner, horizontal, 0)
	zzsym.ObserveInt("size", segs[0].Width)
	zzsym.Cover("split")
}

func C14_Two() {
	hi := zzsym.Bound("cells", 30, 200)
	asks := []ask{anyAsk(0, allKinds, hi, 2), anyAsk(1, allKinds, hi, 2)}
	spacing := zzsym.Int("spacing", 0, 4)
	area := NewRect(zzsym.Int("w", 0, hi), 1)
	l := build(asks).Horizontal().WithSpacing(spacingOf(spacing)).WithFlex(flexes[zzsym.Choice("flex", len(flexes))])
	segs := l.Split(area)
	tiles(segs, 2, area, true, spacing)
	zzsym.ObserveInt("size", segs[0].Width)
	zzsym.Cover("split")
}

func C14_Overlap() {
	hi := zzsym.Bound("cells", 30, 200)
	asks := []ask{anyAsk(0, []int{kLen, kMin, kFill}, hi, 1), anyAsk(1, []int{kLen, kMax, kPct}, hi, 1)}
	spacing := zzsym.Int("overlap", -4, -1)
	area := NewRect(1, zzsym.Int("h", 0, hi))
	l := build(asks).WithSpacing(spacingOf(spacing)).WithFlex(flexes[zzsym.Choice("flex", len(flexes))])
	segs := l.Split(area)
	tiles(segs, 2, area, false, spacing)
	zzsym.Cover("split")
}

func C14_Rough() {
	hi := zzsym.Bound("cells", 12, 30)
	kinds := []int{kRough + kPct, kRough + kRatio, kRough + kFill}
	asks := []ask{anyAsk(0, kinds, hi, 9)}
	if zzsym.Bool("second") {
		asks = append(asks, anyAsk(1, append(kinds, kMin), 3, 2))
	}
	spacing := zzsym.Int("spacing", 0, 1)
	area := NewRect(zzsym.Int("w", 0, hi), 1)
	l := build(asks).Horizontal().WithSpacing(spacingOf(spacing)).WithFlex(flexes[zzsym.Choice("flex", len(flexes))])
	segs := l.Split(area)
	tiles(segs, len(asks), area, true, spacing)
	zzsym.Cover("split")
}

func C14_Three() {
	hi := zzsym.Bound("cells", 20, 60)
	ks := [][]int{allKinds, {kFill, kMin}, {kMax, kFill}}
	if zzsym.Bound("all kinds", 0, 1) == 1 {
		ks = [][]int{allKinds, allKinds, allKinds}
	}
	asks := []ask{anyAsk(0, ks[0], hi, 1), anyAsk(1, ks[1], hi, 1), anyAsk(2, ks[2], hi, 1)}
	area := NewRect(zzsym.Int("w", 0, hi), 1)
	l := build(asks).Horizontal().WithFlex(flexes[zzsym.Choice("flex", len(flexes))])
	segs := l.Split(area)
	tiles(segs, 3, area, true, 0)
	zzsym.Cover("split")
}

// many equal constraints, where the linear system gets large
func C14_Many() {
	n := zzsym.Bound("segments", 13, 16)
	hi := zzsym.Bound("cells", 25, 100)
	asks := make([]ask, n)
	for i := range asks {
		asks[i] = ask{kind: kLen, n: 1}
	}
	area := NewRect(zzsym.Int("w", 0, hi), 1)
	l := build(asks).Horizontal().WithFlex(FlexSpaceBetween)
	segs := l.Split(area)
	tiles(segs, n, area, true, 0)
	zzsym.Cover("split")
}
