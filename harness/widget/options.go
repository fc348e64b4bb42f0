package widget

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// options sets one option of a value, or none, and then derives two values
// from the result by setting any two options of it.
func options[T any](base func() T, show func(T) *Buffer, sets ...func(T) T) {
	n := len(sets)
	i, j, k := zzsym.Choice("set before", n+1), zzsym.Choice("first", n), zzsym.Choice("second", n)
	build := func() T {
		v := base()
		if i < n {
			v = sets[i](v)
		}
		return v
	}
	b := build()
	before := show(b)
	l := sets[j](b)
	alone := show(l)
	r := sets[k](b)
	both := sets[k](l)
	same(show(b), before, shared)
	same(show(l), alone, shared)
	same(show(r), show(sets[k](build())), shared)
	same(show(both), show(sets[k](sets[j](build()))), shared)
	same(show(b), show(build()), shared)
	zzsym.Cover("derived")
}

func bold() Style { return NewStyle().Bold().Red() }

func optionMark() string { return string(zzsym.Rune("x", "ascii")) }

func C21_TabsOptions() {
	x := optionMark()
	type T = tabswidget.Tabs
	line := textwidget.NewLineStr
	options(func() T { return tabswidget.New(line("1"), line("2"), line("3")) },
		func(t T) *Buffer { return shown(9, 2, t.Render) },
		func(t T) T { return t.Select(0) },
		func(t T) T { return t.Select(1) },
		func(t T) T { return t.Unselect() },
		func(t T) T { return t.WithBlock(blockwidget.New().WithTitleStr(x)) },
		func(t T) T { return t.WithBlock(blockwidget.New()) },
		func(t T) T { return t.WithTitles(line(x), line("4")) },
		func(t T) T { return t.WithStyle(bold()).WithHighlightStyle(bold().Dim()) },
		func(t T) T { return t.WithPaddingLeftStr("").WithPaddingRightStr(x) },
		func(t T) T { return t.WithDividerStr(x) },
	)
}

func C21_TitleOptions() {
	x := optionMark()
	type T = blockwidget.Title
	options(func() T { return blockwidget.NewTitleStr(x) },
		func(t T) *Buffer { return shown(5, 3, blockwidget.New().WithTitle(t).Render) },
		T.Top, T.Bottom, T.Left, T.Center, T.Right,
		func(t T) T { return t.WithPosition(blockwidget.TitlePositionBottom) },
	)
}

func C21_BlockOptions() {
	x := optionMark()
	type T = blockwidget.Block
	options(func() T { return blockwidget.New().Bordered() },
		func(t T) *Buffer {
			return shown(6, 3, func(a Rect, b *Buffer) {
				t.Render(a, b)
				fillwidget.New("f").Render(t.Inner(a), b)
			})
		},
		T.Rounded, T.Thick,
		func(t T) T { return t.WithBorderSides(blockwidget.SideLeft, blockwidget.SideTop) },
		func(t T) T { return t.WithPadding(NewPadding(1)) },
		func(t T) T { return t.WithTitleStr(x) },
		func(t T) T { return t.WithTitlePosition(blockwidget.TitlePositionBottom) },
		func(t T) T { return t.WithTitlesAlignment(AlignmentRight) },
		func(t T) T { return t.WithStyle(bold()).WithTitlesStyle(bold().Dim()) },
		func(t T) T { return t.WithBorderStyle(bold().Blue()) },
	)
}

func C21_ParagraphOptions() {
	x := optionMark()
	type T = paragraphwidget.Paragraph
	options(func() T { return paragraphwidget.NewStr("ab  " + x + " e\nf") },
		func(t T) *Buffer { return shown(4, 3, t.Render) },
		T.Left, T.Center, T.Right, T.Wrapped,
		func(t T) T { return t.WithWrap(paragraphwidget.NewWrap().WithTrim(false)) },
		func(t T) T { return t.WithWrap(paragraphwidget.NewWrap().WithTrim(true)) },
		func(t T) T { return t.WithScroll(1, 0) },
		func(t T) T { return t.WithScroll(0, 1) },
		func(t T) T { return t.WithStyle(bold()) },
		func(t T) T { return t.WithBlock(blockwidget.New().WithTitleStr(x)) },
		func(t T) T { return t.WithBlock(blockwidget.New()) },
	)
}

func C21_GaugeOptions() {
	x := optionMark()
	type T = gaugewidget.Gauge
	options(func() T { return gaugewidget.New() },
		func(t T) *Buffer { return shown(6, 2, t.Render) },
		func(t T) T { return t.WithPercent(50) },
		func(t T) T { return t.WithPercent(90) },
		func(t T) T { return t.WithRatio(0.3) },
		func(t T) T { return t.WithLabelStr(x) },
		func(t T) T { return t.WithLabel(textwidget.NewSpan("l")) },
		func(t T) T { return t.WithUnicode(true) },
		func(t T) T { return t.WithStyle(bold()) },
		func(t T) T { return t.WithGaugeStyle(bold().Dim()) },
	)
}

func C21_ListOptions() {
	x := optionMark()
	type T = listwidget.List
	options(func() T {
		return listwidget.New(textwidget.NewTextStr("a"), textwidget.NewTextStr("b\nc"), textwidget.NewTextStr("d"))
	},
		func(t T) *Buffer {
			return shown(4, 3, func(a Rect, b *Buffer) {
				s := listwidget.NewState()
				s.Select(1)
				t.RenderStateful(a, b, &s)
			})
		},
		func(t T) T { return t.WithItems(textwidget.NewTextStr(x), textwidget.NewTextStr("i")) },
		func(t T) T { return t.WithScrollPadding(1) },
		func(t T) T { return t.WithDirection(listwidget.DirectionBottomToTop) },
		func(t T) T { return t.WithHighlightSymbol(x) },
		func(t T) T { return t.WithHighlightSpacing(listwidget.HighlightSpacingNever) },
		func(t T) T { return t.WithRepeatHighlightSymbol(true) },
		func(t T) T { return t.WithHighlightStyle(bold()).WithStyle(bold().Dim()) },
		func(t T) T { return t.WithBlock(blockwidget.New().WithTitleStr(x)) },
		func(t T) T { return t.WithBlock(blockwidget.New()) },
	)
}

func C21_PopupOptions() {
	x := optionMark()
	type T = popupwidget.Popup
	options(func() T { return popupwidget.New().WithWidth(ConstraintLen(3)).WithHeight(ConstraintLen(1)) },
		func(t T) *Buffer {
			return shown(5, 3, t.Render)
		},
		T.Bottom, T.Left,
		func(t T) T { return t.WithWidth(ConstraintLen(2)) },
		func(t T) T { return t.WithHeight(ConstraintLen(3)) },
		func(t T) T { return t.WithPadding(NewPadding(1)) },
		func(t T) T { return t.WithStyle(bold()) },
		func(t T) T { return t.WithBlock(blockwidget.New().WithTitleStr(x)) },
		func(t T) T { return t.WithBlock(blockwidget.New()) },
	)
}

func C21_InputOptions() {
	x := optionMark()
	type T = inputwidget.Input
	empty := zzsym.Choice("empty", 2) == 1
	options(func() T { return inputwidget.New() },
		func(t T) *Buffer {
			return shown(6, 3, func(a Rect, b *Buffer) {
				s := inputwidget.NewState()
				if !empty {
					s.Append("ab")
				}
				t.RenderStateful(a, b, &s)
			})
		},
		T.Right, T.Bottom, T.Center,
		func(t T) T { return t.WithPrompt(x) },
		func(t T) T { return t.WithPlaceholder(x) },
		func(t T) T { return t.WithPromptStyle(bold()).WithPlaceholderStyle(bold().Dim()) },
		func(t T) T { return t.WithCursorStyle(bold()) },
		func(t T) T { return t.WithBlock(blockwidget.New().WithTitleStr(x)) },
		func(t T) T { return t.WithBlock(blockwidget.New()) },
	)
}

func C21_TextOptions() {
	x := optionMark()
	type T = textwidget.Text
	options(func() T { return textwidget.NewTextStr("a\n" + x) },
		func(t T) *Buffer { return shown(4, 4, t.Render) },
		T.Left, T.Center, T.Right,
		func(t T) T { return t.WithStyle(bold()) },
		func(t T) T { return t.WithStyle(NewStyle().Dim()) },
		func(t T) T { return t.WithLinesStr(x) },
		func(t T) T { return t.WithLines(textwidget.NewLineStr("z").Right()) },
	)
}

func C21_LineOptions() {
	x := optionMark()
	type T = textwidget.Line
	options(func() T {
		return textwidget.NewLine(textwidget.NewSpan("a"), textwidget.NewSpan(x).WithStyle(NewStyle().Red()))
	},
		func(t T) *Buffer { return shown(5, 1, t.Render) },
		T.Left, T.Center, T.Right,
		func(t T) T { return t.WithStyle(bold()) },
		func(t T) T { return t.WithStyle(NewStyle().Dim()) },
		func(t T) T { return t.WithSpansStr(x) },
		func(t T) T { return t.WithSpans(textwidget.NewSpan("z").WithStylePatch(bold())) },
	)
}

func C21_StyleOptions() {
	type T = Style
	options(func() T { return NewStyle() },
		func(t T) *Buffer { return shown(2, 1, fillwidget.New("f").WithStyle(t).Render) },
		T.Red, T.OnBlue, T.Bold, T.Dim,
		func(t T) T { return t.RGB(1, 2, 3) },
		func(t T) T { return t.OnRGB(4, 5, 6) },
		func(t T) T { return t.WithoutModifier(ModifierBold) },
		func(t T) T { return t.Patched(NewStyle().Green().Italic()) },
	)
}

func C21_LayoutOptions() {
	n := zzsym.Int("length", 1, 4)
	type T = Layout
	options(func() T { return NewLayout(ConstraintLen(2), ConstraintMin(1)) },
		func(t T) *Buffer {
			return shown(8, 6, func(a Rect, b *Buffer) {
				for i, r := range t.Split(a) {
					fillwidget.New(letter(i)).Render(r, b)
				}
			})
		},
		T.Horizontal, T.Vertical,
		func(t T) T { return t.WithFlex(FlexEnd) },
		func(t T) T { return t.WithSpacing(SpacingSpace(1)) },
		func(t T) T { return t.WithPadding(NewPadding(1)) },
		func(t T) T { return t.WithConstraints(ConstraintLen(n)) },
	)
}

func C21_ThrobberOptions() {
	type T = throbberwidget.Throbber
	i := zzsym.Choice("type", 4)
	options(func() T { return throbberwidget.New() },
		func(t T) *Buffer {
			return shown(4, 2, func(a Rect, b *Buffer) { t.RenderStateful(a, b, throbberwidget.NewState()) })
		},
		func(t T) T { return t.WithType(throbberwidget.Type(0)) },
		func(t T) T { return t.WithType(throbberwidget.Type(1 + i)) },
	)
}
