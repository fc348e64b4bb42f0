package app

import (
	"slices"
	"sync"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/casso"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// ---------------------------------------------------------------- C54

// That no two goroutines access a variable of the repository without an order
// is up to the engine, here as in all harnesses of this package.

// The app while it types, resizes, runs commands of all kinds and ends.
func C54_App() {
	w := setup()
	cause := []int{quit, cancelled, inputError, drawError, panicUpdate, panicCommand}[zzsym.Choice("cause", 6)] // others: see C43_Returns
	w.end(cause)
	if w.init == nil {
		w.init = func() Cmd { return Sequence(say(0), say(1)) }
	}
	also := zzsym.Choice("also", zzsym.Bound("also", 3, 4))
	if also&1 != 0 {
		go func() {
			w.tty.Width = 3
			zzsym.Winch()
		}()
	}
	if also&2 != 0 && cause != inputError {
		go func() { w.in.chunks <- []byte("k") }()
	}
	w.run()
	w.restored()
}

// both runs f and g at once.
func both(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		f()
	}()
	go func() {
		defer wg.Done()
		g()
	}()
	wg.Wait()
}

// Widgets that share their parts are rendered by different goroutines, each
// into its own buffer.
func C54_Widgets() {
	l := textwidget.NewLine(textwidget.NewSpan("a").WithStyle(NewStyle().Red()), textwidget.NewSpan("\u4e2d b"))
	t := textwidget.NewText(l, textwidget.NewLineStr("d e"), l)
	green, bold := NewStyle().Green(), NewStyle().Bold()
	block := blockwidget.New().Bordered().WithTitle(blockwidget.NewTitle(l))
	const popup, throbber, input = 3, 7, 9
	all := []func(Rect, *Buffer){
		t.WithStyle(green).Right().Render,
		paragraphwidget.New(t).WithBlock(block).Wrapped().Center().Render,
		func(a Rect, b *Buffer) {
			s := listwidget.NewState()
			s.Select(1)
			listwidget.New(t, t).WithHighlightStyle(bold).RenderStateful(a, b, &s)
		},
		popupwidget.New().WithBlock(block).Middle().Center().WithHeight(ConstraintLen(3)).Render,
		tabswidget.New(l, l).Select(1).Render,
		block.WithTitlesAlignment(AlignmentRight).Render,
		gaugewidget.New().WithLabel(l.Spans[1]).Render,
		func(a Rect, b *Buffer) {
			s := throbberwidget.NewState()
			throbberwidget.New().RenderStateful(a, b, s)
		},
		func(a Rect, b *Buffer) {
			s := scrollwidget.NewState(5)
			scrollwidget.New(scrollwidget.OrientationVerticalRight).RenderStateful(a, b, s)
		},
		func(a Rect, b *Buffer) {
			s := inputwidget.NewState()
			s.Append("ab")
			inputwidget.New().RenderStateful(a, b, &s)
		},
	}
	area := NewRect(6, 3)
	i, j := zzsym.Choice("one", len(all)), zzsym.Choice("other", len(all))
	splits := func(k int) bool { return k == popup || k == throbber || k == input }
	zzsym.Assume(!splits(i) || !splits(j)) // see C54_Layouts
	f, g := all[i], all[j]
	a, b := NewBufferEmpty(area), NewBufferEmpty(area)
	both(func() { f(area, &a) }, func() { g(area, &b) })
	c, d := NewBufferEmpty(area), NewBufferEmpty(area)
	f(area, &c)
	g(area, &d)
	for y := 0; y < area.Height; y++ {
		for x := 0; x < area.Width; x++ {
			p := NewPosition(x, y)
			zzsym.Assert(*a.CellAt(p) == *c.CellAt(p) && *b.CellAt(p) == *d.CellAt(p), "widgets look different when they are rendered at the same time")
		}
	}
}

// Throbbers are made and advance, solvers are used, keys are named and buffers
// compared by different goroutines.
func C54_Parts() {
	all := []func(){
		func() {
			v := casso.NewVariable()
			s := casso.NewSolver()
			_ = s.AddConstraint(casso.Equal(casso.Required).VariableLHS(v).ConstantRHS(1))
		},
		func() {
			s := throbberwidget.NewState()
			s.TryUpdate(s.Tick())
		},
		func() { _ = Key{Type: KeyEnter, Alt: true}.String() },
		func() {
			b := NewBufferEmpty(NewRect(3, 1))
			b.SetString(0, 0, "\u4e2d!", NewStyle().Blue())
			c := NewBufferEmpty(NewRect(3, 1))
			c.Diff(&b)
		},
	}
	both(all[zzsym.Choice("one", len(all))], all[zzsym.Choice("other", len(all))])
	zzsym.Cover("done")
}

// Layouts are split by different goroutines.
func C54_Layouts() {
	lay := NewLayout(ConstraintLen(1), ConstraintFill(1)).Horizontal().WithSpacing(1)
	all := []func() Splitted{
		func() Splitted { return lay.Split(NewRect(7, 2)) },
		func() Splitted { return NewLayout(ConstraintMin(2)).Vertical().Split(NewRect(2, 5)) },
	}
	f, g := all[zzsym.Choice("one", len(all))], all[zzsym.Choice("other", len(all))]
	var a, b Splitted
	both(func() { a = f() }, func() { b = g() })
	zzsym.Assert(slices.Equal(a, f()) && slices.Equal(b, g()), "layouts are split differently at the same time")
}
