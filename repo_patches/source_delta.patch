From c595b4d8b04a08b3fceaccaed54da1d6d91baa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 01/59] fix: Padding.WithLeft sets the left side, not the
 bottom

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From c6ab8fd53158d55c510c0248564efdc9a819dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 02/59] fix: SetStringN skips zero-width clusters and clips
 wide ones at the limit

---
 buffer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..8241142 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,16 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		// control characters and lone zero-width clusters take no cell
+		if width == 0 {
+			continue
+		}
+
+		// a wide cluster that does not fit must not bleed past the limit
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 311c40533ac38ef07c5c94850e91aabaa596cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 03/59] fix: Buffer.Diff skips every cell covered by a symbol
 wider than two columns

---
 buffer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 8241142..4ad6125 100644
--- a/buffer.go
+++ b/buffer.go
@@ -68,7 +68,12 @@ func (b *Buffer) Diff(other *Buffer) []PositionedCell {
 		previousWidth := uniseg.StringWidth(previous.Symbol)
 		currentWidth := uniseg.StringWidth(current.Symbol)
 
-		toSkip = max(0, currentWidth-1)
+		// cells covered by a wide symbol stay covered until its last column
+		if toSkip > 0 {
+			toSkip--
+		} else {
+			toSkip = max(0, currentWidth-1)
+		}
 
 		affectedWidth := max(previousWidth, currentWidth)
 
-- 
2.43.0


From c1d7fa9af44bb7e8ef411e45aa7b62f36b0c98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 04/59] fix: unsupported and invalid colors are drawn as the
 default color

An empty color sequence made the terminal reset all attributes, and a
color that failed to convert dereferenced nil.
---
 internal/ansi/command.go |  4 ++--
 terminal_backend.go      | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..e28c029 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -63,9 +63,9 @@ func (c SetColors) WriteANSI(w io.Writer) error {
 	switch {
 	case c.Foreground != nil && c.Background != nil:
 		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
+	case c.Foreground != nil:
 		return write(w, CSI+c.Foreground.Sequence(false)+"m")
-	case c.Foreground != nil && c.Background == nil:
+	case c.Background != nil:
 		return write(w, CSI+c.Background.Sequence(true)+"m")
 	default:
 		return nil
diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..baabb73 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -171,8 +171,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		if cell.Fg != fg || cell.Bg != bg {
 			if err := d.queue(ansi.SetColors(ansi.Colors{
-				Foreground: d.colorProfile.Convert(cell.Fg),
-				Background: d.colorProfile.Convert(cell.Bg),
+				Foreground: d.convertColor(cell.Fg),
+				Background: d.convertColor(cell.Bg),
 			})); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
@@ -199,6 +199,18 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 	return nil
 }
 
+// convertColor converts the color to one supported by the output.
+// Colors that can't be shown, whose sequence would be empty, turn into the default one.
+func (d *DefaultBackend) convertColor(color Color) Color {
+	converted := d.colorProfile.Convert(color)
+
+	if converted == nil || converted == Color(termenv.NoColor{}) {
+		return ResetColor{}
+	}
+
+	return converted
+}
+
 // Flush implements TerminalBackend.
 func (d *DefaultBackend) Flush() error {
 	return d.outputBuf.Flush()
-- 
2.43.0


From 451f54258bdde2a7069a51ee9a3342717158a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 05/59] fix: Draw accounts for the width of the printed symbol
 when it tracks the cursor

---
 terminal_backend.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index baabb73..d1f2a36 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -9,6 +9,7 @@ import (
 	"github.com/metafates/bento/internal/ansi"
 	"github.com/metafates/bento/internal/bit"
 	"github.com/muesli/termenv"
+	"github.com/rivo/uniseg"
 )
 
 type TerminalBackend interface {
@@ -132,7 +133,7 @@ func (d *DefaultBackend) ClearUntilNewLine() error {
 // Draw implements TerminalBackend.
 func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 	var (
-		lastPos  *Position
+		nextPos  *Position
 		modifier Modifier
 	)
 
@@ -145,7 +146,7 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 		x, y := pc.Position.X, pc.Position.Y
 		cell := pc.Cell
 
-		if lastPos == nil || lastPos.X+1 != x || lastPos.Y != y {
+		if nextPos == nil || nextPos.X != x || nextPos.Y != y {
 			if err := d.queue(ansi.MoveTo{
 				Column: x,
 				Row:    y,
@@ -154,7 +155,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 			}
 		}
 
-		lastPos = &Position{X: x, Y: y}
+		// printing moves the cursor by the width of the symbol
+		nextPos = &Position{X: x + uniseg.StringWidth(cell.Symbol), Y: y}
 
 		if cell.Modifier != modifier {
 			diff := _StyleModifierDiff{
-- 
2.43.0


From a97fca168bac8eb6c473737a3090f9a1cdf1f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 06/59] fix: hidden modifier is emitted, and removing one blink
 keeps the other

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index d1f2a36..7672dbd 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -350,6 +350,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -386,6 +398,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From e3eeafeb686340e28b12e5742a158d9badcdb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 07/59] fix: a failed draw no longer leaks into the next frame

The frame in progress stayed in the buffer, and cells that did or did
not reach the screen before the failure were never repainted.
---
 terminal.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 9e71d4a..254ad41 100644
--- a/terminal.go
+++ b/terminal.go
@@ -117,7 +117,14 @@ func (t *Terminal) DisableRawMode() error {
 	return t.backend.DisableRawMode()
 }
 
-func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
+func (t *Terminal) Draw(widget Widget) (_ CompletedFrame, err error) {
+	// a failed draw may have reached the screen in part
+	defer func() {
+		if err != nil {
+			t.invalidate()
+		}
+	}()
+
 	frame := t.GetFrame()
 
 	frame.RenderWidget(widget, frame.Area())
@@ -285,6 +292,18 @@ func (t *Terminal) Size() (Size, bool, error) {
 	return t.backend.GetSize()
 }
 
+// invalidate drops the frame in progress and forgets what is on the screen,
+// so that the next draw starts blank and repaints every cell.
+func (t *Terminal) invalidate() {
+	t.CurrentBuffer().Reset()
+
+	previous := t.PreviousBuffer()
+
+	for i := range previous.content {
+		previous.content[i].SetSymbol("")
+	}
+}
+
 func (t *Terminal) setViewportArea(area Rect) {
 	t.CurrentBuffer().Resize(area)
 	t.PreviousBuffer().Resize(area)
-- 
2.43.0


From 9e099657f051697230db0655e36bf57751babdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 08/59] fix: layout no longer depends on map iteration order

The solver picked entering, leaving and subject symbols in map order, so the
same layout could be split differently from call to call. Pick the oldest
candidate instead.
---
 internal/casso/solver.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..aaaa286 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -303,7 +303,9 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				// ties are broken by symbol so that the result
+				// does not depend on the map iteration order
+				if tempRatio < ratio || (tempRatio == ratio && ok && s.Value < found.Value) {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,12 +431,18 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
+	subject := newInvalidSymbol()
+
 	for s := range row.cells {
 		if s.Type == SymbolTypeExternal {
-			return s
+			subject = firstSymbol(subject, s)
 		}
 	}
 
+	if subject.Type != SymbolTypeInvalid {
+		return subject
+	}
+
 	for _, s := range []_Symbol{tag.marker, tag.other} {
 		switch s.Type {
 		case SymbolTypeSlack, SymbolTypeError:
@@ -458,22 +466,36 @@ func allDummies(row _Row) bool {
 }
 
 func getEnteringSymbol(objective _Row) _Symbol {
+	entering := newInvalidSymbol()
+
 	for s, v := range objective.cells {
 		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
+			entering = firstSymbol(entering, s)
 		}
 	}
 
-	return newInvalidSymbol()
+	return entering
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
+	pivotable := newInvalidSymbol()
+
 	for s := range row.cells {
 		switch s.Type {
 		case SymbolTypeSlack, SymbolTypeError:
-			return s
+			pivotable = firstSymbol(pivotable, s)
 		}
 	}
 
-	return newInvalidSymbol()
+	return pivotable
+}
+
+// firstSymbol returns the symbol that was created first. Choosing symbols by
+// age rather than by map order keeps the solution deterministic.
+func firstSymbol(a, b _Symbol) _Symbol {
+	if a.Type == SymbolTypeInvalid || b.Value < a.Value {
+		return b
+	}
+
+	return a
 }
-- 
2.43.0


From 42365f801e1e1981e8aad8c246b616574b3227d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 09/59] fix: layouts with many constraints no longer run out of
 solver symbols

Symbol ids were 8 bits wide and wrapped, so a layout with more than 255 solver
symbols (15 segments, say) mixed variables up or never finished.
---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index aaaa286..f44c85a 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 55de6fa329c6a0f73f8dede474c603ab912584b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 10/59] fix: FetchChanges no longer repeats blank entries from
 the previous call

---
 internal/casso/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index f44c85a..bf79d95 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -130,7 +130,7 @@ func (s *Solver) FetchChanges() []PublicChange {
 		s.shouldClearChanges = true
 	}
 
-	clear(s.publicChanges)
+	s.publicChanges = s.publicChanges[:0]
 
 	for v := range s.changed {
 		if varData, ok := s.varData[v]; ok {
-- 
2.43.0


From bed30aadc8de98809287014733b57122f42780b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 11/59] fix: widgets no longer panic or draw outside a partly
 visible area

---
 widget/blockwidget/block.go         | 2 +-
 widget/clearwidget/clear.go         | 2 ++
 widget/fillwidget/fill.go           | 2 ++
 widget/gaugewidget/gauge.go         | 2 ++
 widget/inputwidget/input.go         | 2 ++
 widget/listwidget/list.go           | 2 ++
 widget/paragraphwidget/paragraph.go | 2 ++
 widget/popupwidget/popup.go         | 2 ++
 widget/scrollwidget/scroll.go       | 2 ++
 widget/tabswidget/tabs.go           | 2 ++
 10 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..295e53b 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
diff --git a/widget/clearwidget/clear.go b/widget/clearwidget/clear.go
index aba3f79..ffee83b 100644
--- a/widget/clearwidget/clear.go
+++ b/widget/clearwidget/clear.go
@@ -13,6 +13,8 @@ func New() Clear {
 }
 
 func (Clear) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			buffer.CellAt(bento.NewPosition(x, y)).Reset()
diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 81a0bf3..0d2fbb6 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -22,6 +22,8 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 }
 
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			pos := bento.NewPosition(x, y)
diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..5ab5095 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -103,6 +103,8 @@ func (g Gauge) WithUnicode(unicode bool) Gauge {
 }
 
 func (g Gauge) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, g.style)
 
 	if g.block != nil {
diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..5c88a52 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -102,6 +102,8 @@ func (i Input) WithAlignment(alignment bento.Alignment) Input {
 }
 
 func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, i.style)
 
 	if i.block != nil {
diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..effb972 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -80,6 +80,8 @@ func (l List) WithScrollPadding(padding int) List {
 }
 
 func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, l.style)
 
 	listArea := area
diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..dcc2236 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -83,6 +83,8 @@ func (p Paragraph) Wrapped() Paragraph {
 }
 
 func (p Paragraph) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, p.Style)
 
 	if p.Block != nil {
diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 5d6e1ed..d412f82 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -100,6 +100,8 @@ func (p Popup) Inner(area bento.Rect) bento.Rect {
 }
 
 func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
 	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
 
diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..9231e2f 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -73,6 +73,8 @@ func (s Scroll) Inner(area bento.Rect) bento.Rect {
 }
 
 func (s Scroll) RenderStateful(area bento.Rect, buffer *bento.Buffer, state State) {
+	area = area.Intersection(buffer.Area())
+
 	if state.contentLen == 0 || s.trackLenExcludingArrowHeads(area) == 0 {
 		return
 	}
diff --git a/widget/tabswidget/tabs.go b/widget/tabswidget/tabs.go
index 4959a46..974c759 100644
--- a/widget/tabswidget/tabs.go
+++ b/widget/tabswidget/tabs.go
@@ -91,6 +91,8 @@ func (t Tabs) Unselect() Tabs {
 }
 
 func (t Tabs) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, t.style)
 
 	if t.block != nil {
-- 
2.43.0


From 444c442733c8cd08da3c69d6fc907d801f1a2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 12/59] fix: Gauge.WithRatio refuses ratios outside 0 and 1

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 5ab5095..5d0e065 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From 477a8c426124afd1f5f9b7d0c2780b69768afa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 13/59] fix: a nearly full unicode gauge no longer draws past
 its area

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 5d0e065..81a9213 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -160,7 +160,7 @@ func (g Gauge) render(area bento.Rect, buffer *bento.Buffer) {
 			}
 		}
 
-		if g.useUnicode && g.ratio < 1 {
+		if g.useUnicode && end < area.Right() {
 			buffer.CellAt(bento.NewPosition(end, y)).SetSymbol(getUnicodeBlock(frac))
 		}
 	}
-- 
2.43.0


From 8c1e0ce324182c55be838db99de10b16cbd7bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 14/59] fix: values derived from one builder no longer share
 slices

---
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..09321f3 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 295e53b..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..08c7e86 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -133,12 +133,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 486fc36036ca43cffc1a0842a9aead1d99e66804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 15/59] fix: a negative list offset no longer panics on render

---
 widget/listwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..8e9bfc8 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -65,7 +65,7 @@ func (s *State) update(key bento.Key) bool {
 }
 
 func (s *State) SetOffset(offset int) {
-	s.offset = offset
+	s.offset = max(0, offset)
 }
 
 func (s *State) Select(index int) {
-- 
2.43.0


From e67d54343a047d51b2304ff538a678a970afbd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 16/59] fix: moving down from the last list item no longer
 jumps to the first

---
 widget/listwidget/state.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 8e9bfc8..a1020cb 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -138,3 +138,13 @@ func (s *State) Selected(max_ int) (index int, ok bool) {
 
 	return min(max_, max(0, *s.selected)), true
 }
+
+// saturatingAdd adds without wrapping around, since the selected index is [math.MaxInt]
+// after [State.SelectLast] until the list is rendered
+func saturatingAdd(a, b int) int {
+	if b > 0 && a > math.MaxInt-b {
+		return math.MaxInt
+	}
+
+	return a + b
+}
-- 
2.43.0


From d61bedf2975b204acb4bc82df3eccfe95e522330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 17/59] fix: the style of a centred or right-aligned line lies
 under its text

---
 widget/textwidget/line.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 08c7e86..8a9fba9 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -232,8 +232,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -257,6 +255,8 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
+
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -272,6 +272,8 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
+
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
-- 
2.43.0


From 52110b79b0cd2c06c65f4aeea2a60635e75882fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 18/59] fix: truncating a line at the start no longer loses
 text behind a zero-width cluster

---
 widget/textwidget/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..0fd2cf8 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -180,9 +180,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 	}
 
 	for {
-		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
+		cluster, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
+		if cluster == "" {
 			break
 		}
 
-- 
2.43.0


From e9c82722ffe3dac0c925367541a6a99e7f4917ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 19/59] fix: an unwrapped paragraph shows each line on its own
 row

---
 internal/reflow/truncator.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..9287296 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,7 +35,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
@@ -43,9 +43,10 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 	horizontalOffset := lt.horizontalOffset
 	currentAlignment := bento.AlignmentLeft
 
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
+	if len(lt.inputLines) > 0 {
+		line := lt.inputLines[0]
+		lt.inputLines = lt.inputLines[1:]
+
 		currentLine := line.Graphemes
 		currentAlignment = line.Alignment
 		alignment := line.Alignment
@@ -83,8 +84,6 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		}
 	}
 
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
-
 	if linesExhausted {
 		return WrappedLine{}, false
 	}
-- 
2.43.0


From 3761567203a6f4a091281c53c51cd41376f41058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 20/59] fix: the word wrapper no longer carries emptied words
 into later lines

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 5f13e1f87ecea8cd0d384319f240484aeecf57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 21/59] fix: a wrapped line that ends in a wide symbol no
 longer exceeds the width

---
 internal/reflow/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 2d771a6..8052e86 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
-- 
2.43.0


From 3062a23014a6a93878f0874df8d69757b4f2111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 22/59] fix: a paragraph without alignment no longer panics

---
 widget/paragraphwidget/paragraph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index dcc2236..0572a5a 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -180,7 +180,7 @@ func getLineOffset(lineWidth, textAreaWidth int, alignment bento.Alignment) int
 	switch alignment {
 	case bento.AlignmentCenter:
 		return max(0, textAreaWidth/2-lineWidth/2)
-	case bento.AlignmentLeft:
+	case bento.AlignmentLeft, bento.AlignmentNone:
 		return 0
 	case bento.AlignmentRight:
 		return max(0, textAreaWidth-lineWidth)
-- 
2.43.0


From 7796bc6273741900c34251bca6bd072d371fecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 23/59] fix: horizontal scrollbars are drawn on the edge they
 are named after

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 9231e2f..fe43513 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -267,7 +267,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -275,7 +275,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 9227fe3336dee823c591f4ae32773867cfeca44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 24/59] fix: a scrollbar without arrows uses its whole track

---
 widget/scrollwidget/scroll.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index fe43513..872c30e 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -114,7 +114,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var begin *_Symbol
 
-	if s.beginSymbol != nil {
+	if s.beginSymbol != nil && *s.beginSymbol != "" {
 		begin = &_Symbol{
 			Symbol: *s.beginSymbol,
 			Style:  s.beginStyle,
@@ -137,7 +137,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var end *_Symbol
 
-	if s.endSymbol != nil {
+	if s.endSymbol != nil && *s.endSymbol != "" {
 		end = &_Symbol{
 			Symbol: *s.endSymbol,
 			Style:  s.endStyle,
@@ -145,7 +145,10 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	}
 
 	// <
-	symbols := []*_Symbol{begin}
+	var symbols []*_Symbol
+	if begin != nil {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -157,7 +160,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From 88f7ca5eecfe30971aba70f1c1599c4a4fdc46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 25/59] fix: a popup's padding is applied once

---
 widget/popupwidget/popup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index d412f82..7d967d4 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -86,7 +86,7 @@ func (p Popup) Right() Popup {
 
 func (p Popup) Inner(area bento.Rect) bento.Rect {
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
+	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
 	inner := area
 	inner = vertical.Split(inner).Unwrap()
@@ -103,7 +103,7 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	area = area.Intersection(buffer.Area())
 
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
+	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
 	area = vertical.Split(area).Unwrap()
 	area = horizontal.Split(area).Unwrap()
-- 
2.43.0


From cbb6b2e77179e740de970209c20657476db66ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 26/59] fix: a popup renders its content

---
 widget/popupwidget/popup.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 7d967d4..c985eec 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -105,6 +105,8 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
 	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
+	inner := p.Inner(area)
+
 	area = vertical.Split(area).Unwrap()
 	area = horizontal.Split(area).Unwrap()
 
@@ -114,4 +116,8 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	if p.Block != nil {
 		p.Block.Render(area, buffer)
 	}
+
+	if p.Content != nil {
+		p.Content.Render(inner, buffer)
+	}
 }
-- 
2.43.0


From 40b90cf261b62677a7231af6c56b144659f66371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 27/59] fix: deleting a word no longer leaves an empty grapheme
 behind

---
 widget/inputwidget/state.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..464c550 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -86,23 +86,14 @@ func (s *State) DeleteWordUnderCursor() {
 }
 
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
-	before, under, after := s.splitAtCursor()
+	start := s.cursor
 
-	current := under
-
-	for cond(current) {
-		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
-		}
-		s.MoveCursorLeft()
-
-		current = before[len(before)-1]
-		before = before[:len(before)-1]
+	for start > 0 && cond(s.graphemes[start-1]) {
+		start--
 	}
 
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	s.graphemes = slices.Delete(s.graphemes, start, s.cursor)
+	s.setCursor(start)
 }
 
 func (s *State) DeleteUnderCursor() {
-- 
2.43.0


From 74db5d2a1e332e5a2bc2d373369be13a1bae7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 28/59] fix: the input keeps its cursor in view at any width

---
 widget/inputwidget/state.go | 59 ++++++++++---------------------------
 1 file changed, 16 insertions(+), 43 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 464c550..cdd1559 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
-	"github.com/metafates/bento/internal/sliceutil"
 	"github.com/rivo/uniseg"
 )
 
@@ -208,61 +207,35 @@ func (s *State) splitAtCursor() (before grapheme.Graphemes, under grapheme.Graph
 }
 
 func (s *State) getBounds(maxWidth int) (int, int) {
-	if len(s.graphemes) == 0 {
-		return 0, 0
-	}
-
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
+	// start with the grapheme before the cursor in view
+	firstVisibleIndex := min(s.offset, max(0, s.cursor-1))
 
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
+	var width int
 
-	var widthFromOffset int
-
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
-			break
-		}
+	for _, g := range s.graphemes[firstVisibleIndex:s.cursor] {
+		width += g.Width()
+	}
 
-		widthFromOffset += g.Width()
+	// hide graphemes at the start until the cursor fits
+	for width > maxWidth && firstVisibleIndex < s.cursor {
+		width -= s.graphemes[firstVisibleIndex].Width()
 
-		lastVisibleIndex++
+		firstVisibleIndex++
 	}
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
+	lastVisibleIndex := s.cursor
 
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
+	for lastVisibleIndex < len(s.graphemes) && width+s.graphemes[lastVisibleIndex].Width() <= maxWidth {
+		width += s.graphemes[lastVisibleIndex].Width()
 
 		lastVisibleIndex++
-
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
 	}
 
-	for indexToDisplay < firstVisibleIndex {
+	// show hidden graphemes again if there is room left behind the end
+	for lastVisibleIndex == len(s.graphemes) && firstVisibleIndex > 0 && width+s.graphemes[firstVisibleIndex-1].Width() <= maxWidth {
 		firstVisibleIndex--
 
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
-
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
-		}
-	}
-
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
-
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		width += s.graphemes[firstVisibleIndex].Width()
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From 74459f18502aebb8ac50fcfc4035b0322f2f8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 29/59] fix: an unknown CSI message keeps its bytes after the
 next read

---
 input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 4490cb3..31b8191 100644
--- a/input.go
+++ b/input.go
@@ -834,7 +834,8 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		// the input is overwritten by the next read
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From 5904d72395726ae2769fb71de8f11c724485ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 30/59] fix: focus reports are recognised when more input
 follows

---
 input.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/input.go b/input.go
index 31b8191..74e4d18 100644
--- a/input.go
+++ b/input.go
@@ -719,11 +719,23 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // detectReportFocus detects a focus report sequence.
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
-	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
-		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
-		return true, 3, BlurMsg{}
+	const reportLen = 3
+	if len(input) < reportLen {
+		return false, 0, nil
+	}
+
+	if len(input) > reportLen {
+		// The report for the lost focus also starts some keys.
+		if _, ok := sequences[string(input[:reportLen+1])]; ok {
+			return false, 0, nil
+		}
+	}
+
+	switch string(input[:reportLen]) {
+	case "\x1b[I":
+		return true, reportLen, FocusMsg{}
+	case "\x1b[O":
+		return true, reportLen, BlurMsg{}
 	}
 	return false, 0, nil
 }
-- 
2.43.0


From a6af94b72d8d77d3492165d26ca73f0b6939946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 31/59] fix: input that merely contains a mouse report is not
 taken for one

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 74e4d18..3e12031 100644
--- a/input.go
+++ b/input.go
@@ -610,7 +610,7 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
-- 
2.43.0


From 783476f6e0404e418cd8a4dd56aa6179c60b7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 32/59] fix: a typed or pasted U+FFFD is delivered

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 3e12031..826131e 100644
--- a/input.go
+++ b/input.go
@@ -673,7 +673,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -775,7 +775,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From 2e25c8665c7a0b055727f46030d3d80026eb7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 33/59] fix: events that a full read cuts in two are decoded as
 a whole

---
 input.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 826131e..ff30f30 100644
--- a/input.go
+++ b/input.go
@@ -610,13 +610,19 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
+	partialCSIRe  = regexp.MustCompile(`^\x1b?\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
 	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
+// X10 mouse events have a length of 6 bytes
+const mouseEventX10Len = 6
+
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	if canHaveMoreData && isPartial(b) {
+		return 0, nil
+	}
+
 	// Detect mouse events.
-	// X10 mouse events have a length of 6 bytes
-	const mouseEventX10Len = 6
 	if len(b) >= mouseEventX10Len && b[0] == '\x1b' && b[1] == '[' {
 		switch b[2] {
 		case 'M':
@@ -673,6 +679,10 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
+		if canHaveMoreData && !utf8.FullRune(b[i:]) {
+			// The rest of the rune is yet to be read.
+			return 0, nil
+		}
 		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
@@ -716,6 +726,20 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	return 1, unknownInputByteMsg(b[0])
 }
 
+// isPartial reports whether the whole input may be the beginning of a sequence
+// that is yet to be read completely.
+func isPartial(input []byte) bool {
+	if _, ok := sequencePrefixes[string(input)]; ok {
+		return true
+	}
+
+	if len(input) < mouseEventX10Len && bytes.HasPrefix(input, []byte("\x1b[M")) {
+		return true
+	}
+
+	return partialCSIRe.Match(input)
+}
+
 // detectReportFocus detects a focus report sequence.
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
@@ -830,6 +854,17 @@ var extSequences = func() map[string]Key {
 	return s
 }()
 
+// sequencePrefixes is the beginnings of all sequences.
+var sequencePrefixes = func() map[string]struct{} {
+	s := map[string]struct{}{}
+	for seq := range extSequences {
+		for i := 1; i < len(seq); i++ {
+			s[seq[:i]] = struct{}{}
+		}
+	}
+	return s
+}()
+
 // detectSequence uses a longest prefix match over the input
 // sequence and a hash map.
 func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
-- 
2.43.0


From 1ae63a06a8fc9f63888bc8cea7ca10c25b3af9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 34/59] fix: a cancelled app no longer hangs on its next
 command

---
 app.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 93a426b..88af54f 100644
--- a/app.go
+++ b/app.go
@@ -241,6 +241,14 @@ func (a *appRunner) Send(msg Msg) {
 	}
 }
 
+// execute passes the command to the commands handler.
+func (a *appRunner) execute(cmd Cmd) {
+	select {
+	case <-a.ctx.Done():
+	case a.cmds <- cmd:
+	}
+}
+
 // handleCommands runs commands in a goroutine and sends the result to the
 // program's message channel.
 func (a *appRunner) handleCommands() {
@@ -344,7 +352,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+			a.execute(cmd)
 			a.draw(model)
 		}
 	}
-- 
2.43.0


From 828aa9d126dfd47b6753b43734c55174eb503e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 35/59] fix: a batch runs its commands

---
 app.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app.go b/app.go
index 88af54f..e2caf43 100644
--- a/app.go
+++ b/app.go
@@ -322,6 +322,11 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					a.execute(cmd)
+				}
+				continue
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
-- 
2.43.0


From 2653faada2390a018bb73ea217dc8fae8a4d146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 36/59] fix: a sequence waits for the sequences and batches in
 it

---
 app.go | 54 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index e2caf43..b53f88e 100644
--- a/app.go
+++ b/app.go
@@ -289,6 +289,34 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	}()
 }
 
+// runSequence executes commands one at a time, in order.
+func (a *appRunner) runSequence(cmds []Cmd) {
+	for _, cmd := range cmds {
+		if cmd == nil {
+			continue
+		}
+
+		switch msg := cmd().(type) {
+		case sequenceMsg:
+			a.runSequence(msg)
+		case BatchMsg:
+			var g errgroup.Group
+
+			for _, cmd := range msg {
+				cmd := cmd
+				g.Go(func() error {
+					a.runSequence([]Cmd{cmd})
+					return nil
+				})
+			}
+
+			_ = g.Wait() // wait for all commands from batch msg to finish
+		default:
+			a.Send(msg)
+		}
+	}
+}
+
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
@@ -328,31 +356,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 				continue
 			case sequenceMsg:
-				go func() {
-					// Execute commands one at a time, in order.
-					for _, cmd := range msg {
-						if cmd == nil {
-							continue
-						}
-
-						msg := cmd()
-						if batchMsg, ok := msg.(BatchMsg); ok {
-							g, _ := errgroup.WithContext(a.ctx)
-							for _, cmd := range batchMsg {
-								cmd := cmd
-								g.Go(func() error {
-									a.Send(cmd())
-									return nil
-								})
-							}
-
-							_ = g.Wait() // wait for all commands from batch msg to finish
-							continue
-						}
-
-						a.Send(msg)
-					}
-				}()
+				go a.runSequence(msg)
 			}
 
 			var cmd Cmd
-- 
2.43.0


From 85da143ff74540ee65bdae145cc8e22b5bd40572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 37/59] fix: a failed draw ends the app instead of hanging it

---
 app.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index b53f88e..edbc5fd 100644
--- a/app.go
+++ b/app.go
@@ -202,7 +202,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,7 +228,9 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	if err := a.draw(model); err != nil {
+		return model, err
+	}
 
 	if err := a.shutdown(); err != nil {
 		return model, fmt.Errorf("shutdown: %w", err)
@@ -362,7 +367,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
 			a.execute(cmd)
-			a.draw(model)
+
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -383,11 +391,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From 0f7b75358ce7003aed68e65b85f451dc57149470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 38/59] fix: the terminal is restored however the app ends

---
 app.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/app.go b/app.go
index edbc5fd..c3a488f 100644
--- a/app.go
+++ b/app.go
@@ -194,7 +194,18 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	defer func() {
+		r := recover()
+
+		// the terminal is restored however the app ends
+		shutdownErr := a.shutdown()
+
+		if r != nil {
+			model, err = a.model, panicError(r)
+		} else if err == nil && shutdownErr != nil {
+			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -228,15 +239,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	if err := a.draw(model); err != nil {
-		return model, err
-	}
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
-	return model, nil
+	return model, a.draw(model)
 }
 
 func (a *appRunner) Send(msg Msg) {
@@ -310,6 +313,8 @@ func (a *appRunner) runSequence(cmds []Cmd) {
 			for _, cmd := range msg {
 				cmd := cmd
 				g.Go(func() error {
+					defer a.recoverFromPanic()
+
 					a.runSequence([]Cmd{cmd})
 					return nil
 				})
@@ -361,7 +366,11 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 				continue
 			case sequenceMsg:
-				go a.runSequence(msg)
+				go func() {
+					defer a.recoverFromPanic()
+
+					a.runSequence(msg)
+				}()
 			}
 
 			var cmd Cmd
@@ -375,14 +384,21 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
+// recoverFromPanic ends the app after a panic in one of its goroutines.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- panicError(r):
+		}
 	}
 }
 
+// panicError must be called by the function that recovered r.
+func panicError(r any) error {
+	return fmt.Errorf("%w: panic: %v\n\n%s", ErrKilled, r, debug.Stack())
+}
+
 func (a *appRunner) shutdown() error {
 	a.cancelCtx()
 
-- 
2.43.0


From 7f1c87484d2a8f1c653b055f82c6e4ca49d13166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 39/59] fix: a failing step does not stop the terminal from
 being restored

---
 app.go | 11 ++++++-----
 tty.go | 12 +++++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/app.go b/app.go
index c3a488f..5d5c1f9 100644
--- a/app.go
+++ b/app.go
@@ -428,15 +428,16 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
-	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+	err := a.restoreTerminal()
+	if err != nil {
+		err = fmt.Errorf("restore terminal: %w", err)
 	}
 
-	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+	if altErr := a.terminal.LeaveAlternateScreen(); altErr != nil {
+		err = errors.Join(err, fmt.Errorf("leave alt screen buffer: %w", altErr))
 	}
 
-	return nil
+	return err
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..ce02933 100644
--- a/tty.go
+++ b/tty.go
@@ -22,14 +22,16 @@ func (a *appRunner) initTerminal() error {
 }
 
 // restoreTerminal restores the terminal to the state prior to running the
-// Bento app.
+// Bento app. A failing step does not keep the next ones from being taken.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +46,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From 1133dbe67049b1eebce830cc3fc58909b89c9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 40/59] fix: the output works again after a failed write

---
 terminal_backend.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 7672dbd..0d4292a 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -165,6 +165,7 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 			}
 
 			if err := diff.queue(d.outputBuf); err != nil {
+				d.outputBuf.Reset(d.output)
 				return fmt.Errorf("queue: %w", err)
 			}
 
@@ -215,7 +216,13 @@ func (d *DefaultBackend) convertColor(color Color) Color {
 
 // Flush implements TerminalBackend.
 func (d *DefaultBackend) Flush() error {
-	return d.outputBuf.Flush()
+	if err := d.outputBuf.Flush(); err != nil {
+		// otherwise it would refuse everything from now on
+		d.outputBuf.Reset(d.output)
+		return err
+	}
+
+	return nil
 }
 
 // GetCursorPosition implements TerminalBackend.
@@ -278,7 +285,12 @@ func (d *DefaultBackend) ShowCursor() error {
 }
 
 func (d *DefaultBackend) queue(commands ...ansi.Command) error {
-	return queue(d.outputBuf, commands...)
+	if err := queue(d.outputBuf, commands...); err != nil {
+		d.outputBuf.Reset(d.output)
+		return err
+	}
+
+	return nil
 }
 
 func (d *DefaultBackend) execute(commands ...ansi.Command) error {
-- 
2.43.0


From 84e8b6b674c00660d674495c559a2facad9af47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 41/59] fix: a change of the terminal's size is not lost or
 reported out of order at the start

---
 app.go             | 6 ++----
 signals_unix.go    | 5 +++++
 signals_windows.go | 2 ++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/app.go b/app.go
index 5d5c1f9..de2515d 100644
--- a/app.go
+++ b/app.go
@@ -330,10 +330,8 @@ func (a *appRunner) runSequence(cmds []Cmd) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Get the initial terminal size, send it to the program and listen for
+	// window resizes.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..61755a7 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -21,6 +21,11 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 		close(done)
 	}()
 
+	// The initial size. It is looked at after the changes of the size are
+	// listened to, so that none gets lost, and by the same goroutine, so
+	// that they are reported in order.
+	a.checkResize()
+
 	for {
 		select {
 		case <-a.ctx.Done():
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..93c3d93 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -6,5 +6,7 @@ package bento
 // listenForResize is not available on windows because windows does not
 // implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
+	a.checkResize() // the initial size
+
 	close(done)
 }
-- 
2.43.0


From 50231fbe9ac2030fe8cdb026916077e07a6b7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 42/59] fix: a cancelled app always reports that it was killed

---
 tty.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tty.go b/tty.go
index ce02933..3e2e1f8 100644
--- a/tty.go
+++ b/tty.go
@@ -70,6 +70,10 @@ func (a *appRunner) readLoop() {
 	defer close(a.readLoopDone)
 
 	err := readInputs(a.ctx, a.msgs, a.cancelReader)
+	if a.ctx.Err() != nil {
+		return // the reading ended because the app does
+	}
+
 	if !errors.Is(err, io.EOF) && !errors.Is(err, cancelreader.ErrCanceled) {
 		select {
 		case <-a.ctx.Done():
-- 
2.43.0


From 512e265786661e192955d5fd6ed6978cbb2adac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 43/59] fix: filling with a wide symbol does not reach out of
 the area

---
 widget/fillwidget/fill.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 0d2fbb6..218f269 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -1,6 +1,9 @@
 package fillwidget
 
-import "github.com/metafates/bento"
+import (
+	"github.com/metafates/bento"
+	"github.com/rivo/uniseg"
+)
 
 var _ bento.Widget = (*Fill)(nil)
 
@@ -24,6 +27,8 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
 	area = area.Intersection(buffer.Area())
 
+	width := max(1, uniseg.StringWidth(f.Symbol))
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			pos := bento.NewPosition(x, y)
@@ -32,7 +37,11 @@ func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
 
 			cell.Reset()
 			cell.SetStyle(f.Style)
-			cell.SetSymbol(f.Symbol)
+
+			// a wide symbol takes several cells, all of them inside the area
+			if (x-area.Left())%width == 0 && x+width <= area.Right() {
+				cell.SetSymbol(f.Symbol)
+			}
 		}
 	}
 }
-- 
2.43.0


From 871a94b1c11c650644e23cef87b1c2a7832c10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 44/59] fix: lines of text of any length are kept

---
 widget/textwidget/line.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 8a9fba9..e4947fd 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, line := range splitLines(joined) {
+			lines = append(lines, NewLineStr(line))
 		}
 	}
 
@@ -107,19 +102,29 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
 	return NewLine(spans...)
 }
 
+// splitLines returns the lines of s, of any length, without their line endings.
+func splitLines(s string) []string {
+	var lines []string
+
+	for s != "" {
+		line, rest, _ := strings.Cut(s, "\n")
+
+		lines = append(lines, strings.TrimSuffix(line, "\r"))
+		s = rest
+	}
+
+	return lines
+}
+
 func (l Line) String() string {
 	var b strings.Builder
 
-- 
2.43.0


From 31de6540bf95b6f76aa67712306e1f14b8190901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 45/59] fix: after a panic the newest model is returned

---
 app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app.go b/app.go
index de2515d..dafe588 100644
--- a/app.go
+++ b/app.go
@@ -373,6 +373,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
+			a.model = model
 			a.execute(cmd)
 
 			if err := a.draw(model); err != nil {
-- 
2.43.0


From f824ab7c2ec5276e03ef27dd259a81536b8f97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 46/59] fix: input read together with an error is not lost

---
 input.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/input.go b/input.go
index ff30f30..51baf99 100644
--- a/input.go
+++ b/input.go
@@ -564,10 +564,7 @@ func readAnsiInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error
 loop:
 	for {
 		// Read and block.
-		numBytes, err := input.Read(buf[:])
-		if err != nil {
-			return fmt.Errorf("error reading input: %w", err)
-		}
+		numBytes, readErr := input.Read(buf[:])
 		b := buf[:numBytes]
 		if leftOverFromPrevIteration != nil {
 			b = append(leftOverFromPrevIteration, b...)
@@ -580,13 +577,17 @@ loop:
 		// be more data in the OS buffer ready to be read in, to complete
 		// the last message in the input. In that case, we will retry with
 		// the left over data in the next iteration.
-		canHaveMoreData := numBytes == len(buf)
+		canHaveMoreData := numBytes == len(buf) && readErr == nil
 
 		var i, w int
 		for i, w = 0, 0; i < len(b); i += w {
 			var msg Msg
 			w, msg = detectOneMsg(b[i:], canHaveMoreData)
 			if w == 0 {
+				if readErr != nil {
+					break
+				}
+
 				// Expecting more bytes beyond the current buffer. Try waiting
 				// for more input.
 				leftOverFromPrevIteration = make([]byte, 0, len(b[i:])+len(buf))
@@ -605,6 +606,11 @@ loop:
 			}
 		}
 		leftOverFromPrevIteration = nil
+
+		// There may be input even if the read failed.
+		if readErr != nil {
+			return fmt.Errorf("error reading input: %w", readErr)
+		}
 	}
 }
 
-- 
2.43.0


From 3f4582d522e8b681aac7c385d24f52237fcaa0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 47/59] fix: appending spans to a text leaves its copies as
 they are

---
 widget/textwidget/text.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index 56072ac..ffb2451 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -91,7 +91,10 @@ func (t Text) String() string {
 func AppendTextSpans(text *Text, spans ...Span) {
 	if len(text.Lines) > 0 {
 		last := len(text.Lines) - 1
-		text.Lines[last].Spans = append(text.Lines[last].Spans, spans...)
+
+		// copies of the text share its lines
+		text.Lines = slices.Clone(text.Lines)
+		text.Lines[last] = text.Lines[last].WithSpans(spans...)
 	} else {
 		text.Lines = append(text.Lines, NewLine(spans...))
 	}
-- 
2.43.0


From d0430a9e8c21c242c498e354469b26f11e48ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 48/59] fix: a terminal that fails to tell its size is reported

Size returns no size together with the error, so the error was never looked
at and the app went on without ever learning its size.
---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index 3e2e1f8..e00d1ed 100644
--- a/tty.go
+++ b/tty.go
@@ -97,10 +97,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -110,5 +106,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From a6bada5f5be794a9f86bae96e2b07ba29a3a82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 49/59] fix: wrapping leaves no blank row where a word fits

A line of nothing but spaces took two rows when whitespace is kept, and
whitespace that is trimmed still pushed a long word to the next row, leaving
a blank one.
---
 internal/reflow/wrapper.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 8052e86..9cbdc82 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,14 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
+
+		// whitespace that will be trimmed takes no space
+		pendingWidth := wordWidth + symbolWidth
+		if len(pendingLine) > 0 || !ww.trim {
+			pendingWidth += whitespaceWidth
+		}
+
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+pendingWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
@@ -132,7 +139,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious = !isWhitespace
 	}
 
-	if len(pendingLine) == 0 && len(ww.pendingWord) == 0 && !ww.pendingWhitespace.IsEmpty() {
+	if ww.trim && len(pendingLine) == 0 && len(ww.pendingWord) == 0 && !ww.pendingWhitespace.IsEmpty() {
 		ww.wrappedLines.PushBack(nil)
 	}
 
-- 
2.43.0


From 0ea3e2624b1532750eab65787c91a098c968005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 50/59] fix: a wrapped row is never wider than the area

A wide letter could join a word that had just moved to the next row although
both do not fit there.
---
 internal/reflow/wrapper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 9cbdc82..60e3f62 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -67,7 +67,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		wordFound := nonWhitespacePrevious && isWhitespace
 
 		trimmedOverflow := len(pendingLine) == 0 && ww.trim && wordWidth+symbolWidth > ww.maxLineWidth
-		whitespaceOverflow := len(pendingLine) == 0 && ww.trim && whitespaceWidth+symbolWidth > ww.maxLineWidth
+		whitespaceOverflow := len(pendingLine) == 0 && ww.trim && isWhitespace && whitespaceWidth+symbolWidth > ww.maxLineWidth
 		untrimmedOverflow := len(pendingLine) == 0 && !ww.trim && wordWidth+whitespaceWidth+symbolWidth > ww.maxLineWidth
 
 		if wordFound || trimmedOverflow || whitespaceOverflow || untrimmedOverflow {
@@ -123,6 +123,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 				ww.pendingWhitespace.PopFront()
 			}
 
+			// the word may not fit on the next line either
+			if wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
+
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
-- 
2.43.0


From 93e245224830c6acdab57fb002f0f12af586cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 51/59] fix: a failed clear or resize is followed by a full
 redraw

---
 terminal.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 254ad41..0835e13 100644
--- a/terminal.go
+++ b/terminal.go
@@ -250,7 +250,14 @@ func (t *Terminal) Resize(area Rect) error {
 	return nil
 }
 
-func (t *Terminal) Clear() error {
+func (t *Terminal) Clear() (err error) {
+	// a failed clear may have reached the screen in part
+	defer func() {
+		if err != nil {
+			t.forget()
+		}
+	}()
+
 	switch t.viewport.(type) {
 	case ViewportFullscreen:
 		if err := t.backend.ClearAll(); err != nil {
@@ -296,7 +303,11 @@ func (t *Terminal) Size() (Size, bool, error) {
 // so that the next draw starts blank and repaints every cell.
 func (t *Terminal) invalidate() {
 	t.CurrentBuffer().Reset()
+	t.forget()
+}
 
+// forget drops what is known to be on the screen.
+func (t *Terminal) forget() {
 	previous := t.PreviousBuffer()
 
 	for i := range previous.content {
-- 
2.43.0


From 606c34a8e1274ffd5163e705139f21fef03cb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 52/59] fix: spans appended to copies of an empty text are not
 shared

---
 widget/textwidget/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ffb2451..4404bbc 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -96,6 +96,6 @@ func AppendTextSpans(text *Text, spans ...Span) {
 		text.Lines = slices.Clone(text.Lines)
 		text.Lines[last] = text.Lines[last].WithSpans(spans...)
 	} else {
-		text.Lines = append(text.Lines, NewLine(spans...))
+		text.Lines = append(slices.Clip(text.Lines), NewLine(spans...))
 	}
 }
-- 
2.43.0


From 353f2e8b210f34af579dd95f3044070acf683187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 53/59] fix: layouts left of or above the origin round like any
 other

---
 layout.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/layout.go b/layout.go
index 09321f3..c13b679 100644
--- a/layout.go
+++ b/layout.go
@@ -215,12 +215,21 @@ func changesToRects(
 ) []Rect {
 	var rects []Rect
 
-	for _, e := range elements {
-		start := changes[e.Start]
-		end := changes[e.End]
+	origin := area.X
+	if direction == DirectionVertical {
+		origin = area.Y
+	}
+
+	// halves round the same way wherever the area is
+	round := func(v float64) int {
+		v -= float64(origin) * _floatPrecisionMultiplier
 
-		startRounded := int(math.Round(math.Round(start) / _floatPrecisionMultiplier))
-		endRounded := int(math.Round(math.Round(end) / _floatPrecisionMultiplier))
+		return origin + int(math.Round(math.Round(v)/_floatPrecisionMultiplier))
+	}
+
+	for _, e := range elements {
+		startRounded := round(changes[e.Start])
+		endRounded := round(changes[e.End])
 
 		size := max(0, endRounded-startRounded)
 
-- 
2.43.0


From 7a331521279d714e8d8c49a90148ee7753ae397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 54/59] fix: right titles left of the origin stay in their
 block

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 7980179..fe98f15 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -322,7 +322,7 @@ func (b Block) renderRightTitles(position TitlePosition, area bento.Rect, buffer
 		titleWidth := t.Line.Width()
 		titleArea := bento.Rect{
 			Position: bento.Position{
-				X: max(0, max(titlesArea.Left(), titlesArea.Right()-titleWidth)),
+				X: max(titlesArea.Left(), titlesArea.Right()-titleWidth),
 				Y: titlesArea.Y,
 			},
 			Width:  min(titlesArea.Width, titleWidth),
-- 
2.43.0


From 6589fb804e54142aa90caeb31a08866fbdd2cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 55/59] fix: zero-width graphemes don't take a cell of a span

---
 widget/textwidget/span.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 0fd2cf8..b85dd24 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -52,7 +52,10 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 
 	x, y := area.X, area.Y
 
-	for i, gr := range s.StyledGraphemes(bento.NewStyle()) {
+	// zero-width graphemes before the first one that takes a cell
+	var leading string
+
+	for _, gr := range s.StyledGraphemes(bento.NewStyle()) {
 		symbolWidth := gr.Width()
 
 		nextX := x + symbolWidth
@@ -61,13 +64,12 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 		}
 
 		switch {
-		case i == 0:
-			// the first grapheme is always set on the cell
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
+		case x == area.X && symbolWidth == 0:
+			// there is no cell to show it in yet
+			leading += gr.String()
 		case x == area.X:
-			// there is one or more zero-width graphemes in the first cell, so the first cell
-			// must be appended to.
-			buffer.CellAt(bento.Position{X: x, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
+			// the first cell also gets the zero-width graphemes before it
+			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(leading + gr.String()).SetStyle(gr.Style)
 		case symbolWidth == 0:
 			// append zero-width graphemes to the previous cell
 			buffer.CellAt(bento.Position{X: x - 1, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
-- 
2.43.0


From 8c9f8df92979e31bc87ad257b344323db00f3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 56/59] fix: the cursor of an input shows on characters that
 take no cell

---
 widget/inputwidget/input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index 5c88a52..dd7718b 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -134,7 +134,8 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
 
-		if cursor.Content == "" {
+		// nothing, a line break or a lone combining mark takes no cell
+		if cursor.Width() == 0 {
 			cursor.Content = " "
 		}
 	}
-- 
2.43.0


From 475c7e8e87bfdaa2d2c7a8e010ecd3fc36962aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 57/59] fix: filling with a symbol that takes no cell blanks
 the area

---
 widget/fillwidget/fill.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 218f269..f874a04 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -27,7 +27,12 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
 	area = area.Intersection(buffer.Area())
 
-	width := max(1, uniseg.StringWidth(f.Symbol))
+	width := uniseg.StringWidth(f.Symbol)
+
+	// nothing, or what takes no cell, leaves the cells blank
+	if width == 0 {
+		f.Symbol, width = " ", 1
+	}
 
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
-- 
2.43.0


From aacb6d5b5a298efbb5484f01089ba0aa8e1b82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:58 +0000
Subject: [PATCH 58/59] fix: leaving raw mode restores the mode from before it
 was entered first

---
 terminal_backend.go         | 4 ++++
 terminal_backend_unix.go    | 5 ++++-
 terminal_backend_windows.go | 9 +++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 0d4292a..88fdf10 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -91,6 +91,8 @@ func (d *DefaultBackend) DisableRawMode() error {
 				return fmt.Errorf("restore input: %w", err)
 			}
 		}
+
+		d.prevInputState = nil
 	}
 
 	if d.output != nil && d.prevOutputState != nil {
@@ -100,6 +102,8 @@ func (d *DefaultBackend) DisableRawMode() error {
 				return fmt.Errorf("restore output: %w", err)
 			}
 		}
+
+		d.prevOutputState = nil
 	}
 
 	return nil
diff --git a/terminal_backend_unix.go b/terminal_backend_unix.go
index b6537ce..ce9e855 100644
--- a/terminal_backend_unix.go
+++ b/terminal_backend_unix.go
@@ -13,7 +13,10 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevInputState = state
+		// the mode to restore is the one from before it was enabled first
+		if d.prevInputState == nil {
+			d.prevInputState = state
+		}
 	}
 
 	return nil
diff --git a/terminal_backend_windows.go b/terminal_backend_windows.go
index a2320cc..05d8911 100644
--- a/terminal_backend_windows.go
+++ b/terminal_backend_windows.go
@@ -19,7 +19,10 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevInputState = state
+		// the mode to restore is the one from before it was enabled first
+		if d.prevInputState == nil {
+			d.prevInputState = state
+		}
 
 		// Enable VT input
 		var mode uint32
@@ -39,7 +42,9 @@ func (d *DefaultBackend) EnableRawMode() error {
 			return err
 		}
 
-		d.prevOutputState = state
+		if d.prevOutputState == nil {
+			d.prevOutputState = state
+		}
 
 		var mode uint32
 		if err := windows.GetConsoleMode(windows.Handle(f.Fd()), &mode); err != nil {
-- 
2.43.0


From 76523743d0fb1dff1db9fbd9866a489510d76e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:58 +0000
Subject: [PATCH 59/59] fix: the runes of a space key belong to its message
 alone

---
 input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input.go b/input.go
index 51baf99..63d3c79 100644
--- a/input.go
+++ b/input.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 	"unicode/utf8"
@@ -882,6 +883,9 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 		prefix := input[:sz]
 		key, ok := seqs[string(prefix)]
 		if ok {
+			// the runes of the message are the receiver's
+			key.Runes = slices.Clone(key.Runes)
+
 			return true, sz, KeyMsg(key)
 		}
 	}
-- 
2.43.0

