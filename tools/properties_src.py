#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: `python3 tools/properties_src.py` rewrites it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

I, H, S, F, C = "inputs", "histories", "schedules", "fault_sequences", "configurations"

# ---------------------------------------------------------------- core geometry, buffers
p("C01", "Rectangle algebra is set algebra",
  "A rectangle denotes the set of terminal cells it contains. Intersection contains exactly the cells contained in both operands, never reports a negative size, and Inner/IndentX/Rows/Columns yield exactly the sub-cells left by removing the padding, the indent, or by slicing into one-cell-high rows / one-cell-wide columns.",
  [I], "all pairs of rectangles, paddings, offsets and probe positions",
  "the repository has no geometry test; any test samples a few concrete rectangles",
  ["rect.go", "padding.go", "position.go"],
  [("Rect.Intersection/Contains/Inner/Rows/Columns/IndentX", "rect.go"), ("NewPadding/With*", "padding.go")])
p("C02", "Padding setters change exactly the side they name",
  "Building a padding through its setters sets exactly the named sides and leaves the others as they were, so shrinking a rectangle by it removes exactly those columns and rows.",
  [I], "all padding values and setter chains", "no test touches padding; a setter that writes the wrong side compiles and passes",
  ["padding.go", "rect.go"], [("Padding.WithLeft/Right/Top/Bottom", "padding.go"), ("Rect.Inner", "rect.go")])
p("C03", "Buffer addressing is a bijection between area and cells",
  "In a buffer over any area, every position inside the area addresses exactly one cell, distinct positions address distinct cells, the position reported for a cell index addresses that cell again, and a position outside the area is never silently mapped onto some cell.",
  [I], "all buffer areas and positions", "tests only address a handful of cells of origin-anchored buffers",
  ["buffer.go", "rect.go"], [("Buffer.CellAt/indexOf/PosOf", "buffer.go")])
p("C04", "Buffer resize keeps the buffer well formed",
  "After any sequence of resizes a buffer has exactly one cell for each position of its area; cells added by growing are blank with default style; and resetting afterwards leaves every cell blank with default style.",
  [I, H], "all sequences of resize / write / reset", "no test resizes a buffer", ["buffer.go", "cell.go"],
  [("Buffer.Resize/Reset", "buffer.go"), ("Cell.Reset", "cell.go")])
p("C05", "Writing text to a buffer is clipped and exact",
  "Printing a string at a position inside the buffer writes its printable graphemes left to right, each into the cell at its column with the rest of a wide grapheme's cells blanked, skipping zero-width graphemes and control characters, and stops before the first grapheme that would not fit in the remaining line or in the caller's width limit. No other cell changes, the call never panics, and the returned position is just past the last cell written.",
  [I], "all strings, start columns, width limits and buffer widths", "tests only reach it through whole-widget renders that always fit",
  ["buffer.go", "cell.go"], [("Buffer.SetString/SetStringN", "buffer.go")])
p("C06", "Setting a style over an area touches exactly that area",
  "Applying a style to an area of a buffer patches exactly the cells in the intersection of that area with the buffer and no others, leaving all symbols unchanged.",
  [I], "all areas (inside, overlapping, outside) and styles", "tests sample full-area styles only", ["buffer.go", "cell.go"],
  [("Buffer.SetStyle", "buffer.go"), ("Cell.SetStyle", "cell.go")])
p("C07", "Applying a diff reproduces the next frame",
  "Drawing the cells returned by diffing two well-formed frames of the same area on a terminal that shows the first (each symbol occupying as many columns as it is wide; a symbol overwritten only in part leaves its other columns undefined, so they must be repainted) leaves the terminal showing exactly the second frame.",
  [I, H], "all pairs of well-formed frames, with narrow and wide graphemes anywhere", "no diff test exists; correctness depends on the combination of wide cells on both sides",
  ["buffer.go"], [("Buffer.Diff", "buffer.go")])
p("C08", "A diff never mentions cells that need no update",
  "Diffing a frame against itself yields nothing; in general a diff lists each position at most once, in reading order, lists only positions whose cell changed or that a replaced wide grapheme on the same line touched, and never lists a cell marked to be skipped.",
  [I], "all pairs of frames", "no diff test exists", ["buffer.go"], [("Buffer.Diff", "buffer.go")])
# ---------------------------------------------------------------- style
p("C09", "Style patching composes",
  "Patching a style with another makes the other's set attributes win and keeps the rest; a cell styled by a then b looks exactly as if styled by a patched with b, patching is idempotent with the empty style as identity, and each named style method (colours, modifiers, bright colours, RGB) and each setter of a cell sets exactly the attribute it names.",
  [I], "all styles (colours set/unset, any added and removed modifier sets) and cells", "no style test exists; the modifier sets alone give 2^40 combinations",
  ["style.go", "cell.go", "internal/bit/bit.go"], [("Style.Patched/With*/Without*", "style.go"), ("Cell.SetStyle", "cell.go")])
p("C10", "Modifier changes reach the terminal exactly",
  "For every pair of modifier sets, the escape sequence emitted to go from the first to the second leaves a terminal that showed exactly the first showing exactly the second.",
  [I], "all 2^18 pairs of modifier sets", "no test inspects emitted escape sequences", ["style.go", "terminal_backend.go", "internal/ansi/attr.go"],
  [("modifier diff", "style.go"), ("SGR attributes", "internal/ansi/attr.go")])
p("C11", "Drawing cells emits exactly what the cells say",
  "Interpreting the bytes the terminal backend writes for any list of positioned cells, on a terminal with default attributes, shows each cell's symbol at its position with exactly its colours and modifiers, and leaves the terminal's attributes reset.",
  [I, H], "all cell lists: any positions, symbols, colours (none, reset, ANSI, 256, RGB valid or malformed) and modifiers", "no test drives the backend's output",
  ["terminal_backend.go", "style.go", "internal/ansi/command.go", "internal/ansi/attr.go"], [("DefaultTerminalBackend.Draw", "terminal_backend.go"), ("SetColors/SetCursor", "internal/ansi/command.go")])
p("C12", "The screen always shows the last frame drawn",
  "After any sequence of draws, resizes and clears through the terminal, the screen maintained by applying everything sent to the backend equals the last frame rendered, cells not rendered in it being blank; a draw hides the cursor and a cursor position or visibility requested afterwards takes effect; and no draw ever addresses a cell outside the viewport.",
  [H, I], "all sequences of frames, terminal resizes and clears within the bound", "no test drives the terminal",
  ["terminal.go", "buffer.go", "frame.go"], [("Terminal.Draw/flush/swap/autoResize", "terminal.go")])
p("C13", "A failed draw is reported and does not corrupt later frames",
  "If any backend operation fails during a draw, a clear or a resize, the operation (or the flush that ends it) returns that failure, and the next successful draw still brings the screen to exactly its own frame, also after several failures in a row.",
  [F, H], "every backend call position failing, followed by further draws", "no test injects backend failures",
  ["terminal.go"], [("Terminal.TryDraw", "terminal.go")])
# ---------------------------------------------------------------- layout
p("C14", "Layout segments tile the area in order",
  "Splitting an area returns one segment per constraint, in order, each inside the area with non-negative size, spanning the full cross axis, not overlapping its neighbours unless the spacing is negative, and separated by at least the spacing when there is room.",
  [I], "all areas, constraint lists, flex modes, spacings and margins within the bound", "tests are a table of concrete layouts",
  ["layout.go", "internal/casso/solver.go"], [("Layout.Split", "layout.go"), ("cassowary solver", "internal/casso")])
p("C15", "Satisfiable layout constraints are honoured",
  "When the area has room for what the constraints ask, every length segment has its length, every percentage or ratio segment its share up to rounding, every minimum and maximum is respected, and fill segments share the leftover in proportion to their weights up to rounding.",
  [I], "all areas and constraint lists within the bound", "tests are a table of concrete layouts", ["layout.go", "internal/casso/solver.go", "constraint.go"],
  [("constraint translation", "layout.go"), ("cassowary solver", "internal/casso")])
p("C16", "Layout is a function of its inputs",
  "Splitting the same area with the same layout always yields the same segments, whatever order internal hash tables iterate in, however often it is repeated and whatever was split before.",
  [I, S], "all layouts within the bound and all map iteration orders", "a test sees one random iteration order per run", ["layout.go", "internal/casso/solver.go"],
  [("cassowary tableau maps", "internal/casso/solver.go")])
p("C17", "The constraint solver's solution satisfies its constraints",
  "Every required constraint accepted by the linear solver holds for the variable values it reports, a contradictory required constraint is rejected with an error, and a weaker constraint never overrides a stronger one it conflicts with.",
  [I, H], "all small constraint systems with arbitrary constants", "no solver test exists", ["internal/casso/solver.go", "internal/casso/casso.go"],
  [("Solver.AddConstraint/Suggest/FetchChanges", "internal/casso/solver.go")])
# ---------------------------------------------------------------- widgets
p("C18", "Widgets never write outside their area and never panic",
  "Rendering any built-in widget into any area, including empty, one-cell, partly or fully off-buffer areas, neither panics nor changes any buffer cell outside that area.",
  [I], "all areas and widget contents within the bound", "tests render into areas that fit", ["widget"],
  [("Render methods", "widget/*/*.go"), ("Buffer clipping", "buffer.go")])
p("C19", "Block borders, inner area and content never collide",
  "A block draws its chosen borders on exactly the edge cells of its area with matching corners, and its inner area is exactly the cells inside its drawn borders, title rows and padding, so whatever is rendered into the inner area never overwrites the frame.",
  [I], "all areas, border subsets, paddings and title sides", "no block test exists", ["widget/blockwidget/block.go", "widget/blockwidget/border.go"],
  [("Block.Render/Inner", "widget/blockwidget/block.go")])
p("C20", "Block titles stay on their side and keep their order",
  "Titles are drawn only on the row of their side, between the borders, in order for their alignment group, and a title that is too long is cut rather than wrapped, dropped silently while room remains, or drawn over a border.",
  [I], "all title sets, alignments and widths within the bound", "no block test exists", ["widget/blockwidget/block.go", "widget/blockwidget/title.go"],
  [("title rendering", "widget/blockwidget/block.go")])
p("C21", "Builders do not share state",
  "Deriving two values from one builder value (adding titles, constraints, spans, lines or items, or setting any option, set before or not) yields independent values: neither derivation changes the other, the original or the slice that the original was made of.",
  [H, I], "all derivation histories within the bound, including spare slice capacity", "tests build each widget once", ["widget/blockwidget/block.go", "layout.go", "widget/textwidget/line.go", "widget/textwidget/text.go", "widget/listwidget/list.go", "widget/tabswidget/tabs.go"],
  [("With* methods", "widget/*/*.go")])
p("C22", "Gauge fills in proportion to its ratio",
  "On the rows that do not carry its label, a gauge fills a number of cells equal to its ratio times its width up to rounding, monotonically in the ratio, empty at 0 and full at 1; the filled cells show in the gauge's style; it shows its label, and refuses ratios outside [0, 1].",
  [I], "every float ratio and width within the bound", "no gauge test exists", ["widget/gaugewidget/gauge.go"], [("Gauge.Render/WithRatio", "widget/gaugewidget/gauge.go")])
p("C23", "List selection saturates and stays on an item",
  "After any sequence of selection commands and renders, the selected index, if any, is a valid item; from a rendered selection next/previous move by exactly one item and saturate at the ends, and first/last select the ends.",
  [H], "all command sequences within the bound", "tests check single renders", ["widget/listwidget/state.go", "widget/listwidget/list.go"], [("State.Select*/Scroll*", "widget/listwidget/state.go"), ("List.RenderStateful", "widget/listwidget/list.go")])
p("C24", "The selected list item is always visible",
  "After rendering a list into a non-empty area, the selected item is shown fully whenever it fits, items appear in order from the offset without gaps, scroll padding keeps that many one-line items visible around the selection while there is room, and the highlight marks only the selected item.",
  [I, H], "all item counts and heights, area heights, offsets, selections, paddings and directions within the bound", "tests check a few lists", ["widget/listwidget/list.go", "widget/listwidget/state.go"],
  [("List.getItemsBounds/RenderStateful", "widget/listwidget/list.go")])
p("C25", "Scrollbar thumb reflects the position",
  "The thumb lies inside the track, has at least one cell, is as long as the viewport's share of the whole scroll range (up to a cell of rounding), starts at the track's beginning for the first position and ends at its end for the last, moves monotonically with the position, and is drawn only on the edge its orientation names.",
  [I], "all content lengths, positions, viewport sizes, track lengths and orientations within the bound", "no scrollbar test exists", ["widget/scrollwidget/scroll.go", "widget/scrollwidget/state.go"],
  [("Scroll.partLengths/RenderStateful", "widget/scrollwidget/scroll.go")])
p("C26", "Scroll position stays within the content",
  "Starting from a valid position, after any sequence of scroll commands the position is a valid index of the content (zero when there is none), and next/previous/first/last do what they say.",
  [H], "all command sequences and content lengths within the bound", "no scrollbar test exists", ["widget/scrollwidget/state.go"], [("State.Next/Prev/First/Last", "widget/scrollwidget/state.go")])
p("C27", "Styled text renders aligned and truncated exactly",
  "Rendering a line shows exactly its visible graphemes when they fit, placed at the left, centre or right as aligned, and otherwise exactly the widest run of whole graphemes that fits from the side its alignment keeps, each with its own style patched over the line's, graphemes without a width taking no cell; text renders its lines on consecutive rows.",
  [I], "all line contents, alignments and area widths within the bound", "tests sample a handful of lines", ["widget/textwidget/line.go", "widget/textwidget/text.go", "widget/textwidget/span.go"],
  [("Line.Render", "widget/textwidget/line.go"), ("Text.Render", "widget/textwidget/text.go")])
p("C28", "Wrapping never loses or reorders text",
  "A wrapped paragraph shows every non-whitespace grapheme that fits in a row by itself exactly once and in order, gives a line that fits exactly one row and leaves no row blank but where whitespace fills it, never exceeds the width, and breaks a word only if it, with the untrimmed whitespace leading its line, does not fit on one row.",
  [I], "all texts and widths within the bound", "no wrap test exists", ["internal/reflow/wrapper.go", "widget/paragraphwidget/paragraph.go"], [("WordWrapper", "internal/reflow/wrapper.go"), ("Paragraph.Render", "widget/paragraphwidget/paragraph.go")])
p("C29", "Unwrapped paragraphs show one line per row",
  "A paragraph without wrapping shows each line of its text on its own row, cut at the width, starting at the line its vertical scroll names; a left-aligned line drops the graphemes that end at or before the horizontal scroll and shows the following ones that fit, consecutively, except those wider than the row.",
  [I], "all texts, widths and scroll offsets within the bound", "no paragraph test exists", ["internal/reflow/truncator.go", "widget/paragraphwidget/paragraph.go"], [("LineTruncator", "internal/reflow/truncator.go"), ("Paragraph.Render", "widget/paragraphwidget/paragraph.go")])
p("C30", "The input field edits like a text editor",
  "Starting from any text and cursor, every sequence of insertions, deletions, cursor moves by grapheme or to an end, and key events leave the text and cursor that a plain list-of-graphemes editor would have, with the cursor always between 0 and the length.",
  [H, I], "all edit histories over arbitrary graphemes within the bound", "no input test exists", ["widget/inputwidget/state.go", "widget/inputwidget/input.go"], [("State methods", "widget/inputwidget/state.go"), ("State.HandleKey", "widget/inputwidget/input.go")])
p("C31", "The input field always shows its cursor",
  "Rendering the input into an area wider than its prompt shows a contiguous part of the text, within the area, that includes the cursor, whose cell, showing the next grapheme or, if there is none or it takes no cell, a blank, is the only one marked; with room for the text and the cursor the whole text is shown.",
  [I, H], "all texts, cursor positions, widths and histories of moves within the bound", "no input test exists", ["widget/inputwidget/input.go", "widget/inputwidget/state.go"], [("Input.RenderStateful", "widget/inputwidget/input.go")])
p("C32", "Tabs show titles in order with the selection marked",
  "Tabs draw their titles in order on one row separated by the divider, cut at the right edge, with the highlight applied to exactly the selected title's cells.",
  [I], "all titles, selections and widths within the bound", "no tabs test exists", ["widget/tabswidget/tabs.go"], [("Tabs.Render", "widget/tabswidget/tabs.go")])
p("C33", "Popups are centred, cleared and bounded",
  "Within its area less its padding, a popup occupies an area of the requested size (or the whole available area if smaller) centred within one cell, clears what was beneath, draws its block and content inside it, and changes nothing outside.",
  [I], "all sizes and areas within the bound", "no popup test exists", ["widget/popupwidget/popup.go"], [("Popup.Render", "widget/popupwidget/popup.go")])
p("C34", "Throbbers advance only on their own ticks",
  "A throbber advances by one frame, wrapping around, exactly for tick messages addressed to it and scheduled by its latest tick (or made before its first), and ignores others, so several throbbers never speed each other up; a tick comes no earlier than its throbber's interval after the frame it follows.",
  [H], "all interleavings of tick messages of two throbbers within the bound", "no throbber test exists", ["widget/throbberwidget/state.go", "widget/throbberwidget/throbber.go"], [("State.Update/Tick", "widget/throbberwidget/state.go")])
# ---------------------------------------------------------------- input decoding
p("C35", "Input decoding always makes progress and never panics",
  "Whatever bytes arrive, decoding consumes between one byte and all of them per event, never panics or loops, and the delivered events stand, in order, for consecutive pieces of the input that together are exactly the input, except for an unfinished paste or the unfinished end of a full read, which wait for more.",
  [I], "every byte string within the bound", "no input test exists", ["input.go", "mouse.go"], [("event detection", "input.go")])
p("C36", "Every known key sequence decodes to its key",
  "Each documented terminal key sequence decodes to its key with its modifiers, consuming exactly that sequence, whatever text follows it, with Alt reported when it is preceded by an escape, and no other bytes decode to that key; control bytes decode to their control keys.",
  [I], "all sequences, followed by arbitrary bytes", "no input test exists", ["input.go"], [("sequence tables", "input.go")])
p("C37", "Text input is delivered verbatim",
  "Printable UTF-8 text is delivered as key events whose runes concatenate to exactly the text, in order, in one event per run of characters, with the space key for a lone space and Alt only when preceded by an escape; pasted text between paste markers is delivered verbatim in one event.",
  [I], "all rune strings within the bound", "no input test exists", ["input.go"], [("rune and paste detection", "input.go")])
p("C38", "Decoded events do not depend on read boundaries",
  "The sequence of events delivered for a byte stream is the same wherever a read that fills the buffer cuts it and whether the end or an error is reported with the last bytes or after them, and an event's contents never change after it is delivered.",
  [I, S], "all streams whose split point cuts an event within the bound", "no input test exists", ["input.go"], [("read loop", "input.go")])
p("C39", "Mouse reports decode exactly",
  "Every well-formed X10 and SGR mouse report arriving whole decodes to one mouse event with the reported zero-based position, button, action and modifiers, consuming exactly the report, and bytes that merely contain a mouse-like fragment are not taken for one.",
  [I], "all button codes and coordinates", "no mouse test exists", ["mouse.go", "input.go"], [("parseX10MouseEvent/parseSGRMouseEvent", "mouse.go")])
# ---------------------------------------------------------------- application loop
p("C40", "Every message is handled once and then shown",
  "Each key typed, each message returned by a command and each resize reaches the model exactly once, keys in the order typed and a message after its cause; every message is handled by the newest model, whose predecessor's result was drawn before, and the result of the last message is on the screen when nothing is left to do. After any sequence of resizes, also during the start, the model has been told the size that the terminal ended up with and is drawn at that size.",
  [S, H], "all interleavings of senders within the bound", "no application test exists", ["app.go"], [("event loop", "app.go")])
p("C41", "Commands run to completion and deliver their messages",
  "Every command returned by the model's Init or Update runs exactly once and its message is delivered once; a batch runs its members concurrently and delivers all their messages; a sequence runs its members one after another, delivering each one's messages before those of the next; both nest to any depth; a tick's function runs once, with the time, no earlier than its delay; a nil command, and a command returning nil, delivers nothing.",
  [S, H], "all command trees and interleavings within the bound", "no application test exists", ["app.go", "cmd.go"], [("command loop", "app.go"), ("Batch/Sequence", "cmd.go")])
p("C42", "The terminal is restored on every exit",
  "However the application ends (quit, context cancellation, input error, draw error, a terminal that refuses its mode or size, a panic in the model's Init, Update or Render or in a command, also inside a batch or sequence), the terminal is put back into its former mode, the alternate screen is left and the cursor shown; every one of these steps is attempted even if another step or an earlier write failed, and a failure is reported.",
  [F, S], "every exit cause and failing backend step", "no application test exists", ["app.go", "tty.go", "terminal.go"], [("shutdown/restore", "app.go")])
p("C43", "The application always terminates when told to",
  "After a quit, a cancellation, an input error, a draw error or a panic, running the application returns the final model, with the cause reported (no error for a quit, ErrKilled for a cancellation or panic), regardless of what commands or senders are doing at the time and of when it is told: no interleaving deadlocks, also when the terminal stops telling its size, which is such a cause. Without such a cause it keeps running. Once it returned, no goroutine of it is left waiting, save for commands that do not return and a pending read of the input.",
  [S, F], "all interleavings within the bound", "no application test exists", ["app.go"], [("event loop, error channel", "app.go")])
p("C44", "Flex decides where unused cells go",
  "When the segments ask for less than the area, start flex packs them at the start, end flex at the end, centre flex leaves equal cells on both sides, space-between leaves none at the ends and equal gaps in between, and legacy flex leaves none at the ends; packed segments are exactly the spacing apart.",
  [I], "all segment sizes, areas and spacings within the bound", "tests are a table of concrete layouts", ["layout.go", "flex.go"], [("configureFlexConstraints", "layout.go")])

# ---------------------------------------------------------------- what things are called
p("C45", "Key and mouse events have their documented names",
  "Every key and mouse event has the name applications compare with (enter, ctrl+a, shift+up, f1, ...), preceded by alt+ if alt was held; keys that differ in type or alt have different names; typed text is named by the text itself and pasted text is enclosed in brackets; what is typed arrives under its name.",
  [I], "all pairs of keys, all bytes, all texts and all mouse events within the bound", "no input test exists", ["input.go", "mouse.go"], [("KeyType.String/Key.String", "input.go"), ("Mouse.String", "mouse.go")])
p("C46", "Terminal commands do what they are called",
  "Each backend command (clear all, before or after the cursor, the line, the rest of the line; move, hide or show the cursor; enter or leave the alternate screen; bracketed paste) has, at once, exactly that effect on a terminal, reports a failed write and keeps working afterwards; leaving raw mode puts the terminal back into the mode it had before raw mode was entered, however often it was entered or a request was refused, and the size reported is the device's; the terminal hands each request to its backend once and reports its result.",
  [I, H, F], "all sequences of commands, cursor positions and prior modes within the bound", "no backend test exists", ["terminal_backend.go", "terminal_backend_unix.go", "terminal.go"], [("DefaultBackend commands", "terminal_backend.go"), ("Terminal requests", "terminal.go")])
p("C47", "Text values hold exactly what they were built from",
  "A text, its lines and a line made of strings hold exactly the strings' lines, of any length, whichever constructor or builder was used, and read back as them (as nothing if they have none), with the width and height of their content; spans, styles and alignments are those given; the buffer made of lines has exactly their size and shows exactly them.",
  [I], "all strings of characters and line breaks within the bound", "tests sample a few texts", ["widget/textwidget/line.go", "widget/textwidget/text.go", "widget/textwidget/span.go"], [("NewLinesStr/NewLineStr", "widget/textwidget/line.go"), ("Text", "widget/textwidget/text.go")])
p("C48", "A widget in a block is the block with the widget inside it",
  "Rendering a paragraph, tabs, list, input or popup that has a block shows exactly the block rendered over the area and the same widget without block rendered into the block's inside.",
  [I], "all border sides, titles, paddings and area sizes within the bound", "tests render a few concrete blocks", ["widget/paragraphwidget/paragraph.go", "widget/listwidget/list.go", "widget/tabswidget/tabs.go", "widget/inputwidget/input.go", "widget/popupwidget/popup.go"], [("Render", "widget/*/")])
p("C49", "Widget options do what they are called",
  "Left, center and right, and top, middle and bottom, place content at that side or in the middle; border kinds draw the characters they are called after; each border-set option replaces the part it names; a widget's style lies under everything it shows; the row of a tab bar is its paddings, titles and dividers in order; setting titles or items again replaces the former ones.",
  [I], "all options and area sizes within the bound", "tests sample few options", ["widget/blockwidget/block.go", "widget/blockwidget/border.go", "widget/popupwidget/popup.go", "widget/inputwidget/input.go", "widget/textwidget/text.go"], [("builders", "widget/*/")])
p("C50", "Clearing and filling paint exactly their area",
  "Clear blanks and Fill paints, with its symbol and style, every cell of the part of the area inside the buffer and no other; a wide symbol is repeated as often as it fits without reaching out of the area, one that takes no cell leaves blanks.",
  [I], "all areas and symbols within the bound", "no such test exists", ["widget/clearwidget/clear.go", "widget/fillwidget/fill.go"], [("Render", "widget/fillwidget/fill.go")])
p("C51", "Layouts do not depend on direction or position",
  "A layout splits a turned area into the turned segments, and a moved area into the equally moved segments; the spacers are exactly the gaps that the segments leave; segments are handed out in the order of their constraints.",
  [I], "all constraint sizes, areas, spacings and offsets within the bound", "tests are a table of concrete layouts", ["layout.go"], [("split", "layout.go"), ("Splitted.Unwrap/Assign", "layout.go")])

p("C52", "A list shows its items",
  "A list shows, from its offset on and in its direction, as many whole items as fit, each in its style over the list's style and over the list's whole width; the highlight symbol is in front of the first line (or every line, if repeated) of the selected item, with equal space in front of the others as the spacing mode says, and the highlight style covers exactly the selected item's lines; items are cut at the list's edge.",
  [I], "all items, selections, offsets, symbols, modes and area sizes within the bound", "tests render a few concrete lists", ["widget/listwidget/list.go"], [("List.RenderStateful", "widget/listwidget/list.go")])
p("C53", "Rendering depends on the widget and the size of its area only",
  "A built-in widget rendered again, into an area of the same size and with the same state, shows the same cells, wherever the area lies, also left of or above the origin, and whatever was rendered in between, in whatever size, be it of the same parts; rendering a list again without a command does not scroll it.",
  [I, H], "all widgets with symbolic texts and options, sizes and positions within the bound", "tests render each widget once, at the origin",
  ["widget/blockwidget/block.go", "widget/listwidget/list.go", "widget/paragraphwidget/paragraph.go", "widget/textwidget/line.go", "widget/tabswidget/tabs.go", "widget/inputwidget/input.go", "widget/scrollwidget/scroll.go", "widget/gaugewidget/gauge.go", "widget/popupwidget/popup.go"], [("Render and RenderStateful", "widget/*/*.go")])

p("C54", "Nothing is shared between goroutines without an order",
  "The running application has no data race: no two goroutines access the same variable of it, one of them writing, without an order between the two, whatever keys, resizes, commands and messages arrive and however it ends. Parts of the library that have nothing but their parts in common can be used by several goroutines at a time (throbbers and layouts made and used, widgets rendered into buffers of their own), and give the same results as one after another.",
  ["schedules", I], "all interleavings of the goroutines within the bound", "the tests start no goroutines",
  ["app.go", "tty.go", "signals_unix.go", "widget/throbberwidget/msg.go", "internal/casso/casso.go", "layout.go"], [("channels of the app", "app.go"), ("atomic counters", "widget/throbberwidget/msg.go"), ("variable ids", "internal/casso/casso.go")])

p("C55", "What a call returned stays as it was",
  "The rows and columns of a rectangle, the updates of a diff, the segments and spacers of a split, the graphemes of a span or line, the lines made of a string and the runes of a key message belong to the caller: no later call or message changes them, and altering or extending them changes neither the values they were made of nor any other result, earlier or later.",
  [I, H], "all rectangles, frames, constraints, texts and keys within the bound, pairs of calls and what is done to their results", "tests look at a result once and throw it away",
  ["rect.go", "buffer.go", "layout.go", "input.go", "widget/textwidget/span.go", "widget/textwidget/line.go"], [("Rect.Rows/Columns", "rect.go"), ("Buffer.Diff", "buffer.go"), ("changesToRects", "layout.go"), ("detectOneMsg/detectSequence", "input.go"), ("StyledGraphemes, NewLinesStr", "widget/textwidget/")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P), "properties")
