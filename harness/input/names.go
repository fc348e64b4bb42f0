package input

import (
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// ---------------------------------------------------------------- C45

type keyName struct {
	key  KeyType
	name string
}

// names are what applications compare keys with.
var names = []keyName{
	{KeyNull, "ctrl+@"}, {KeyBreak, "ctrl+c"}, {KeyEnter, "enter"}, {KeyBackspace, "backspace"}, {KeyTab, "tab"}, {KeyEsc, "esc"}, {KeyEscape, "esc"},
	{KeyCtrlAt, "ctrl+@"}, {KeyCtrlA, "ctrl+a"}, {KeyCtrlB, "ctrl+b"}, {KeyCtrlC, "ctrl+c"}, {KeyCtrlD, "ctrl+d"}, {KeyCtrlE, "ctrl+e"},
	{KeyCtrlF, "ctrl+f"}, {KeyCtrlG, "ctrl+g"}, {KeyCtrlH, "ctrl+h"}, {KeyCtrlI, "tab"}, {KeyCtrlJ, "ctrl+j"}, {KeyCtrlK, "ctrl+k"},
	{KeyCtrlL, "ctrl+l"}, {KeyCtrlM, "enter"}, {KeyCtrlN, "ctrl+n"}, {KeyCtrlO, "ctrl+o"}, {KeyCtrlP, "ctrl+p"}, {KeyCtrlQ, "ctrl+q"},
	{KeyCtrlR, "ctrl+r"}, {KeyCtrlS, "ctrl+s"}, {KeyCtrlT, "ctrl+t"}, {KeyCtrlU, "ctrl+u"}, {KeyCtrlV, "ctrl+v"}, {KeyCtrlW, "ctrl+w"},
	{KeyCtrlX, "ctrl+x"}, {KeyCtrlY, "ctrl+y"}, {KeyCtrlZ, "ctrl+z"}, {KeyCtrlOpenBracket, "esc"}, {KeyCtrlBackslash, "ctrl+\\"},
	{KeyCtrlCloseBracket, "ctrl+]"}, {KeyCtrlCaret, "ctrl+^"}, {KeyCtrlUnderscore, "ctrl+_"}, {KeyCtrlQuestionMark, "backspace"},
	{KeyUp, "up"}, {KeyDown, "down"}, {KeyRight, "right"}, {KeyLeft, "left"}, {KeySpace, " "}, {KeyShiftTab, "shift+tab"},
	{KeyHome, "home"}, {KeyEnd, "end"}, {KeyPgUp, "pgup"}, {KeyPgDown, "pgdown"}, {KeyCtrlPgUp, "ctrl+pgup"}, {KeyCtrlPgDown, "ctrl+pgdown"},
	{KeyDelete, "delete"}, {KeyInsert, "insert"},
	{KeyCtrlUp, "ctrl+up"}, {KeyCtrlDown, "ctrl+down"}, {KeyCtrlRight, "ctrl+right"}, {KeyCtrlLeft, "ctrl+left"},
	{KeyCtrlHome, "ctrl+home"}, {KeyCtrlEnd, "ctrl+end"},
	{KeyShiftUp, "shift+up"}, {KeyShiftDown, "shift+down"}, {KeyShiftRight, "shift+right"}, {KeyShiftLeft, "shift+left"},
	{KeyShiftHome, "shift+home"}, {KeyShiftEnd, "shift+end"},
	{KeyCtrlShiftUp, "ctrl+shift+up"}, {KeyCtrlShiftDown, "ctrl+shift+down"}, {KeyCtrlShiftLeft, "ctrl+shift+left"},
	{KeyCtrlShiftRight, "ctrl+shift+right"}, {KeyCtrlShiftHome, "ctrl+shift+home"}, {KeyCtrlShiftEnd, "ctrl+shift+end"},
	{KeyF1, "f1"}, {KeyF2, "f2"}, {KeyF3, "f3"}, {KeyF4, "f4"}, {KeyF5, "f5"}, {KeyF6, "f6"}, {KeyF7, "f7"}, {KeyF8, "f8"}, {KeyF9, "f9"},
	{KeyF10, "f10"}, {KeyF11, "f11"}, {KeyF12, "f12"}, {KeyF13, "f13"}, {KeyF14, "f14"}, {KeyF15, "f15"}, {KeyF16, "f16"}, {KeyF17, "f17"},
	{KeyF18, "f18"}, {KeyF19, "f19"}, {KeyF20, "f20"},
}

// C45_Key: a key is called by its name, after alt+ if alt was held.
func C45_Key() {
	row := names[zzsym.Choice("key", len(names))]
	k := Key{Type: row.key, Alt: zzsym.Bool("alt"), Paste: zzsym.Bool("paste")}
	if row.key == KeySpace {
		k.Runes = []rune{' '}
	}
	want := row.name
	if k.Alt {
		want = "alt+" + want
	}
	zzsym.Assert(row.key.String() == row.name, "a key type has another name")
	zzsym.Assert(k.String() == want && KeyMsg(k).String() == want, "a key has another name")
}

// C45_Distinct: keys that differ in type or alt have different names, so that
// no key can be taken for another one; there's a name for every one of them
// and none for what is no key.
func C45_Distinct() {
	a, b := KeyType(zzsym.Int("a", -80, 140)), KeyType(zzsym.Int("b", -80, 140))
	altA, altB := zzsym.Bool("alt a"), zzsym.Bool("alt b")
	zzsym.Assume(a != KeyRunes && b != KeyRunes)
	zzsym.Assume(a != b || altA != altB)
	x, y := Key{Type: a, Alt: altA}, Key{Type: b, Alt: altB}
	known := false
	for _, row := range names {
		if row.key == a {
			known = true
		}
	}
	zzsym.Assert(known == (a.String() != ""), "a key has no name, or something that is no key has one")
	if known && b.String() != "" {
		zzsym.Assert(x.String() != y.String(), "two different keys have the same name")
	}
}

// C45_Runes: the name of text is the text; pasted text is enclosed so that it
// can't be taken for a key.
func C45_Runes() {
	k := Key{Type: KeyRunes, Alt: zzsym.Bool("alt"), Paste: zzsym.Bool("paste")}
	n := zzsym.Int("n", 1, zzsym.Bound("runes of a text event", 3, 5))
	s := zzsym.Str("text", zzsym.Concrete(n), "any")
	k.Runes = []rune(s)
	want := string(k.Runes)
	if k.Paste {
		want = "[" + want + "]"
	}
	if k.Alt {
		want = "alt+" + want
	}
	zzsym.Assert(KeyMsg(k).String() == want, "the name of text is not the text")
}

// C45_Typed: what is typed arrives under its name.
func C45_Typed() {
	b := zzsym.Byte("b")
	got := decode([]byte{b})
	zzsym.Assert(len(got) == 1, "a byte is not one event")
	k, ok := got[0].(KeyMsg)
	switch {
	case b >= 0x80:
		return
	case b >= ' ' && b < 0x7f:
		zzsym.Assert(ok && k.String() == string(rune(b)), "a typed character arrives under another name")
	default:
		zzsym.Assert(ok, "a control character is no key")
		want := ""
		switch b {
		case 0x7f:
			want = "backspace"
		case '\t':
			want = "tab"
		case '\r':
			want = "enter"
		case 0x1b:
			want = "esc"
		default:
			want = "ctrl+" + string(rune(b|0x40))
			if b >= 1 && b <= 26 {
				want = "ctrl+" + string(rune(b|0x60))
			}
		}
		zzsym.Assert(k.String() == want, "a control character arrives under another name")
	}
}

var buttonNames = []string{"none", "left", "middle", "right", "wheel up", "wheel down", "wheel left", "wheel right", "backward", "forward", "button 10", "button 11"}

// C45_Mouse: a mouse event is called by its modifiers, its button and, unless
// the wheel was turned, by what was done with it.
func C45_Mouse() {
	b := MouseButton(zzsym.Int("button", 0, 11))
	a := MouseAction(zzsym.Int("action", 0, 2))
	m := MouseEvent{
		X: zzsym.Int("x", 0, 1000), Y: zzsym.Int("y", 0, 1000),
		Ctrl: zzsym.Bool("ctrl"), Alt: zzsym.Bool("alt"), Shift: zzsym.Bool("shift"), Button: b, Action: a,
	}
	want := ""
	if m.Ctrl {
		want += "ctrl+"
	}
	if m.Alt {
		want += "alt+"
	}
	if m.Shift {
		want += "shift+"
	}
	action := ""
	switch a {
	case MouseActionPress:
		action = "press"
	case MouseActionRelease:
		action = "release"
	case MouseActionMotion:
		action = "motion"
	}
	wheel := b == MouseButtonWheelUp || b == MouseButtonWheelDown || b == MouseButtonWheelLeft || b == MouseButtonWheelRight
	switch {
	case b == MouseButtonNone && a == MouseActionPress:
		want += "unknown"
	case b == MouseButtonNone:
		want += action
	case wheel:
		want += buttonNames[zzsym.Concrete(int(b))]
	default:
		want += buttonNames[zzsym.Concrete(int(b))] + " " + action
	}
	zzsym.Assert(m.IsWheel() == wheel, "IsWheel is wrong")
	zzsym.Assert(m.String() == want && MouseMsg(m).String() == want, "a mouse event has another name")
}
