// Package input decides the properties of input decoding, through the entry
// of the input reader: bytes in, messages out.
package input

import (
	"context"
	"errors"
	"io"
	"unicode/utf8"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// reads hands out one chunk per read, as far as the buffer allows, and fills
// the buffer from what follows when whole is set.
type reads struct {
	chunks [][]byte
	calls  int
	with   bool // the end is reported together with the last bytes
}

func (r *reads) Read(p []byte) (int, error) {
	r.calls++
	if len(r.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.chunks[0])
	if r.chunks[0] = r.chunks[0][n:]; len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	if r.with && len(r.chunks) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// decode returns the messages for the chunks, one read each.
func decode(chunks ...[]byte) []Msg {
	return decodeFrom(&reads{chunks: chunks})
}

func decodeFrom(r *reads) []Msg {
	n := 4
	for _, c := range r.chunks {
		n += len(c)
	}
	msgs := make(chan Msg, n)
	err := VerifReadInputs(context.Background(), msgs, r)
	zzsym.Assert(errors.Is(err, io.EOF), "the reader did not end with the input")
	close(msgs)
	var out []Msg
	for m := range msgs {
		zzsym.Assert(m != nil, "a nil message was delivered")
		out = append(out, m)
	}
	return out
}

func prefix(b []byte, s string) bool {
	return len(b) >= len(s) && string(b[:len(s)]) == s
}

const (
	pasteStart = "\x1b[200~"
	pasteEnd   = "\x1b[201~"
)

// pasteAt returns the text of the paste b starts with, and its whole length,
// or -1 if it is not finished.
func pasteAt(b []byte) (text []rune, n int) {
	i := len(pasteStart)
	for i < len(b) {
		if prefix(b[i:], pasteEnd) {
			return text, i + len(pasteEnd)
		}
		r, w := utf8.DecodeRune(b[i:])
		if r != utf8.RuneError || w > 1 {
			text = append(text, r)
		}
		i += w
	}
	return nil, -1
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sgr(b []byte) int {
	if !prefix(b, "\x1b[<") {
		return -1
	}
	i := 3
	for f := 0; f < 3; f++ {
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if j == i || j >= len(b) {
			return -1
		}
		if f < 2 && b[j] != ';' || f == 2 && b[j] != 'M' && b[j] != 'm' {
			return -1
		}
		i = j + 1
	}
	return i
}

// eat returns how many bytes at the start of b the message stands for, or -1
// if it can't stand for them.
func eat(b []byte, m Msg) int {
	if raw, ok := VerifUnknown(m); ok {
		if len(raw) > 0 && len(raw) <= len(b) && string(raw) == string(b[:len(raw)]) {
			return len(raw)
		}
		return -1
	}
	switch m := m.(type) {
	case FocusMsg:
		if prefix(b, "\x1b[I") {
			return 3
		}
	case BlurMsg:
		if prefix(b, "\x1b[O") {
			return 3
		}
	case MouseMsg:
		if n := sgr(b); n > 0 {
			return n
		}
		if prefix(b, "\x1b[M") && len(b) >= 6 {
			return 6
		}
	case KeyMsg:
		if m.Paste {
			if !prefix(b, pasteStart) || m.Type != KeyRunes {
				return -1
			}
			text, n := pasteAt(b)
			if n < 0 || !sameRunes(text, m.Runes) {
				return -1
			}
			return n
		}
		esc := 0
		if m.Alt {
			esc = 1
		}
		alted := !m.Alt || len(b) > 0 && b[0] == 0x1b
		switch {
		case m.Type == KeyRunes:
			if !alted || len(m.Runes) == 0 {
				return -1
			}
			n := esc
			for _, r := range m.Runes {
				q, w := utf8.DecodeRune(b[n:])
				if q != r || q == utf8.RuneError && w <= 1 {
					return -1
				}
				n += w
			}
			return n
		case m.Type == KeySpace:
			if alted && len(b) > esc && b[esc] == ' ' && len(m.Runes) == 1 && m.Runes[0] == ' ' {
				return esc + 1
			}
			return -1
		case m.Type >= 0:
			if alted && len(b) > esc && KeyType(b[esc]) == m.Type {
				return esc + 1
			}
			return -1
		}
		for _, row := range table {
			if row.key != m.Type {
				continue
			}
			if row.alt == m.Alt && prefix(b, row.seq) {
				return len(row.seq)
			}
			if m.Alt && !row.alt && prefix(b, "\x1b"+row.seq) {
				return len(row.seq) + 1
			}
		}
	}
	return -1
}

// account asserts that the messages stand for exactly the input.
func account(b []byte, msgs []Msg) {
	for _, m := range msgs {
		n := eat(b, m)
		zzsym.Assert(n > 0, "a message does not stand for the input at its place")
		b = b[n:]
	}
	if len(b) > 0 {
		// only an unfinished paste may be left
		ok := prefix(b, pasteStart)
		if ok {
			_, n := pasteAt(b)
			ok = n < 0
		}
		zzsym.Assert(ok, "input was left without a message")
	}
}

// ---------------------------------------------------------------- C35

func C35_Any() {
	n := zzsym.Int("n", 1, zzsym.Bound("bytes of any input", 4, 5))
	b := zzsym.Bytes("b", zzsym.Concrete(n))
	account(b, decode(b))
}

var starts = []string{"\x1b[", "\x1b\x1b", "\x1bO", "\x1b[<", "\x1b[M", "\x1b[1;", "\x1b[20", "\x1b[O", "\x1b[[", "\x1b\x1b["}

func C35_Started() {
	s := starts[zzsym.Choice("start", len(starts))]
	k := zzsym.Int("n", 1, zzsym.Bound("bytes after a sequence start", 2, 4))
	b := append([]byte(s), zzsym.Bytes("b", zzsym.Concrete(k))...)
	account(b, decode(b))
}

// C35_Paste: whatever the pasted bytes are.
func C35_Paste() {
	n := zzsym.Int("n", 0, zzsym.Bound("pasted bytes", 2, 4))
	b := append([]byte(pasteStart), zzsym.Bytes("b", zzsym.Concrete(n))...)
	b = append(b, pasteEnd...)
	b = append(b, after()...)
	account(b, decode(b))
}

// filled is a reader whose first read is filled to the last byte: filler, then
// the first cut bytes of rest. The next read brings the others, and more.
type filled struct {
	rest  []byte
	cut   int
	more  []byte
	first []byte
	state int
}

func (r *filled) Read(p []byte) (int, error) {
	r.state++
	switch r.state {
	case 1:
		for i := range p {
			p[i] = 'x'
		}
		m := len(p) - r.cut
		p[m-1] = '\r'
		copy(p[m:], r.rest[:r.cut])
		r.first = append(r.first, p[:m]...)
		return len(p), nil
	case 2:
		return copy(p, r.rest[r.cut:]), nil
	case 3:
		if len(r.more) > 0 {
			return copy(p, r.more), nil
		}
	}
	return 0, io.EOF
}

func decodeFilled(r *filled) []Msg {
	msgs := make(chan Msg, len(r.rest)+len(r.more)+8)
	err := VerifReadInputs(context.Background(), msgs, r)
	zzsym.Assert(errors.Is(err, io.EOF), "the reader did not end with the input")
	close(msgs)
	var out []Msg
	for m := range msgs {
		out = append(out, m)
	}
	return out
}

// C35_Full: input that fills the reads is accounted for as well.
func C35_Full() {
	s := starts[zzsym.Choice("start", len(starts))]
	k := zzsym.Bound("bytes after a sequence start in a full read", 1, 3)
	b := append([]byte(s), zzsym.Bytes("b", k)...)
	r := &filled{rest: b, cut: 1 + zzsym.Choice("cut", len(b)-1)}
	got := decodeFilled(r)
	account(append(append([]byte{}, r.first...), b...), got)
}

// ---------------------------------------------------------------- comparing

func same(a, b Msg) bool {
	if x, ok := VerifUnknown(a); ok {
		y, ok := VerifUnknown(b)
		return ok && string(x) == string(y)
	}
	switch x := a.(type) {
	case KeyMsg:
		y, ok := b.(KeyMsg)
		return ok && x.Type == y.Type && x.Alt == y.Alt && x.Paste == y.Paste && sameRunes(x.Runes, y.Runes)
	case MouseMsg:
		y, ok := b.(MouseMsg)
		return ok && x == y
	case FocusMsg:
		_, ok := b.(FocusMsg)
		return ok
	case BlurMsg:
		_, ok := b.(BlurMsg)
		return ok
	}
	return false
}

func assertSame(got, want []Msg, what string) {
	zzsym.Assert(len(got) == len(want), what+": number of events")
	for i := range want {
		zzsym.Assert(same(got[i], want[i]), what)
	}
}

func key(t KeyType, alt bool) Msg { return KeyMsg{Type: t, Alt: alt} }

func firstKey(b []byte, n int, want Key, what string) {
	got := decode(b)
	zzsym.Assert(len(got) > 0, what+": nothing was delivered")
	k, ok := got[0].(KeyMsg)
	zzsym.Assert(ok && k.Type == want.Type, what+": another key was reported")
	zzsym.Assert(k.Alt == want.Alt, what+": alt is wrong")
	zzsym.Assert(!k.Paste && sameRunes(k.Runes, want.Runes), what+": the key's runes are wrong")
	if n < len(b) {
		assertSame(got[1:], decode(b[n:]), what+": what follows is decoded differently")
	} else {
		zzsym.Assert(len(got) == 1, what+": more than one event")
	}
}

// ---------------------------------------------------------------- C36

func after() []byte {
	n := zzsym.Choice("after", zzsym.Bound("bytes after the sequence", 1, 2)+1)
	return zzsym.Bytes("after", n)
}

func C36_Sequences() {
	row := table[zzsym.Choice("sequence", len(table))]
	b := []byte(row.seq)
	alt := row.alt
	if !row.alt && zzsym.Choice("escape", 2) == 1 {
		b = append([]byte{0x1b}, b...)
		alt = true
	}
	n := len(b)
	firstKey(append(b, after()...), n, Key{Type: row.key, Alt: alt}, "sequence")
}

func C36_Control() {
	c := zzsym.Byte("control")
	zzsym.Assume(c <= 0x20 || c == 0x7f)
	zzsym.Assume(c != 0x1b)
	alt := zzsym.Choice("escape", 2) == 1
	var b []byte
	if alt {
		b = append(b, 0x1b)
	}
	b = append(b, c)
	n := len(b)
	want := Key{Type: KeyType(c), Alt: alt}
	if c == ' ' {
		want = Key{Type: KeySpace, Alt: alt, Runes: []rune{' '}}
	}
	firstKey(append(b, after()...), n, want, "control byte")
}

func C36_Escape() {
	alt := zzsym.Choice("escape", 2) == 1
	b := []byte{0x1b}
	if alt {
		b = append(b, 0x1b)
	}
	// an escape is a key by itself unless it starts something
	rest := []byte(nil)
	if alt && zzsym.Choice("followed", 2) == 1 {
		c := zzsym.Byte("next")
		zzsym.Assume(c != '[' && c != 'O')
		rest = append(rest, c)
	}
	firstKey(append(b, rest...), len(b), Key{Type: KeyEscape, Alt: alt}, "escape")
}

func C36_Focus() {
	b := []byte("\x1b[I")
	blur := zzsym.Choice("blur", 2) == 1
	if blur {
		b = []byte("\x1b[O")
	}
	b = append(b, after()...)
	if blur && len(b) > 3 {
		// these also are documented keys
		c := b[3]
		zzsym.Assume(!(c >= 'A' && c <= 'D') && !(c >= 'a' && c <= 'd'))
	}
	got := decode(b)
	zzsym.Assert(len(got) > 0, "nothing was delivered")
	if blur {
		_, ok := got[0].(BlurMsg)
		zzsym.Assert(ok, "losing the focus is not reported")
	} else {
		_, ok := got[0].(FocusMsg)
		zzsym.Assert(ok, "gaining the focus is not reported")
	}
	if len(b) > 3 {
		assertSame(got[1:], decode(b[3:]), "what follows a focus report is decoded differently")
	}
}

// C36_Only: no key but the documented ones is reported for what begins like a
// sequence.
func C36_Only() {
	s := []string{"\x1b[", "\x1bO", "\x1b[1;", "\x1b\x1b[", "\x1b\x1bO", "\x1b["}[zzsym.Choice("start", 6)]
	k := zzsym.Int("n", 1, zzsym.Bound("bytes after the start of a sequence", 2, 3))
	b := append([]byte(s), zzsym.Bytes("b", zzsym.Concrete(k))...)
	account(b, decode(b))
}

// ---------------------------------------------------------------- C37

func encode(rs []rune) []byte { return []byte(string(rs)) }

func typed(name string, n int, domain string) []rune {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = zzsym.Rune(name, domain)
	}
	return rs
}

func oneText(got []Msg, want []rune, what string) {
	zzsym.Assert(len(got) == 1, what+": not one event")
	k, ok := got[0].(KeyMsg)
	zzsym.Assert(ok && k.Type == KeyRunes && !k.Paste, what+": not typed text")
	zzsym.Assert(!k.Alt, what+": alt is reported")
	zzsym.Assert(sameRunes(k.Runes, want), what+": the text is changed")
}

func C37_Text() {
	n := 1 + zzsym.Choice("n", zzsym.Bound("runes of text", 3, 5))
	rs := typed("r", n, "printable")
	oneText(decode(encode(rs)), rs, "text")
}

// C37_Words: words, spaces and escapes in between.
func C37_Words() {
	n := 1 + zzsym.Choice("n", zzsym.Bound("pieces of text", 3, 5))
	var b []byte
	var want []Msg
	run := false
	for i := 0; i < n; i++ {
		r := zzsym.Rune("r", "printable")
		switch zzsym.Choice("piece", 4) {
		case 0:
			b = append(b, string(r)...)
			if run {
				k := want[len(want)-1].(KeyMsg)
				k.Runes = append(k.Runes, r)
				want[len(want)-1] = k
			} else {
				want = append(want, KeyMsg{Type: KeyRunes, Runes: []rune{r}})
			}
			run = true
			continue
		case 1:
			b = append(b, ' ')
			want = append(want, KeyMsg{Type: KeySpace, Runes: []rune{' '}})
		case 2:
			b = append(b, '\r')
			want = append(want, KeyMsg{Type: KeyEnter})
		case 3:
			zzsym.Assume(r != '[' && r != 'O')
			b = append(append(b, 0x1b), string(r)...)
			want = append(want, KeyMsg{Type: KeyRunes, Runes: []rune{r}, Alt: true})
		}
		run = false
	}
	assertSame(decode(b), want, "text")
}

func C37_Paste() {
	n := zzsym.Choice("n", zzsym.Bound("runes of pasted text", 2, 4)+1)
	rs := typed("r", n, "pasted")
	text := encode(rs)
	for i := range text {
		zzsym.Assume(!prefix(text[i:], pasteEnd))
	}
	b := append([]byte(pasteStart), text...)
	b = append(b, pasteEnd...)
	size := len(b)
	b = append(b, after()...)
	parts := [][]byte{b}
	if zzsym.Choice("split", 2) == 1 {
		// the text may arrive in pieces
		at := len(pasteStart) + zzsym.Choice("at", n+1)
		if at < len(b) {
			parts = [][]byte{b[:at], b[at:]}
		}
	}
	got := decode(parts...)
	zzsym.Assert(len(got) > 0, "the pasted text was not delivered")
	k, ok := got[0].(KeyMsg)
	zzsym.Assert(ok && k.Type == KeyRunes && k.Paste && !k.Alt, "the pasted text is not marked as pasted")
	zzsym.Assert(sameRunes(k.Runes, rs), "the pasted text is changed")
	if size < len(b) {
		assertSame(got[1:], decode(b[size:]), "what follows pasted text is decoded differently")
	} else {
		zzsym.Assert(len(got) == 1, "pasted text is more than one event")
	}
}

// ---------------------------------------------------------------- C38

func cut(b []byte) *filled {
	r := &filled{rest: b, cut: 1 + zzsym.Choice("cut", len(b)-1)}
	return r
}

func unaffected(r *filled) {
	got := decodeFilled(r)
	want := append(decode(r.first), decode(r.rest)...)
	if len(r.more) > 0 {
		want = append(want, decode(r.more)...)
	}
	assertSame(got, want, "events differ when a full read cuts the input")
}

// C38_Sequence: every documented sequence, cut anywhere.
func C38_Sequence() {
	row := table[zzsym.Choice("sequence", len(table))]
	b := []byte(row.seq)
	if !row.alt && zzsym.Choice("escape", 2) == 1 {
		b = append([]byte{0x1b}, b...)
	}
	unaffected(cut(b))
}

func C38_Any() {
	k := 2 + zzsym.Choice("n", zzsym.Bound("bytes of any input cut in two", 1, 3))
	unaffected(cut(zzsym.Bytes("b", k)))
}

func C38_Started() {
	s := starts[zzsym.Choice("start", len(starts))]
	k := 1 + zzsym.Choice("n", zzsym.Bound("bytes after a sequence start cut in two", 1, 3))
	unaffected(cut(append([]byte(s), zzsym.Bytes("b", k)...)))
}

func C38_Text() {
	k := 1 + zzsym.Choice("n", zzsym.Bound("runes cut in two", 1, 3))
	b := encode(typed("r", k, "printable"))
	zzsym.Assume(len(b) > 1)
	unaffected(cut(b))
}

func C38_Mouse() {
	b := []byte("\x1b[<")
	for f := 0; f < 3; f++ {
		for i := zzsym.Choice("digits", zzsym.Bound("digits of a field", 2, 3)); i >= 0; i-- {
			d := zzsym.Byte("d")
			zzsym.Assume(d >= '0' && d <= '9')
			b = append(b, d)
		}
		if f < 2 {
			b = append(b, ';')
		}
	}
	b = append(b, "Mm"[zzsym.Choice("end", 2)])
	if zzsym.Choice("x10", 2) == 1 {
		b = append([]byte("\x1b[M"), zzsym.Bytes("x", 3)...)
	}
	unaffected(cut(b))
}

func C38_Paste() {
	n := zzsym.Choice("n", zzsym.Bound("runes of pasted text cut in two", 2, 4)+1)
	b := append([]byte(pasteStart), encode(typed("r", n, "pasted"))...)
	unaffected(cut(append(b, pasteEnd...)))
}

// whole hands out a stream in full reads, and then the end.
type whole struct {
	head, tail []byte
	fill       func(i int) byte
	left       int // full reads to come after the first
	state      int
	all        []byte
}

func (r *whole) Read(p []byte) (int, error) {
	r.state++
	switch {
	case r.state == 1: // text up to head, at the end of the read
		m := len(p) - len(r.head)
		for i := 0; i < m; i++ {
			p[i] = '\r'
		}
		copy(p[m:], r.head)
		return len(p), nil
	case r.state <= 1+r.left:
		for i := range p {
			p[i] = r.fill(len(r.all) + i)
		}
		r.all = append(r.all, p...)
		return len(p), nil
	case r.state == 2+r.left:
		return copy(p, r.tail), nil
	}
	return 0, io.EOF
}

// C38_Long: text and pasted text that goes on over several full reads.
func C38_Long() {
	k := zzsym.Rune("k", "printable")
	first := encode([]rune{k})
	zzsym.Assume(len(first) == 1)
	c := first[0]
	paste := zzsym.Choice("paste", 2) == 1
	r := &whole{
		fill: func(i int) byte { return "abcdefg"[i%7] },
		left: zzsym.Choice("full reads", zzsym.Bound("full reads", 2, 3)+1),
	}
	if paste {
		r.head = append([]byte(pasteStart), c)
		r.tail = []byte{c, 'z', 0x1b, '[', '2', '0', '1', '~'}
	} else {
		r.head = []byte{'0', c}
		r.tail = []byte{c, 'z'}
	}
	msgs := make(chan Msg, 1100)
	err := VerifReadInputs(context.Background(), msgs, r)
	zzsym.Assert(errors.Is(err, io.EOF), "the reader did not end with the input")
	close(msgs)
	var got []KeyMsg
	for m := range msgs {
		k, ok := m.(KeyMsg)
		zzsym.Assert(ok, "text over several reads is not delivered as keys")
		if k.Type != KeyEnter {
			got = append(got, k)
		}
	}
	zzsym.Assert(len(got) == 1, "text over several reads is not one event")
	want := []rune{}
	if !paste {
		want = append(want, '0')
	}
	want = append(want, k)
	for _, b := range r.all {
		want = append(want, rune(b))
	}
	want = append(want, k, 'z')
	zzsym.Assert(got[0].Paste == paste && sameRunes(got[0].Runes, want), "text over several reads is changed")
	zzsym.Cover("long")
}

// C38_End: the end of the input loses nothing, whether it is reported together
// with the last bytes or after them, and when the last read was a full one.
func C38_End() {
	var b []byte
	if k := zzsym.Choice("start", len(starts)+1); k > 0 {
		b = []byte(starts[k-1])
	}
	n := zzsym.Choice("n", zzsym.Bound("bytes at the end", 1, 3)+1)
	b = append(b, zzsym.Bytes("b", n)...)
	zzsym.Assume(len(b) > 0)
	want := decode(b)
	if prefix(b, pasteStart) {
		// an unfinished paste waits for its end
		return
	}
	if zzsym.Choice("full", 2) == 1 {
		// the last read is full
		fill := make([]byte, 256-len(b))
		for i := range fill {
			fill[i] = '\r'
		}
		r := &reads{chunks: [][]byte{append(fill, b...)}, with: zzsym.Choice("with", 2) == 1}
		got := decodeFrom(r)
		zzsym.Assert(len(got) >= len(fill), "keys before the end were lost")
		assertSame(got[len(fill):], want, "events at the end of the input, after a full read")
		return
	}
	r := &reads{chunks: [][]byte{b}, with: true}
	assertSame(decodeFrom(r), want, "events of a last read that reports the end")
}

// C38_Later: what was delivered stays as it was when more is read.
func C38_Later() {
	s := starts[zzsym.Choice("start", len(starts))]
	a := append([]byte(s), zzsym.Bytes("a", zzsym.Bound("bytes of the first read", 2, 3))...)
	b := zzsym.Bytes("b", zzsym.Bound("bytes of the second read", 1, 2))
	if zzsym.Choice("long", 2) == 1 {
		b = []byte("0123456789abcdef")
	}
	want := decode(a)
	if prefix(a, pasteStart) {
		return
	}
	want = append(want, decode(b)...)
	assertSame(decode(a, b), want, "events of separate reads differ")
}

// ---------------------------------------------------------------- C39

func wantMouse(code, x, y int, release bool) MouseEvent {
	m := MouseEvent{X: x - 1, Y: y - 1}
	m.Shift = code&4 != 0
	m.Alt = code&8 != 0
	m.Ctrl = code&16 != 0
	low := code & 3
	motion := code&32 != 0
	switch {
	case code&128 != 0:
		m.Button = MouseButtonBackward + MouseButton(low)
	case code&64 != 0:
		m.Button = MouseButtonWheelUp + MouseButton(low)
		return m
	case low == 3:
		m.Button = MouseButtonNone
		release = true
	default:
		m.Button = MouseButtonLeft + MouseButton(low)
	}
	switch {
	case motion:
		m.Action = MouseActionMotion
	case release:
		m.Action = MouseActionRelease
	}
	return m
}

func firstMouse(b []byte, n int, want MouseEvent) {
	got := decode(b)
	zzsym.Assert(len(got) > 0, "a mouse report was not delivered")
	m, ok := got[0].(MouseMsg)
	zzsym.Assert(ok, "a mouse report is not decoded to a mouse event")
	zzsym.Assert(m.X == want.X && m.Y == want.Y, "the mouse position is wrong")
	zzsym.Assert(m.Button == want.Button, "the mouse button is wrong")
	zzsym.Assert(m.Action == want.Action, "the mouse action is wrong")
	zzsym.Assert(m.Shift == want.Shift && m.Alt == want.Alt && m.Ctrl == want.Ctrl, "the modifiers of a mouse event are wrong")
	if n < len(b) {
		assertSame(got[1:], decode(b[n:]), "what follows a mouse report is decoded differently")
	} else {
		zzsym.Assert(len(got) == 1, "a mouse report is more than one event")
	}
}

func number(b []byte, digits int) ([]byte, int) {
	v := 0
	for i := 0; i < digits; i++ {
		d := zzsym.Byte("d")
		zzsym.Assume(d >= '0' && d <= '9')
		v = v*10 + int(d-'0')
		b = append(b, d)
	}
	return b, v
}

func C39_SGR() {
	b := []byte("\x1b[<")
	max := zzsym.Bound("digits of a coordinate", 3, 5)
	var code, x, y int
	b, code = number(b, 1+zzsym.Choice("digits", 3))
	zzsym.Assume(code < 256 && code&192 != 192)
	b = append(b, ';')
	b, x = number(b, 1+zzsym.Choice("digits", max))
	b = append(b, ';')
	b, y = number(b, 1+zzsym.Choice("digits", max))
	zzsym.Assume(x >= 1 && y >= 1)
	release := zzsym.Choice("release", 2) == 1
	if release {
		b = append(b, 'm')
	} else {
		b = append(b, 'M')
	}
	n := len(b)
	firstMouse(append(b, after()...), n, wantMouse(code, x, y, release))
}

func C39_X10() {
	c, x, y := zzsym.Byte("code"), zzsym.Byte("x"), zzsym.Byte("y")
	zzsym.Assume(c >= 32 && x >= 33 && y >= 33)
	code := int(c) - 32
	zzsym.Assume(code&192 != 192)
	b := []byte{0x1b, '[', 'M', c, x, y}
	firstMouse(append(b, after()...), 6, wantMouse(code, int(x)-32, int(y)-32, false))
}

// C39_Like: what is like a report, but is none, is not taken for one.
func C39_Like() {
	b := []byte("\x1b[<")
	for i := zzsym.Bound("pieces of a near report", 3, 5); i > 0; i-- {
		switch zzsym.Choice("piece", 4) {
		case 0:
			b = append(b, zzsym.Byte("any"))
		case 1:
			d := zzsym.Byte("digit")
			zzsym.Assume(d >= '0' && d <= '9')
			b = append(b, d)
		case 2:
			b = append(b, ';')
		case 3:
			b = append(b, '1', ';', '2', ';', '3', 'M')
		}
	}
	got := decode(b)
	account(b, got)
	_, mouse := got[0].(MouseMsg)
	zzsym.Assert(mouse == (sgr(b) > 0), "a mouse event is reported exactly for a mouse report")
}
