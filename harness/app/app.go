// Package app decides the properties of the running application: App.Run on
// streams and a terminal device that the harness plays, under every schedule.
package app

import (
	"context"
	"errors"
	"io"
	"strings"
	"sync/atomic"
	"time"

	"github.com/charmbracelet/x/term"
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

const fd = 901

// input is what the user types: one chunk per read.
type input struct {
	chunks chan []byte
	end    error
}

func (i *input) Read(p []byte) (int, error) {
	b, ok := <-i.chunks
	if !ok {
		return 0, i.end
	}
	return copy(p, b), nil
}
func (i *input) Write(p []byte) (int, error) { return len(p), nil }
func (i *input) Close() error                { return nil }
func (i *input) Fd() uintptr                 { return fd }

var (
	errOutput = errors.New("output is broken")
	errInput  = errors.New("input is broken")
	errTTY    = errors.New("terminal is broken")
)

// output is the screen.
type output struct {
	tried  strings.Builder // all that was written or tried to
	writes int
	failAt int // the write that fails, -1: none
	always bool
	failed bool
}

func (o *output) Write(p []byte) (int, error) {
	o.tried.Write(p)
	k := o.writes
	o.writes++
	if o.failAt >= 0 && (k == o.failAt || o.always && k > o.failAt) {
		o.failed = true
		return 0, errOutput
	}
	return len(p), nil
}
func (o *output) Read(p []byte) (int, error) { return 0, io.EOF }
func (o *output) Close() error               { return nil }
func (o *output) Fd() uintptr                { return fd }

// state is shared by the versions of a model.
type state struct {
	updates int   // messages handled
	log     []Msg // in this order
	drawn   int   // the version that is on the screen
	size    Rect  // as last reported
	sized   bool
	area    Rect // as last drawn

	init   func() Cmd
	update func(msg Msg) Cmd
	render func()
}

// model is one version of the model: handling a message makes the next.
type model struct {
	*state
	version int
}

func (m *model) Init() Cmd {
	if m.state.init != nil {
		return m.state.init()
	}
	return nil
}

func (m *model) Update(msg Msg) (Model, Cmd) {
	zzsym.Assert(m.version == m.updates, "a message is handled by an outdated model")
	zzsym.Assert(m.drawn == m.version, "a message is handled before the result of the previous one was drawn")
	zzsym.Assert(msg != nil, "the absence of a message is handled as a message")
	m.updates++
	m.log = append(m.log, msg)
	if s, ok := msg.(WindowSizeMsg); ok {
		m.size, m.sized = NewRect(s.Width, s.Height), true
	}
	var cmd Cmd
	if m.state.update != nil {
		cmd = m.state.update(msg)
	}
	return &model{m.state, m.version + 1}, cmd
}

func (m *model) Render(area Rect, buffer *Buffer) {
	zzsym.Assert(m.version == m.updates, "an outdated model is drawn")
	zzsym.Assert(!m.sized || area == m.size, "the model is drawn at a size other than the one it was told")
	m.drawn = m.version
	m.area = area
	if m.state.render != nil {
		m.state.render()
	}
}

// inPlace is a model that every message changes where it is.
type inPlace struct{ model }

func (m *inPlace) Update(msg Msg) (Model, Cmd) {
	next, cmd := m.model.Update(msg)
	m.model = *next.(*model)
	return m, cmd
}

// handle is a model whose values are all the same: what changes is behind it.
type handle struct{ m *inPlace }

func (h handle) Init() Cmd { return h.m.Init() }
func (h handle) Update(msg Msg) (Model, Cmd) {
	_, cmd := h.m.Update(msg)
	return h, cmd
}
func (h handle) Render(area Rect, buffer *Buffer) { h.m.Render(area, buffer) }

// version is that of a model of any kind.
func version(m Model) int {
	switch m := m.(type) {
	case *model:
		return m.version
	case *inPlace:
		return m.version
	case handle:
		return m.m.version
	}
	return -1
}

type world struct {
	*state
	kind   int // of the model
	in     *input
	out    *output
	tty    *term.TTY
	ctx    context.Context
	cancel context.CancelFunc

	done  chan struct{} // Run has returned
	model Model
	err   error
}

func setup() *world {
	w := &world{
		state: &state{drawn: -1},
		in:    &input{chunks: make(chan []byte), end: io.EOF},
		out:   &output{failAt: -1},
		tty:   &term.TTY{Width: 2, Height: 1},
		done:  make(chan struct{}),
	}
	term.TTYs = map[uintptr]*term.TTY{fd: w.tty}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	return w
}

func (w *world) run() {
	var first Model = &model{w.state, 0}
	switch w.kind {
	case 1:
		first = &inPlace{model{w.state, 0}}
	case 2:
		first = handle{&inPlace{model{w.state, 0}}}
	}
	w.model, w.err = VerifApp(NewApp(first).WithContext(w.ctx), w.in, w.out).Run()
	close(w.done)
}

// idle lets everything happen that can happen by itself.
func (w *world) idle() {
	zzsym.WaitIdle()
	zzsym.Assert(w.drawn == w.updates, "the last message was handled but its result is not drawn")
}

// stop cancels the app and waits for it.
func (w *world) stop() {
	w.cancel()
	<-w.done
	w.returned()
	zzsym.Assert(errors.Is(w.err, ErrKilled), "being cancelled is not reported")
}

// returned asserts what holds whenever Run returned.
func (w *world) returned() {
	zzsym.Assert(version(w.model) == w.updates, "the final model is not returned")
}

// restored asserts that the terminal is as it was, or that this was tried.
func (w *world) restored() {
	s := w.out.tried.String()
	on, off := strings.LastIndex(s, "\x1b[?1049h"), strings.LastIndex(s, "\x1b[?1049l")
	zzsym.Assert(off >= on, "the alternate screen is left on")
	hide, show := strings.LastIndex(s, "\x1b[?25l"), strings.LastIndex(s, "\x1b[?25h")
	zzsym.Assert(show >= hide, "the cursor is left hidden")
	zzsym.Assert(!w.tty.Raw, "the terminal is left in raw mode")
}

// count tells how often msg was handled.
func (w *world) count(msg Msg) int {
	k := 0
	for _, x := range w.log {
		if l, ok := x.(leafMsg); ok && l == msg {
			k++
		}
	}
	return k
}

// leafMsg is the message of a command of the harness.
type leafMsg int

func say(i int) Cmd { return func() Msg { return leafMsg(i) } }

// forever is a command that never returns.
func forever() Msg {
	select {}
}

// ---------------------------------------------------------------- C40

// keys returns the runes typed, in the order in which they were handled.
func (w *world) keys() (rs []rune) {
	for _, x := range w.log {
		if k, ok := x.(KeyMsg); ok {
			zzsym.Assert(k.Type == KeyRunes, "a letter is not handled as a letter")
			rs = append(rs, k.Runes...) // one message may carry several
		}
	}
	return rs
}

func letter(name string) byte { return byte(zzsym.Int(name, '!', '~')) }

func C40_Keys() {
	n := zzsym.Bound("chunks", 3, 6)
	w := setup()
	var typed []byte
	var chunks [][]byte
	for i := 0; i < n; i++ {
		b := []byte{letter("key")}
		if i == 0 {
			b = append(b, letter("key"))
		}
		chunks = append(chunks, b)
		typed = append(typed, b...)
	}
	go w.run()
	for _, b := range chunks {
		w.in.chunks <- b
	}
	w.idle()
	got := w.keys()
	zzsym.Assert(len(got) == len(typed), "not every key is handled exactly once")
	for i := range got {
		zzsym.Assert(got[i] == rune(typed[i]), "the keys are handled in another order than typed")
	}
	zzsym.Assert(w.sized && len(w.log) <= len(typed)+1, "the size is not reported exactly once")
	w.stop()
}

// Messages of commands arrive in the order in which the commands that send
// them run, along with keys.
func C40_Mixed() {
	n := zzsym.Bound("messages", 3, 6)
	w := setup()
	w.init = func() Cmd { return say(0) }
	w.update = func(msg Msg) Cmd {
		if l, ok := msg.(leafMsg); ok && int(l)+1 < n {
			return say(int(l) + 1)
		}
		return nil
	}
	key := letter("key")
	go w.run()
	w.in.chunks <- []byte{key}
	w.idle()
	next := 0
	for _, x := range w.log {
		if l, ok := x.(leafMsg); ok {
			zzsym.Assert(int(l) == next, "a message is handled twice or before its cause")
			next++
		}
	}
	zzsym.Assert(next == n, "the message of a command is not handled")
	ks := w.keys()
	zzsym.Assert(len(ks) == 1 && ks[0] == rune(key), "the key is not handled exactly once")
	zzsym.Assert(len(w.log) == n+2, "something is handled that was not sent")
	w.stop()
}

// Every message is handled and drawn, whichever way the model keeps what it
// learned, whether it answers with commands or not.
func C40_Models() {
	w := setup()
	w.kind = zzsym.Choice("model", 3)
	n := zzsym.Bound("handled", 2, 3)
	var sent []bool
	for i := 0; i < n; i++ {
		sent = append(sent, zzsym.Choice("answer", 2) == 1)
	}
	k, answers := 0, 0
	w.update = func(msg Msg) Cmd {
		if _, ok := msg.(KeyMsg); ok {
			k++
			if sent[k-1] {
				answers++
				return say(k)
			}
		}
		return nil
	}
	go w.run()
	for i := 0; i < n; i++ {
		w.in.chunks <- []byte{letter("key")}
		w.idle()
	}
	zzsym.Assert(k == n && len(w.log) == n+1+answers, "not every message is handled exactly once")
	w.stop()
}

// C40_Long types for long, every key making a command send a message.
func C40_Long() {
	w := setup()
	n := zzsym.Bound("keys", 90, 500)
	chunk := []int{1, 7, 60}[zzsym.Choice("chunk", 3)]
	var heard []string
	told := 0
	w.update = func(msg Msg) Cmd {
		switch m := msg.(type) {
		case KeyMsg:
			heard = append(heard, m.String())
			return say(len(heard))
		case leafMsg:
			zzsym.Assert(int(m) <= len(heard), "a message is handled before its cause")
			told++
		}
		return nil
	}
	go w.run()
	var want []string
	var b []byte
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			b, want = append(b, "\x1b[A"...), append(want, "up")
		case 1:
			b, want = append(b, 'a'+byte(i%26)), append(want, string(rune('a'+byte(i%26))))
		case 2:
			b, want = append(b, "\x1b[1;5D"...), append(want, "ctrl+left")
		}
		if i%chunk == chunk-1 || i == n-1 {
			w.in.chunks <- b
			b = nil
		}
	}
	w.idle()
	zzsym.Assert(len(heard) == n, "not every key is handled exactly once")
	for i := range heard {
		zzsym.Assert(heard[i] == want[i], "the keys are handled in another order than typed")
	}
	for i := 1; i <= n; i++ {
		zzsym.Assert(w.count(leafMsg(i)) == 1, "the message of a command is not handled")
	}
	zzsym.Assert(told == n && len(w.log) == 2*n+1, "something is handled that was not sent")
	w.stop()
}

// The app learns the size that the terminal ends up with and draws at it,
// however the changes fall in with its start.
func C40_Resize() {
	n := zzsym.Bound("resizes", 2, 3)
	w := setup()
	go w.run()
	width, height := 2, 1
	for i := 0; i < n; i++ {
		width, height = 1+zzsym.Choice("width", 3), 1+zzsym.Choice("height", 2)
		w.tty.Resize(width, height)
		zzsym.Winch()
	}
	w.idle()
	zzsym.Assert(w.sized, "the size is not reported")
	zzsym.Assert(w.area == NewRect(width, height), "the app does not learn the size of the terminal")
	zzsym.Assert(len(w.log) <= n+1, "a size is reported without a cause")
	w.stop()
}

// ---------------------------------------------------------------- C41

// tree is a command and what is known about its messages.
type tree struct {
	cmd    Cmd
	leaves []int    // said
	before [][2]int // the first is handled before the second
}

// plan numbers the commands and counts their runs.
type plan struct {
	runs  []*atomic.Int32
	quiet []bool // says nothing
	busy  atomic.Int32
}

func (p *plan) leaf(quiet, alone bool) tree {
	i := len(p.runs)
	c := new(atomic.Int32)
	p.runs = append(p.runs, c)
	p.quiet = append(p.quiet, quiet)
	cmd := func() Msg {
		c.Add(1)
		if quiet {
			return nil
		}
		return leafMsg(i)
	}
	t := tree{cmd: cmd}
	if !quiet {
		t.leaves = []int{i}
	}
	return t
}

// build makes a command of at most the given number of leaves.
func (p *plan) build(depth, width int) tree {
	kinds := 3
	if depth > 0 {
		kinds = 5
	}
	switch zzsym.Choice("kind", kinds) {
	case 0:
		return p.leaf(false, false)
	case 1:
		return tree{}
	case 2:
		return p.leaf(true, false)
	case 3:
		var t tree
		var cmds []Cmd
		for i := 0; i < width; i++ {
			u := p.build(depth-1, width)
			cmds = append(cmds, u.cmd)
			t.leaves = append(t.leaves, u.leaves...)
			t.before = append(t.before, u.before...)
		}
		t.cmd = Batch(cmds...)
		return t
	default:
		var t tree
		var cmds []Cmd
		for i := 0; i < width; i++ {
			u := p.build(depth-1, width)
			cmds = append(cmds, u.cmd)
			for _, a := range t.leaves {
				for _, b := range u.leaves {
					t.before = append(t.before, [2]int{a, b})
				}
			}
			t.leaves = append(t.leaves, u.leaves...)
			t.before = append(t.before, u.before...)
		}
		t.cmd = Sequence(cmds...)
		return t
	}
}

// told asserts that the messages of t were handled as they should.
func (w *world) told(p *plan, t tree) {
	for i, c := range p.runs {
		zzsym.Assert(c.Load() == 1, "a command does not run exactly once")
		k := 0
		if !p.quiet[i] {
			k = 1
		}
		zzsym.Assert(w.count(leafMsg(i)) == k, "the message of a command is not handled exactly once")
	}
	at := map[int]int{}
	for k, x := range w.log {
		if l, ok := x.(leafMsg); ok {
			at[int(l)] = k
		}
	}
	for _, b := range t.before {
		zzsym.Assert(at[b[0]] < at[b[1]], "the messages of a sequence are handled out of order")
	}
}

func tellTree(init bool, depth, width int) {
	w := setup()
	p := &plan{}
	t := p.build(depth, width)
	if init {
		w.init = func() Cmd { return t.cmd }
	} else {
		w.update = func(msg Msg) Cmd {
			if _, ok := msg.(WindowSizeMsg); ok {
				return t.cmd
			}
			return nil
		}
	}
	go w.run()
	w.idle()
	w.told(p, t)
	w.stop()
}

func C41_Init()   { tellTree(true, zzsym.Bound("depth", 1, 2), 2) }
func C41_Update() { tellTree(false, 2, 2) }
func C41_Wide()   { tellTree(false, 1, zzsym.Bound("width", 3, 4)) }

// The commands given to a batch or a sequence may be used again.
func C41_Again() {
	w := setup()
	var runs [3]atomic.Int32
	var cmds []Cmd
	want := [3]int32{}
	for i := 0; i < 3; i++ {
		switch zzsym.Choice("member", 2) {
		case 0:
			cmds = append(cmds, nil)
		case 1:
			cmds = append(cmds, func() Msg { runs[i].Add(1); return nil })
			want[i] = 2
		}
	}
	var first, second Cmd
	switch zzsym.Choice("shape", 3) {
	case 0:
		first, second = Batch(cmds...), Batch(cmds...)
	case 1:
		first, second = Sequence(cmds...), Sequence(cmds...)
	case 2:
		first = Batch(cmds...)
		second = first
	}
	w.init = func() Cmd { return Sequence(first, second) }
	go w.run()
	w.idle()
	for i := range runs {
		zzsym.Assert(runs[i].Load() == want[i], "a command does not run once each time it is returned")
	}
	w.stop()
}

// The members of a sequence do not overlap.
func C41_OneAtATime() {
	w := setup()
	var busy atomic.Int32
	var next atomic.Int32
	member := func(i int) Cmd {
		return func() Msg {
			zzsym.Assert(busy.Add(1) == 1, "the commands of a sequence overlap")
			zzsym.Assert(int(next.Add(1)) == i+1, "the commands of a sequence run out of order")
			busy.Add(-1)
			return leafMsg(i)
		}
	}
	n := zzsym.Bound("members", 3, 6)
	var cmds []Cmd
	for i := 0; i < n; i++ {
		cmds = append(cmds, member(i))
	}
	if zzsym.Bool("nested") {
		cmds = []Cmd{cmds[0], Sequence(cmds[1:]...)}
	}
	w.init = func() Cmd { return Sequence(cmds...) }
	go w.run()
	w.idle()
	zzsym.Assert(int(next.Load()) == n, "a command of a sequence does not run")
	w.stop()
}

// A batch does not make its commands wait for each other.
func C41_Concurrent() {
	w := setup()
	a := make(chan int)
	give := func() Msg { a <- 1; return leafMsg(0) }
	take := func() Msg { <-a; return leafMsg(1) }
	var cmd Cmd
	switch zzsym.Choice("shape", 4) {
	case 0:
		cmd = Batch(give, take)
	case 1:
		cmd = Batch(take, nil, give)
	case 2:
		cmd = Batch(Batch(forever, take), give)
	case 3:
		cmd = Sequence(Batch(take, give), say(2))
	}
	w.init = func() Cmd { return cmd }
	go w.run()
	w.idle()
	zzsym.Assert(w.count(leafMsg(0)) == 1 && w.count(leafMsg(1)) == 1, "a command of a batch waits for another")
	w.stop()
}

// C41_Ticks: the function of a tick runs once, when its delay is over.
func C41_Ticks() {
	w := setup()
	var runs [2]atomic.Int32
	tick := func(i int) Cmd {
		d := []time.Duration{-time.Millisecond, 0, 999 * time.Microsecond, 2*time.Millisecond + 1}[zzsym.Choice("delay", 4)]
		start := time.Now()
		return Tick(d, func(at time.Time) Msg {
			runs[i].Add(1)
			zzsym.Assert(at.Sub(start) >= d && time.Since(start) >= d, "a tick comes before its time")
			zzsym.Assert(time.Since(at) >= 0, "a tick tells another time than its own")
			return leafMsg(i)
		})
	}
	shape := zzsym.Choice("shape", 3)
	w.update = func(msg Msg) Cmd {
		if _, ok := msg.(WindowSizeMsg); !ok {
			return nil
		}
		switch shape {
		case 0:
			return Batch(tick(0), tick(1))
		case 1:
			return Sequence(tick(0), tick(1))
		default:
			return Sequence(nil, Batch(say(3), tick(1)), tick(0))
		}
	}
	go w.run()
	w.idle()
	time.Sleep(50 * time.Millisecond)
	w.idle()
	for i := range runs {
		zzsym.Assert(runs[i].Load() == 1, "a tick does not run exactly once")
		zzsym.Assert(w.count(leafMsg(i)) == 1, "the message of a command is not handled exactly once")
	}
	w.stop()
}

// C41_Crowd: however many members a batch has, none waits for another.
func C41_Crowd() {
	w := setup()
	n := zzsym.Bound("members", 80, 600)
	chain := make([]chan int, n+1)
	for i := range chain {
		chain[i] = make(chan int)
	}
	var runs atomic.Int32
	var cmds []Cmd
	for i := 0; i < n; i++ {
		cmds = append(cmds, func() Msg {
			<-chain[i+1]
			runs.Add(1)
			close(chain[i])
			return nil
		})
	}
	cmds = append(cmds, func() Msg { close(chain[n]); return nil })
	switch zzsym.Choice("shape", 2) {
	case 0:
		w.init = func() Cmd { return Batch(cmds...) }
	case 1:
		w.init = func() Cmd { return Sequence(nil, Batch(cmds...)) }
	}
	go w.run()
	w.idle()
	zzsym.Assert(int(runs.Load()) == n, "a command of a batch waits for another")
	w.stop()
}

// C41_Line: a long sequence, of long batches too, delivers everything in order.
func C41_Line() {
	w := setup()
	n := zzsym.Bound("members", 80, 600)
	var cmds []Cmd
	for i := 0; i < n; i++ {
		cmds = append(cmds, say(i))
	}
	if zzsym.Choice("nested", 2) == 1 {
		var nest []Cmd
		for i := 0; i < n; i += 10 {
			nest = append(nest, Sequence(cmds[i:i+10]...), nil)
		}
		cmds = nest
	}
	w.init = func() Cmd { return Sequence(cmds...) }
	go w.run()
	w.idle()
	k := 0
	for _, x := range w.log {
		if l, ok := x.(leafMsg); ok {
			zzsym.Assert(int(l) == k, "the messages of a sequence are handled out of order")
			k++
		}
	}
	zzsym.Assert(k == n, "the message of a command is not handled exactly once")
	w.stop()
}

// ---------------------------------------------------------------- C42

// A way for the app to end.
const (
	quit = iota
	cancelled
	inputError
	drawError
	panicInit
	panicUpdate
	panicRender
	panicFirstRender
	panicCommand
	panicSequence
	panicBatch
	nCauses
)

// end makes the app end in the given way once it handles its size, and tells
// whether err reports it.
func (w *world) end(cause int) (reported func(err error) bool) {
	reported = func(err error) bool { return errors.Is(err, ErrKilled) && strings.Contains(err.Error(), "boom") }
	boom := func() Msg { panic("boom") }
	var cmd Cmd
	w.update = func(msg Msg) Cmd {
		if _, ok := msg.(WindowSizeMsg); !ok {
			return nil
		}
		switch cause {
		case panicUpdate:
			panic("boom")
		case panicRender:
			w.state.render = func() { panic("boom") }
		case drawError:
			w.out.failAt = w.out.writes
		}
		return cmd
	}
	switch cause {
	case quit:
		cmd = Quit
		reported = func(err error) bool { return err == nil }
	case cancelled:
		cmd = func() Msg { w.cancel(); return nil }
		reported = func(err error) bool { return errors.Is(err, ErrKilled) }
	case inputError:
		w.in.end = errInput
		close(w.in.chunks)
		reported = func(err error) bool { return errors.Is(err, errInput) }
	case drawError:
		reported = func(err error) bool { return errors.Is(err, errOutput) }
	case panicInit:
		w.init = func() Cmd { panic("boom") }
	case panicFirstRender:
		w.state.render = func() { panic("boom") }
	case panicCommand:
		cmd = boom
	case panicSequence:
		cmd = Sequence(say(0), boom)
	case panicBatch:
		cmd = Batch(say(0), Sequence(Batch(boom, say(1)), say(2)))
	}
	return reported
}

// Whatever ends the app, the terminal is as before.
func C42_Causes() {
	w := setup()
	w.tty.Raw = zzsym.Bool("raw")
	was := w.tty.Raw
	cause := zzsym.Choice("cause", nCauses)
	reported := w.end(cause)
	w.run()
	zzsym.Assert(w.tty.Raw == was, "the mode of the terminal is not what it was")
	w.tty.Raw = false
	w.restored()
	zzsym.Assert(reported(w.err), "the cause is not reported")
}

// A step that fails, at the start, at the end or in between, does not keep
// the others from being taken.
func C42_Faults() {
	n := zzsym.Bound("writes", 24, 40)
	w := setup()
	w.out.failAt = zzsym.Int("write", 0, n-1)
	w.out.always = zzsym.Bool("always")
	restore := zzsym.Bool("restore")
	w.tty.Fail = func(op string) error {
		if op == "restore" && restore {
			w.tty.Raw = false // tried
			return errTTY
		}
		return nil
	}
	if zzsym.Bool("panic") {
		w.end(panicCommand)
	} else {
		w.end(quit)
	}
	w.run()
	w.restored()
	zzsym.Assert(!w.out.failed && !restore || w.err != nil, "a failure is not reported")
	if !w.out.failed {
		zzsym.Cover("no write fails")
	}
}

// The terminal can refuse to tell its size or to change its mode.
func C42_Refused() {
	w := setup()
	op := []string{"raw", "size"}[zzsym.Choice("op", 2)]
	w.tty.Fail = func(o string) error {
		if o == op {
			return errTTY
		}
		return nil
	}
	w.run()
	zzsym.Assert(errors.Is(w.err, errTTY), "the failure is not reported")
	w.restored()
	zzsym.Assert(w.updates == 0, "the app runs without its terminal")
}

// The terminal is restored no matter what the app is busy with.
func C42_Busy() {
	w := setup()
	w.end([]int{quit, cancelled, inputError, drawError, panicUpdate, panicCommand}[zzsym.Choice("cause", 6)])
	w.hold(1 + zzsym.Choice("busy", zzsym.Bound("busy", 2, 4)))
	if zzsym.Bool("cancel") {
		go w.cancel()
	}
	w.run()
	w.restored()
}

// ---------------------------------------------------------------- C43

// hold keeps the app busy: commands that do not return and messages that
// wait to be handled.
func (w *world) hold(kind int) {
	var init Cmd
	switch kind {
	case 0:
	case 1:
		init = forever
	case 2:
		init = Batch(say(0), say(1), forever)
	case 3:
		init = Sequence(say(0), Batch(say(1), forever), say(2))
	case 4: // answers each message with another, four times
		init = say(0)
		f := w.update
		w.update = func(msg Msg) Cmd {
			if f != nil {
				if cmd := f(msg); cmd != nil {
					return cmd
				}
			}
			if l, ok := msg.(leafMsg); ok && l < 4 {
				return say(int(l) + 1)
			}
			return nil
		}
	}
	if w.init == nil {
		w.init = func() Cmd { return init }
	}
}

// The app returns for every cause, whatever else is going on; that the
// schedule in which it does not would be found is up to the engine.
func C43_Returns() {
	w := setup()
	cause := zzsym.Choice("cause", nCauses)
	reported := w.end(cause)
	w.hold(zzsym.Choice("busy", zzsym.Bound("busy", 4, 5)))
	if zzsym.Bool("key") && cause != inputError {
		go func() { w.in.chunks <- []byte("k") }()
	}
	w.run()
	zzsym.Assert(reported(w.err), "the cause is not reported")
	if cause == panicUpdate && w.updates > 0 {
		// the message that was not handled has no result
		zzsym.Assert(version(w.model) == w.updates-1, "the final model is not returned")
	} else {
		w.returned()
	}
}

// It also returns when it is told to before or while it starts, and when it
// is told in several ways at a time.
func C43_AnyTime() {
	w := setup()
	w.hold(zzsym.Choice("busy", zzsym.Bound("busy", 3, 5)))
	both := zzsym.Choice("and", 4)
	ok := func(err error) bool { return errors.Is(err, ErrKilled) }
	switch both {
	case 1:
		w.init = func() Cmd { return Quit }
		ok = func(err error) bool { return err == nil || errors.Is(err, ErrKilled) }
	case 2:
		w.in.end = errInput
		close(w.in.chunks)
		ok = func(err error) bool { return errors.Is(err, errInput) || errors.Is(err, ErrKilled) }
	case 3:
		w.init = func() Cmd { return Batch(Quit, func() Msg { panic("boom") }) }
		ok = func(err error) bool { return err == nil || errors.Is(err, ErrKilled) }
	}
	go w.cancel()
	w.run()
	zzsym.Assert(ok(w.err), "the cause is not reported")
	w.returned()
}

// Nothing is left behind that waits for the app, save for commands that do
// not return and the read of the input.
func C43_NothingLeft() {
	w := setup()
	cause := zzsym.Choice("cause", nCauses)
	w.end(cause)
	busy := zzsym.Choice("busy", 2)
	if busy == 1 {
		w.hold(2)
	}
	go w.run()
	<-w.done
	if cause != inputError {
		close(w.in.chunks)
	}
	zzsym.WaitIdle()
	if zzsym.Symbolic() {
		left := 0
		if busy == 1 && cause != panicInit {
			left = 1
		}
		zzsym.Assert(zzsym.Quiesced() <= left, "a goroutine of the app is left behind")
	}
}

// A terminal that stops telling its size does not keep the app from ending,
// nor anything of it from going away.
func C43_Size() {
	w := setup()
	cause := []int{quit, cancelled, panicUpdate, panicCommand}[zzsym.Choice("cause", 4)]
	sizes, failAt := 0, 1+zzsym.Choice("fails at", 2)
	failed := false
	w.tty.Fail = func(op string) error {
		if op == "size" {
			sizes++
			if sizes > failAt {
				failed = true
				return errTTY
			}
		}
		return nil
	}
	reported := w.end(cause)
	go w.run()
	for i := zzsym.Bound("signals", 2, 3); i > 0; i-- {
		zzsym.Winch()
	}
	<-w.done
	close(w.in.chunks)
	zzsym.Assert(reported(w.err) || failed && errors.Is(w.err, errTTY), "the cause is not reported")
	w.restored()
	zzsym.WaitIdle()
	if zzsym.Symbolic() {
		zzsym.Assert(zzsym.Quiesced() == 0, "a goroutine of the app is left behind")
	}
}

// A key that the model takes for a reason to quit ends the app, no other
// does.
func C43_OnKey() {
	n := zzsym.Bound("keys", 2, 4)
	w := setup()
	last := letter("quit")
	w.update = func(msg Msg) Cmd {
		if k, ok := msg.(KeyMsg); ok {
			for _, r := range k.Runes {
				if r == rune(last) {
					return Quit
				}
			}
		}
		return nil
	}
	var typed []byte
	for i := 0; i < n; i++ {
		typed = append(typed, letter("key"))
	}
	go w.run()
	go func() {
		for _, b := range typed {
			w.in.chunks <- []byte{b}
		}
	}()
	zzsym.WaitIdle()
	quits := false
	for _, b := range typed {
		quits = quits || b == last
	}
	if quits {
		<-w.done
		w.returned()
		zzsym.Assert(w.err == nil, "quitting is reported as an error")
		return
	}
	select {
	case <-w.done:
		zzsym.Fail("the app ends without a reason")
	default:
	}
	zzsym.Assert(len(w.keys()) == n, "a key is not handled")
	w.stop()
}
