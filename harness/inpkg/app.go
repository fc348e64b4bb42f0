package bento

import "io"

// VerifApp lets the app use other streams than those of the process.
func VerifApp(a App, input io.Reader, output io.Writer) App {
	a.input = _InputCustom{input}
	a.output = output

	// the channel is made here: which goroutine would be first to ask for it
	// makes no difference
	a.ctx.Done()

	return a
}
