package backend

import (
	"errors"
	"io"
	"strings"

	"github.com/charmbracelet/x/term"
	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// device is a file, of a terminal if there is one of its number.
type device struct {
	io.Reader
	fd uintptr
}

func (d device) Write(p []byte) (int, error) { return len(p), nil }
func (d device) Close() error                { return nil }
func (d device) Fd() uintptr                 { return d.fd }

// C46_Raw: once raw mode is left, the terminal is in the mode it had before
// it was entered, however often it was.
func C46_Raw() {
	tty := &term.TTY{Raw: zzsym.Bool("raw")}
	term.TTYs = map[uintptr]*term.TTY{5: tty}
	fail := false
	tty.Fail = func(string) error {
		if fail {
			return errors.New("refused")
		}
		return nil
	}
	d := NewDefaultBackend(device{strings.NewReader(""), 5}, io.Discard)
	before, entered := tty.Raw, false
	for i := zzsym.Bound("requests", 4, 6); i > 0; i-- {
		fail = zzsym.Choice("refuse", 2) == 1
		now := tty.Raw
		switch zzsym.Choice("request", 3) {
		case 0:
			err := d.EnableRawMode()
			zzsym.Assert((err != nil) == fail, "the outcome of entering raw mode is not reported")
			if fail {
				zzsym.Assert(tty.Raw == now, "a refused request changes the mode")
				continue
			}
			if !entered {
				before, entered = now, true
			}
			zzsym.Assert(tty.Raw, "raw mode is not entered")
		case 1:
			err := d.DisableRawMode()
			if !entered {
				zzsym.Assert(err == nil || fail, "leaving raw mode that was not entered fails")
				zzsym.Assert(tty.Raw == now, "leaving raw mode that was not entered changes the mode")
				continue
			}
			zzsym.Assert((err != nil) == fail, "the outcome of leaving raw mode is not reported")
			if fail {
				zzsym.Assert(tty.Raw == now, "a refused request changes the mode")
				continue
			}
			zzsym.Assert(tty.Raw == before, "the mode from before raw mode is not restored")
			entered = false
			zzsym.Cover("restored")
		case 2:
			// somebody else changes the mode
			if !entered {
				tty.Raw = zzsym.Bool("other")
			}
		}
	}
}

// C46_Size: the size is the device's.
func C46_Size() {
	tty := &term.TTY{Width: zzsym.Int("width", 0, 1<<20), Height: zzsym.Int("height", 0, 1<<20)}
	term.TTYs = map[uintptr]*term.TTY{5: tty}
	fail := zzsym.Choice("refuse", 2) == 1
	tty.Fail = func(string) error {
		if fail {
			return errors.New("refused")
		}
		return nil
	}
	switch zzsym.Choice("output", 3) {
	case 0:
		d := NewDefaultBackend(strings.NewReader(""), device{nil, 5})
		size, ok, err := d.GetSize()
		zzsym.Assert((err != nil) == fail, "the outcome of asking for the size is not reported")
		if !fail {
			zzsym.Assert(ok && size.Width == tty.Width && size.Height == tty.Height, "the size is not the terminal's")
		}
	case 1:
		d := NewDefaultBackend(device{nil, 5}, io.Discard)
		_, ok, err := d.GetSize()
		zzsym.Assert(!ok && err == nil, "an output that is no file has a size")
	case 2:
		d := NewDefaultBackend(device{nil, 5}, device{nil, 6})
		_, ok, err := d.GetSize()
		zzsym.Assert(!ok, "an output that is no terminal has a size")
		_ = err
	}
	zzsym.Cover("asked")
}
