// Package term stands in for github.com/charmbracelet/x/term: the terminals it
// knows exist in memory only, so that their mode can be observed and their
// operations can fail.
package term

import (
	"errors"
	"io"
	"sync"
)

type File interface {
	io.ReadWriteCloser

	Fd() uintptr
}

type State struct{ Raw bool }

// TTY is a terminal device.
type TTY struct {
	Raw           bool
	Width, Height int
	Fail          func(op string) error

	mu sync.Mutex
}

// Resize changes the size while others may look at it.
func (t *TTY) Resize(width, height int) {
	t.mu.Lock()
	t.Width, t.Height = width, height
	t.mu.Unlock()
}

// TTYs lists the devices by their descriptor.
var TTYs = map[uintptr]*TTY{}

var errNotTTY = errors.New("inappropriate ioctl for device")

func (t *TTY) fail(op string) error {
	if t.Fail != nil {
		return t.Fail(op)
	}
	return nil
}

func IsTerminal(fd uintptr) bool { return TTYs[fd] != nil }

func MakeRaw(fd uintptr) (*State, error) {
	t := TTYs[fd]
	if t == nil {
		return nil, errNotTTY
	}
	if err := t.fail("raw"); err != nil {
		return nil, err
	}
	old := &State{t.Raw}
	t.Raw = true
	return old, nil
}

func GetState(fd uintptr) (*State, error) {
	t := TTYs[fd]
	if t == nil {
		return nil, errNotTTY
	}
	return &State{t.Raw}, nil
}

func SetState(fd uintptr, state *State) error {
	t := TTYs[fd]
	if t == nil {
		return errNotTTY
	}
	t.Raw = state.Raw
	return nil
}

func Restore(fd uintptr, state *State) error {
	t := TTYs[fd]
	if t == nil {
		return errNotTTY
	}
	if err := t.fail("restore"); err != nil {
		return err
	}
	t.Raw = state.Raw
	return nil
}

func GetSize(fd uintptr) (width, height int, err error) {
	t := TTYs[fd]
	if t == nil {
		return 0, 0, errNotTTY
	}
	if err := t.fail("size"); err != nil {
		return 0, 0, err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.Width, t.Height, nil
}

func ReadPassword(fd uintptr) ([]byte, error) { return nil, errNotTTY }
