package bento

import (
	"context"
	"io"
)

// VerifReadInputs is the entry of the input reader.
func VerifReadInputs(ctx context.Context, msgs chan<- Msg, r io.Reader) error {
	return readInputs(ctx, msgs, r)
}

// VerifUnknown returns the bytes of a message for input that is not understood.
func VerifUnknown(m Msg) ([]byte, bool) {
	switch m := m.(type) {
	case unknownInputByteMsg:
		return []byte{byte(m)}, true
	case unknownCSISequenceMsg:
		return []byte(m), true
	}
	return nil, false
}
