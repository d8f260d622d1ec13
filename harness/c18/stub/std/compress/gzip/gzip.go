// Package gzip: an abstract model of a lossless compressor. Compressing yields a token of whatever
// length the harness picks; expanding exactly that token yields the original bytes; anything else is
// refused, or expands to whatever the harness says.
package gzip

import (
	"errors"
	"io"
)

var ErrHeader = errors.New("gzip: invalid header")

// TokenLen is how long the compressed form of n bytes is; Hostile expands foreign input.
var (
	TokenLen func(n int) int
	Hostile  func(b []byte) ([]byte, error)
	table    []entry
)

type entry struct{ tok, data []byte }

const MinLen = 20

type Writer struct {
	w   io.Writer
	buf []byte
}

func NewWriter(w io.Writer) *Writer { return &Writer{w: w} }

func (z *Writer) Write(p []byte) (int, error) {
	z.buf = append(z.buf, p...)
	return len(p), nil
}

func (z *Writer) Flush() error { return nil }

func (z *Writer) Close() error {
	n := TokenLen(len(z.buf))
	if n < MinLen {
		n = MinLen
	}
	tok := make([]byte, n)
	tok[0], tok[1], tok[2] = 0x1f, 0x8b, 8
	tok[3] = byte(len(table))
	table = append(table, entry{append([]byte{}, tok...), append([]byte{}, z.buf...)})
	_, err := z.w.Write(tok)
	return err
}

type Reader struct{ rest []byte }

func NewReader(r io.Reader) (*Reader, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) < 4 || b[0] != 0x1f || b[1] != 0x8b {
		return nil, ErrHeader
	}
	for _, e := range table {
		if string(e.tok) == string(b) {
			return &Reader{rest: append([]byte{}, e.data...)}, nil
		}
	}
	if Hostile == nil {
		return nil, ErrHeader
	}
	d, err := Hostile(b)
	if err != nil {
		return nil, err
	}
	return &Reader{rest: d}, nil
}

func (z *Reader) Read(p []byte) (int, error) {
	if len(z.rest) == 0 {
		return 0, io.EOF
	}
	n := copy(p, z.rest)
	z.rest = z.rest[n:]
	return n, nil
}

func (z *Reader) Close() error { return nil }
