// Package zstd models the frame structure of github.com/klauspost/compress/zstd
// without compression: magic, chunks of [length, data...], a zero length. What
// the checks rely on is kept: nothing reaches the destination before a block is
// full or the encoder is closed, write errors are reported by Write or Close
// and are sticky, a stream cut anywhere is an unexpected end of file, anything
// that does not start with a frame is refused, no input is a clean end of file.
package zstd

import (
	"errors"
	"io"
)

var (
	ErrMagicMismatch      = errors.New("invalid input: magic number mismatch")
	ErrDecoderClosed      = errors.New("decoder used after Close")
	ErrEncoderClosed      = errors.New("encoder used after Close")
	ErrReservedBlock      = errors.New("invalid input: reserved block type encountered")
	magic            byte = 0x28
)

type (
	EOption func(*Encoder) error
	DOption func(*Decoder) error
)

type Encoder struct {
	w       io.Writer
	buf     []byte
	err     error
	started bool
	closed  bool
}

const blockSize = 100

func NewWriter(w io.Writer, opts ...EOption) (*Encoder, error) {
	return &Encoder{w: w}, nil
}

func (e *Encoder) Reset(w io.Writer) { *e = Encoder{w: w} }

func (e *Encoder) emit(b []byte) {
	if e.err != nil {
		return
	}
	n, err := e.w.Write(b)
	if err == nil && n != len(b) {
		err = io.ErrShortWrite
	}
	e.err = err
}

func (e *Encoder) block(n int) {
	var b []byte
	if !e.started {
		e.started = true
		b = append(b, magic)
	}
	if n > 0 {
		b = append(b, byte(n))
		b = append(b, e.buf[:n]...)
	}
	e.buf = e.buf[n:]
	e.emit(b)
}

func (e *Encoder) Write(p []byte) (int, error) {
	if e.closed {
		return 0, ErrEncoderClosed
	}
	if e.err != nil {
		return 0, e.err
	}
	e.buf = append(e.buf, p...)
	for len(e.buf) > blockSize {
		e.block(blockSize)
	}
	if e.err != nil {
		return 0, e.err
	}
	return len(p), nil
}

func (e *Encoder) Flush() error {
	if len(e.buf) > 0 {
		e.block(len(e.buf))
	}
	return e.err
}

func (e *Encoder) Close() error {
	if e.closed {
		return e.err
	}
	e.closed = true
	if len(e.buf) > 0 {
		e.block(len(e.buf))
	}
	if !e.started {
		return e.err
	}
	e.emit([]byte{0})
	return e.err
}

type Decoder struct {
	r      io.Reader
	buf    []byte
	in     bool
	err    error
	closed bool
}

func NewReader(r io.Reader, opts ...DOption) (*Decoder, error) {
	return &Decoder{r: r}, nil
}

func (d *Decoder) Reset(r io.Reader) error { *d = Decoder{r: r}; return nil }

func (d *Decoder) fill() {
	var one [1]byte
	if !d.in {
		_, err := io.ReadFull(d.r, one[:])
		if err != nil {
			d.err = err // a clean end of file between frames
			return
		}
		if one[0] != magic {
			d.err = ErrMagicMismatch
			return
		}
		d.in = true
	}
	_, err := io.ReadFull(d.r, one[:])
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		d.err = err
		return
	}
	n := int(one[0])
	if n == 0 {
		d.in = false
		return
	}
	b := make([]byte, n)
	_, err = io.ReadFull(d.r, b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		d.err = err
		return
	}
	d.buf = b
}

func (d *Decoder) Read(p []byte) (int, error) {
	if d.closed {
		return 0, ErrDecoderClosed
	}
	for len(d.buf) == 0 {
		if d.err != nil {
			return 0, d.err
		}
		d.fill()
	}
	n := copy(p, d.buf)
	d.buf = d.buf[n:]
	return n, nil
}

func (d *Decoder) Close() { d.closed = true }

func (d *Decoder) IOReadCloser() io.ReadCloser { return rc{d} }

type rc struct{ *Decoder }

func (r rc) Close() error { r.Decoder.Close(); return nil }
