// Package flate stands in for github.com/klauspost/compress/flate where only
// data that is not flate data is presented: everything is refused.
package flate

import "io"

type CorruptInputError int64

func (e CorruptInputError) Error() string { return "flate: corrupt input" }

type reader struct {
	r   io.Reader
	err error
}

func NewReader(r io.Reader) io.ReadCloser { return &reader{r: r} }

func (r *reader) Read(p []byte) (int, error) {
	if r.err == nil {
		r.err = CorruptInputError(0)
	}
	return 0, r.err
}

func (r *reader) Close() error { return nil }
