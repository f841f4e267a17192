// Package readahead stands in for github.com/klauspost/readahead: the same
// bytes and errors, read on demand.
package readahead

import "io"

type reader struct{ r io.Reader }

func NewReader(rd io.Reader) io.ReadCloser { return &reader{r: rd} }

func (r *reader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r *reader) Close() error               { return nil }
