// Package blob holds the harnesses for the blob store wrappers.
package blob

import (
	"context"
	"errors"
	"sync"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
)

var ctx = context.Background()

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

var errInjected = errors.New("injected failure")

type blob struct {
	set, key string
	val      []byte
}

// store is a plain map with one optional failing call.
type store struct {
	mu     sync.Mutex
	b      []blob
	failAt int // index of the failing call, -1 none
	calls  int
	failed string // operation that was made to fail
	fkey   string
	max    int // largest value written
	yield  bool
}

func newStore() *store { return &store{failAt: -1} }

func (s *store) fails(op, key string) error {
	k := s.calls
	s.calls++
	if k == s.failAt {
		s.failed, s.fkey = op, key
		return errInjected
	}
	return nil
}

func (s *store) find(set, key string) int {
	for i := range s.b {
		if s.b[i].set == set && s.b[i].key == key {
			return i
		}
	}
	return -1
}

func (s *store) Get(_ context.Context, set, key string) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fails("Get", key); err != nil {
		return nil, err
	}
	i := s.find(set, key)
	if i < 0 {
		return nil, blobstore.ErrBlobNotFound
	}
	return append(make([]byte, 0, len(s.b[i].val)), s.b[i].val...), nil
}

func (s *store) Set(_ context.Context, set, key string, val []byte) error {
	if s.yield {
		vv.Yield()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fails("Set", key); err != nil {
		return err
	}
	if len(val) > s.max {
		s.max = len(val)
	}
	v := append(make([]byte, 0, len(val)), val...)
	if i := s.find(set, key); i >= 0 {
		s.b[i].val = v
		return nil
	}
	s.b = append(s.b, blob{set, key, v})
	return nil
}

func (s *store) Delete(_ context.Context, set, key string) error {
	if s.yield {
		vv.Yield()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fails("Delete", key); err != nil {
		return err
	}
	if i := s.find(set, key); i >= 0 {
		s.b = append(s.b[:i:i], s.b[i+1:]...)
	}
	return nil
}

// same compares without forking.
func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, a[i] == b[i])
	}
	return r
}
