package blob

import (
	"context"
	"errors"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/cenkalti/backoff"
)

var (
	errTransient = errors.New("transient")
	errCustom    = errors.New("declared permanent")
	errOther     = errors.New("another error declared permanent")
)

// script answers the n'th call with the n'th result and leaves partial data
// next to errors.
type script struct {
	res    []int
	calls  int
	cancel context.CancelFunc
	cancAt int // the caller's context ends during this call
	sets   []string
	vals   [][]byte
	data   byte
	plain  bool // attempts have no time limit of their own
	ended  bool // the caller's context has ended
}

const (
	rOK = iota
	rTransient
	rNotFound
	rTooBig
	rCanceled
	rCustom
	rOther
	rSlow // takes as long as an attempt may
	nRes
)

func resErr(r int) error {
	switch r {
	case rOK:
		return nil
	case rTransient:
		return errTransient
	case rNotFound:
		return blobstore.ErrBlobNotFound
	case rTooBig:
		return blobstore.ErrBlobTooBig
	case rCanceled:
		return context.Canceled
	case rCustom:
		return errCustom
	case rSlow:
		return context.DeadlineExceeded
	}
	return errOther
}

func (s *script) next(c context.Context, set, key string, val []byte) error {
	k := s.calls
	s.calls++
	_, limited := c.Deadline()
	vv.Assert(limited == !s.plain, "C22: the time limit of an attempt is not the configured one")
	vv.Assert(s.ended || c.Err() == nil, "C22: an attempt has no time left")
	s.sets = append(s.sets, set+"|"+key)
	s.vals = append(s.vals, val)
	if k == s.cancAt {
		s.cancel()
		s.ended = true
	}
	if k < len(s.res) && s.res[k] == rSlow && limited {
		<-c.Done()
	}
	if k < len(s.res) {
		return resErr(s.res[k])
	}
	return errTransient
}

func (s *script) Get(c context.Context, set, key string) ([]byte, error) {
	k := s.calls
	err := s.next(c, set, key, nil)
	return []byte{s.data, byte(k)}, err
}
func (s *script) Set(c context.Context, set, key string, val []byte) error {
	return s.next(c, set, key, val)
}
func (s *script) Delete(c context.Context, set, key string) error { return s.next(c, set, key, nil) }

// steps allows n retries.
type steps struct{ n, left int }

func (b *steps) Reset() { b.left = b.n }
func (b *steps) NextBackOff() time.Duration {
	if b.left == 0 {
		return backoff.Stop
	}
	b.left--
	return time.Microsecond
}

func forbidden() backoff.BackOff {
	vv.Fail("C22: the back-off of another operation was used")
	return nil
}

// Every sequence of up to 3 results (success, transient, too slow, each permanent error,
// two custom permanent errors), 0-2 retries, the caller's context ending during
// any attempt or never, with and without custom permanent errors declared (in
// one or two options), any of the three operations, attempt time-out on or off.
func VH_C22_retry() {
	c, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &script{cancel: cancel, cancAt: vv.Int("cancelAt", 0, 3), data: vv.U8("data")}
	retries := vv.Int("retries", 0, 2)
	op := vv.Choose("op", 3)
	declared := vv.Choose("declared", 4)
	var opts []blobstore.RetryStoreOption
	bo := func() backoff.BackOff { return &steps{n: retries} }
	fs := [3]func() backoff.BackOff{forbidden, forbidden, forbidden}
	fs[op] = bo
	opts = append(opts, blobstore.WithRetryOpt.Backoff(fs[0], fs[1], fs[2]))
	switch declared {
	case 1:
		opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errCustom, nil))
	case 2:
		opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errCustom, errOther))
	case 3:
		opts = append(opts, blobstore.WithRetryOpt.PermanentErr(errOther), blobstore.WithRetryOpt.PermanentErr(errCustom), blobstore.WithRetryOpt.PermanentErr())
	}
	if vv.Choose("timeout", 2) == 1 {
		opts = append(opts, blobstore.WithRetryOpt.OpTimeout(0))
		s.plain = true
	} else {
		opts = append(opts, blobstore.WithRetryOpt.OpTimeout(100*time.Millisecond))
	}
	r, err := blobstore.NewRetryStore(s, opts...)
	vv.Assert(err == nil, "C22: creating the store failed")
	perm := func(r int) bool {
		switch r {
		case rNotFound, rTooBig, rCanceled:
			return true
		case rCustom:
			return declared > 0
		case rOther:
			return declared > 1
		}
		return false
	}
	// draw results lazily: only as many as can matter
	want, n := error(nil), 0
	for {
		k := rTransient
		if n < 3 {
			k = vv.Int("res", 0, nRes-1)
		}
		s.res = append(s.res, k)
		n++
		want = resErr(k)
		if k == rOK || perm(k) || n-1 == s.cancAt || n > retries {
			break
		}
	}
	var got []byte
	val := []byte{s.data}
	switch op {
	case 0:
		got, err = r.Get(c, "set", "key")
	case 1:
		err = r.Set(c, "set", "key", val)
	case 2:
		err = r.Delete(c, "set", "key")
	}
	vv.Assert(err == want, "C22: the result is not that of the deciding attempt")
	vv.Assert(s.calls == n, "C22: stopped too early or retried where it must not")
	if op == 0 {
		if want == nil {
			vv.Assert(len(got) == 2, "C22: data of the successful attempt lost")
			vv.Assert(vv.And(got[0] == s.data, got[1] == byte(n-1)), "C22: data of another attempt returned")
		} else {
			vv.Assert(len(got) == 0, "C22: data of a failed attempt returned")
		}
	}
	for i := range s.sets {
		vv.Assert(s.sets[i] == "set|key", "C22: an attempt used other arguments")
		if op == 1 {
			vv.Assert(len(s.vals[i]) == 1 && s.vals[i][0] == s.data, "C22: an attempt wrote other data")
		}
	}
	vv.Cover("decided")
	if n > 1 && want == nil {
		vv.Cover("recovered")
	}
	if n-1 == s.cancAt && want == errTransient {
		vv.Cover("context ended")
	}
}

// Configuring one store (permanent errors, back-offs, time-out) leaves a store
// configured before or after it alone.
func VH_C22_isolation() {
	bo := func() backoff.BackOff { return &steps{n: 1} }
	mk := func(s *script, o ...blobstore.RetryStoreOption) *blobstore.RetryStore {
		o = append([]blobstore.RetryStoreOption{blobstore.WithRetryOpt.Backoff(bo, bo, bo)}, o...)
		r, err := blobstore.NewRetryStore(s, o...)
		vv.Assert(err == nil, "C22: creating the store failed")
		return r
	}
	first := vv.Choose("plainFirst", 2) == 1
	k := vv.Int("res", 0, nRes-1)
	s1 := &script{cancAt: -1, res: []int{k, rOK}}
	s2 := &script{cancAt: -1, res: []int{rCustom, rOK}}
	var plain, cust *blobstore.RetryStore
	if first {
		plain = mk(s1)
	}
	cust = mk(s2, blobstore.WithRetryOpt.PermanentErr(errCustom))
	if !first {
		plain = mk(s1)
	}
	_, err := cust.Get(ctx, "s", "k")
	vv.Assert(err == errCustom && s2.calls == 1, "C22: a declared permanent error was retried")
	_, err = plain.Get(ctx, "s", "k")
	if k == rTransient || k == rCustom || k == rOther || k == rSlow {
		vv.Assert(err == nil && s1.calls == 2, "C22: configuring one store changed another")
		vv.Cover("retried")
	} else {
		vv.Assert(err == resErr(k) && s1.calls == 1, "C22: wrong result of a store with default permanent errors")
		vv.Cover("kept")
	}
}
