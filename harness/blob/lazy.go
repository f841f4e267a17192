package blob

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/vv"
)

// slow is a store whose writes take a short or a long time, as chosen by the solver.
type slow struct {
	*store
	mu     sync.Mutex
	writes int
	timed  bool
}

func (s *slow) wait() {
	s.mu.Lock()
	k := s.writes
	s.writes++
	s.mu.Unlock()
	if s.timed && k < sz(3, 4) && vv.Choose(fmt.Sprint("slow", k), 2) == 1 {
		time.Sleep(60 * time.Millisecond)
	}
}

func (s *slow) Set(c context.Context, set, key string, b []byte) error {
	b2 := append([]byte{}, b...)
	s.wait()
	vv.Assert(same(b, b2), "C20: a buffer changes while it is being saved")
	return s.store.Set(c, set, key, b)
}

func (s *slow) Delete(c context.Context, set, key string) error {
	s.wait()
	return s.store.Delete(c, set, key)
}

func lazy(st blobstore.Store, limit, flush, savers int, after time.Duration) *blobstore.LazySaver {
	l, err := blobstore.NewLazySaver(st,
		blobstore.WithLazySaveOption.Items(limit, flush),
		blobstore.WithLazySaveOption.Savers(savers),
		blobstore.WithLazySaveOption.MaxTime(after),
		blobstore.WithLazySaveOption.SaveTimeout(time.Hour),
		blobstore.WithLazySaveOption.Logger(quiet{}))
	vv.Assert(err == nil && l != nil, "creating a lazy saver failed")
	return l
}

type quiet struct{}

func (quiet) Info(string, ...interface{})    {}
func (quiet) Error(string, ...interface{})   {}
func (quiet) New(...interface{}) log.Adapter { return quiet{} }

type entry struct {
	set, key string
	val      []byte // nil if deleted or absent
}

// reads checks what is read through s.
func reads(s blobstore.Store, e *entry, what string) []byte {
	b, err := s.Get(ctx, e.set, e.key)
	if e.val == nil {
		vv.Assert(err == blobstore.ErrBlobNotFound, what+" finds a blob that was deleted or never written")
		return nil
	}
	vv.Assert(err == nil, what+" does not find a blob that was written")
	vv.Assert(same(b, e.val), what+" gives another value than the last one written")
	return b
}

// Any sequence of up to 4 operations on two keys, with pauses, over a store whose writes are fast or slow, with
// one or two savers and early or late flushing; then shutdown.
func VH_C20_history() {
	st := &slow{store: newStore(), timed: true}
	ents := []*entry{{set: "s", key: "k0"}, {set: "s", key: "k1"}}
	if vv.Choose("before", 2) == 1 {
		ents[0].val = []byte{9}
		vv.Assert(st.store.Set(ctx, "s", "k0", []byte{9}) == nil, "set failed")
	}
	limit, flush := 3, 1
	if vv.Choose("late", 2) == 1 {
		limit, flush = 5, 4
	}
	l := lazy(st, limit, flush, 1+vv.Choose("savers", 2), 10*time.Millisecond)
	n := sz(4, 5)
	for i := 0; i < n; i++ {
		e := ents[0]
		switch vv.Choose(fmt.Sprint("op", i), 6) {
		case 0:
			e.val = vv.Bytes(fmt.Sprint("val", i), 1)
			vv.Assert(l.Set(ctx, e.set, e.key, e.val) == nil, "C20: a write fails")
		case 1:
			vv.Assert(l.Delete(ctx, e.set, e.key) == nil, "C20: a delete fails")
			e.val = nil
		case 2:
			e = ents[1]
			e.val = vv.Bytes(fmt.Sprint("val", i), 1)
			vv.Assert(l.Set(ctx, e.set, e.key, e.val) == nil, "C20: a write fails")
		case 3:
			reads(l, e, "C20: a read")
			reads(l, ents[1], "C20: a read")
		case 4:
			time.Sleep(30 * time.Millisecond) // the queue is being flushed
		case 5:
			time.Sleep(150 * time.Millisecond) // the queue is flushed
		}
	}
	if vv.Choose("last", 2) == 1 {
		for _, e := range ents {
			reads(l, e, "C20: a read")
		}
	}
	l.Shutdown()
	for _, e := range ents {
		reads(st.store, e, "C20: after shutdown, a read of the backing store")
	}
	vv.Assert(l.Set(ctx, "s", "k0", []byte{1}) == blobstore.ErrShuttingDown, "C20: a write after shutdown is accepted")
	vv.Cover("done")
}

// Two distinct arbitrary (set, key) pairs: sets and keys of 1-2 arbitrary bytes.
func VH_C20_keys() {
	st := newStore()
	a := &entry{set: vv.Str("aset", vv.Choose("asetlen", 3)), key: vv.Str("akey", vv.Choose("akeylen", 3))}
	b := &entry{set: vv.Str("bset", vv.Choose("bsetlen", 3)), key: vv.Str("bkey", vv.Choose("bkeylen", 3))}
	vv.Assume(vv.Not(vv.And(a.set == b.set, a.key == b.key)))
	l := lazy(st, 5, 4, 1, time.Hour)
	a.val = []byte{1}
	vv.Assert(l.Set(ctx, a.set, a.key, a.val) == nil, "C20: a write fails")
	switch vv.Choose("then", 3) {
	case 0:
		vv.Assert(l.Delete(ctx, b.set, b.key) == nil, "C20: a delete fails")
	case 1:
		b.val = []byte{2, 3}
		vv.Assert(l.Set(ctx, b.set, b.key, b.val) == nil, "C20: a write fails")
	}
	reads(l, a, "C20: a read")
	reads(l, b, "C20: a read")
	l.Shutdown()
	reads(st, a, "C20: after shutdown, a read of the backing store")
	reads(st, b, "C20: after shutdown, a read of the backing store")
	vv.Cover("done")
}

// Buffers belong to the caller: changing a buffer after it was written or read changes nothing else, and what was
// read stays as it is whatever happens to the key afterwards.
func VH_C20_buffers() {
	st := newStore()
	l := lazy(st, 5, 4, 1, 10*time.Millisecond)
	e := &entry{set: "s", key: "k0"}
	f := &entry{set: "s", key: "k1"}
	buf := vv.Bytes("v", vv.Choose("len", 3))
	e.val = append([]byte{}, buf...)
	vv.Assert(l.Set(ctx, e.set, e.key, buf) == nil, "C20: a write fails")
	for i := range buf {
		buf[i] = vv.U8("scribble")
	}
	got := reads(l, e, "C20: a read")
	keep := append([]byte{}, got...)
	if vv.Choose("mine", 2) == 1 {
		for i := range got {
			got[i] = vv.U8("scribble")
			keep[i] = got[i]
		}
	}
	reads(l, e, "C20: a read")
	for i := 0; i < 2; i++ {
		switch vv.Choose(fmt.Sprint("op", i), 4) {
		case 0:
			e.val = vv.Bytes("w", vv.Choose("wlen", 3))
			vv.Assert(l.Set(ctx, e.set, e.key, e.val) == nil, "C20: a write fails")
		case 1:
			e.val = nil
			vv.Assert(l.Delete(ctx, e.set, e.key) == nil, "C20: a delete fails")
		case 2:
			time.Sleep(100 * time.Millisecond)
		case 3:
			f.val = vv.Bytes("w", vv.Choose("wlen", 3))
			vv.Assert(l.Set(ctx, f.set, f.key, f.val) == nil, "C20: a write fails")
		}
		vv.Assert(same(got, keep), "C20: a buffer that was read changes later")
		reads(l, e, "C20: a read")
		reads(l, f, "C20: a read")
	}
	l.Shutdown()
	vv.Assert(same(got, keep), "C20: a buffer that was read changes later")
	reads(st, e, "C20: after shutdown, a read of the backing store")
	reads(st, f, "C20: after shutdown, a read of the backing store")
	vv.Cover("done")
}

// Two goroutines operate on the same or on different keys under every schedule with a bounded number of preemptions.
func VH_C20_concurrent() {
	runs := 1
	if !vv.Symbolic() {
		runs = 300
	}
	samekey := vv.Choose("samekey", 2) == 1
	dela := vv.Choose("dela", 2) == 1
	readb := vv.Choose("readb", 2) == 1
	flush := vv.Choose("flush", 2)
	vv.Schedules(sz(2, 3))
	for k := 0; k < runs; k++ {
		st := newStore()
		st.yield = true
		l := lazy(st, 2, 1+flush, 2, time.Millisecond)
		a, b := &entry{set: "s", key: "k0"}, &entry{set: "s", key: "k1"}
		if samekey {
			b.key = "k0"
		}
		va, vb := []byte{1, 1}, []byte{2}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			if readb {
				v, err := l.Get(ctx, b.set, b.key)
				ok := err == blobstore.ErrBlobNotFound || samekey && err == nil && same(v, va)
				vv.Assert(ok, "C20: a concurrent read gives a value that was never there")
			}
			vv.Assert(l.Set(ctx, b.set, b.key, vb) == nil, "C20: a write fails")
		}()
		vv.Assert(l.Set(ctx, a.set, a.key, va) == nil, "C20: a write fails")
		if dela {
			vv.Assert(l.Delete(ctx, a.set, a.key) == nil, "C20: a delete fails")
		}
		wg.Wait()
		vv.SchedOff(1)
		if dela {
			va = nil
		}
		get := func(s blobstore.Store, e *entry) []byte {
			v, err := s.Get(ctx, e.set, e.key)
			vv.Assert(err == nil || err == blobstore.ErrBlobNotFound, "C20: a read fails")
			if err != nil {
				return nil
			}
			return v
		}
		eqv := func(x, y []byte) bool { return (x == nil) == (y == nil) && same(x, y) }
		x, y := get(l, a), get(l, b)
		if samekey {
			vv.Assert(eqv(x, va) || eqv(x, vb), "C20: after concurrent writes the value is not the one of either writer")
		} else {
			vv.Assert(eqv(x, va) && eqv(y, vb), "C20: a write to another key is lost or mixed up")
		}
		l.Shutdown()
		vv.Assert(eqv(get(st, a), x) && eqv(get(st, b), y), "C20: after shutdown the backing store does not hold the last value")
	}
	vv.Cover("done")
}
