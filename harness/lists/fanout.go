package lists

import (
	"context"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
)

// flaky is a store where each kind of access to each blob can fail, and where
// one access ends the context. It keeps track of accesses under way.
type flaky struct {
	*store
	p      pacer // for codes
	mask   int   // bit set: Get of the class with that index fails
	smask  int   // as mask, for Set
	cancel int   // code of the access that ends the context
	end    func()

	fmu    sync.Mutex
	failed int
	ended  bool
	inside int
	closed bool // no access is expected
	late   bool
}

func (f *flaky) enter(op, key string) error {
	code := f.p.code(op, key)
	f.fmu.Lock()
	defer f.fmu.Unlock()
	f.inside++
	if f.closed {
		f.late = true
	}
	if f.end != nil && !f.ended && f.cancel == code {
		f.ended = true
		f.end()
	}
	m := 0
	switch op {
	case "Get":
		m = f.mask
	case "Set":
		m = f.smask
	}
	if m>>uint(code%8)&1 == 1 {
		f.failed++
		return errInjected
	}
	return nil
}

func (f *flaky) leave() {
	f.fmu.Lock()
	f.inside--
	f.fmu.Unlock()
}

func (f *flaky) Get(c context.Context, set, key string) ([]byte, error) {
	defer f.leave()
	if err := f.enter("Get", key); err != nil {
		return nil, err
	}
	vv.Yield()
	return f.store.Get(c, set, key)
}

func (f *flaky) Set(c context.Context, set, key string, val []byte) error {
	defer f.leave()
	if err := f.enter("Set", key); err != nil {
		return err
	}
	return f.store.Set(c, set, key, val)
}

func (f *flaky) Delete(c context.Context, set, key string) error {
	defer f.leave()
	if err := f.enter("Delete", key); err != nil {
		return err
	}
	return f.store.Delete(c, set, key)
}

var _ blobstore.Store = (*flaky)(nil)

const nFan = 8

func fan(op int, c context.Context, l *rankdb.List, bs blobstore.Store, ids []rankdb.ElementID, els rankdb.Elements) error {
	switch op {
	case 0:
		_, err := l.GetElements(c, bs, ids, 0)
		return err
	case 1:
		_, err := l.UpdateElements(c, bs, els, 0, false)
		return err
	case 2:
		return l.DeleteElements(c, bs, ids)
	case 3:
		n := make(rankdb.Elements, len(els))
		copy(n, els)
		for i := range n {
			n[i].ID -= 5
		}
		return l.Insert(c, bs, n)
	case 4:
		return l.VerifyElements(c, bs)
	case 5:
		return l.Reindex(c, bs)
	case 6:
		_, err := l.GetElements(c, bs, ids, 1)
		return err
	}
	return l.ForceSplit(c, bs)
}

func fanout(op int, withCancel, setFaults bool, sched int) {
	plainShape = true
	st := newStore()
	w := build("a", st, lay([]int{1, 1, 1}, 1, 2), 2000, 500)
	ids := make([]rankdb.ElementID, 0, 3)
	els := make(rankdb.Elements, 0, 3)
	for i := range w.els {
		id := rankdb.ElementID(100 - 10*i)
		sc := uint64(100 - 10*i)
		vv.Assume(vv.And(w.els[i].ID == id, w.els[i].Score == sc, w.els[i].TieBreaker == 7, w.els[i].Updated == 1))
		w.els[i] = rankdb.Element{ID: id, Score: sc, TieBreaker: 7, Updated: 1, Payload: []byte{1}}
		ids = append(ids, id)
		els = append(els, w.els[i])
	}
	for i, b := range w.bound {
		vv.Assume(vv.And(b.Score == uint64(95-10*i), b.TieBreaker == 3))
	}
	vv.Assume(vv.Or(len(w.els) == 3))
	// faults in score segments and index segments only: the collections themselves load
	mask, smask, cancel := 0, 0, gateNone
	mask = vv.Int("mask", 0, 127) &^ 3
	if setFaults {
		smask = vv.Int("smask", 0, 127) &^ 3
	}
	if withCancel {
		cancel = vv.Int("cancel", 0, gateNone)
	}
	runs := 1
	if !vv.Symbolic() {
		runs = 4
		if sched > 0 {
			runs = 100
		}
	}
	blobs := st.snapshot()
	scores, index := w.l.Scores, w.l.Index
	for r := 0; r < runs; r++ {
		st := newStore()
		for _, b := range blobs {
			st.put(b.set, b.key, b.val)
		}
		st.classes = w.st.classes
		l := &rankdb.List{ID: "a", Set: set, SplitSize: w.l.SplitSize, MergeSize: w.l.MergeSize, Scores: scores, Index: index}
		f := &flaky{store: st, mask: mask, smask: smask, cancel: cancel, p: pacer{st: st}}
		c, end := context.WithCancel(ctx)
		if withCancel {
			f.end = end
		}
		vv.Schedules(sched)
		done := make(chan error, 1)
		live := vv.LiveGoroutines()
		go func() {
			done <- fan(op, c, l, f, ids, append(rankdb.Elements(nil), els...))
		}()
		var err error
		select {
		case err = <-done:
		case <-time.After(200 * pace):
			vv.Fail("C29: an operation whose workers fail never returns")
		}
		vv.SchedOff(1)
		f.fmu.Lock()
		f.closed = true
		busy, failed, ended := f.inside, f.failed, f.ended
		f.fmu.Unlock()
		vv.Assert(busy == 0, "C29: an operation returns while its workers still run")
		vv.Assert(err != nil || failed == 0, "C29: an operation loses the error of a worker")
		vv.Assert(err == nil || failed > 0 || ended, "C29: an operation reports an error that no worker had")
		vv.Drain()
		f.fmu.Lock()
		late := f.late
		f.fmu.Unlock()
		vv.Assert(!late, "C29: workers of an operation run on after it returned")
		vv.Assert(vv.LiveGoroutines() <= live, "C29: an operation leaves a worker behind")
		end()
		// nothing stays locked: every segment can be used by reads and changes
		f.mask, f.smask, f.end, f.closed = 0, 0, nil, false
		go func() {
			_, err := l.GetElements(ctx, f, ids, 2)
			if err == nil {
				_, err = l.UpdateElements(ctx, f, append(rankdb.Elements(nil), els...), 0, false)
			}
			if err == nil {
				err = l.Reindex(ctx, f)
			}
			done <- err
		}()
		select {
		case err = <-done:
			vv.Assert(err == nil, "C29: the list cannot be used after a failed operation")
		case <-time.After(200 * pace):
			vv.Fail("C29: a failed operation leaves the list locked")
		}
	}
	vv.Cover("returned")
	if f := mask | smask; f != 0 {
		vv.Cover("faults")
	}
}

// VH_C29_faults: any set of segments fails to load, for operations that work on all segments at once.
func VH_C29_faults() {
	fanout(vv.Choose("op", nFan), false, false, 0)
}

// VH_C29_save: any set of segments fails to be saved.
func VH_C29_save() {
	fanout([]int{1, 2, 3, 5, 7}[vv.Choose("op", 5)], false, true, 0)
}

// VH_C29_cancel: the context ends at a chosen storage access, with any set of failing loads.
func VH_C29_cancel() {
	fanout(vv.Choose("op", nFan), true, false, 0)
}

// VH_C29_schedule: as C29_faults with context switches at synchronisation points.
func VH_C29_schedule() {
	fanout(vv.Choose("op", sz(3, nFan)), false, false, 1)
}

// VH_C29_bucket: workers take and release tokens of a bucket under all schedules with a limited number of preemptions.
func VH_C29_bucket() {
	n := 1 + vv.Choose("tokens", 2)
	workers := 2 + vv.Choose("workers", 2)
	runs := 1
	if !vv.Symbolic() {
		runs = 500
	}
	vv.Schedules(sz(3, 5))
	for r := 0; r < runs; r++ {
		b := rankdb.NewBucket(n)
		var mu sync.Mutex
		held, peak := 0, 0
		done := make(chan struct{}, workers)
		for i := 0; i < workers; i++ {
			go func() {
				for k := 0; k < 2; k++ {
					t := b.Get()
					mu.Lock()
					held++
					if held > peak {
						peak = held
					}
					mu.Unlock()
					vv.Yield()
					mu.Lock()
					held--
					mu.Unlock()
					t.Release()
				}
				done <- struct{}{}
			}()
		}
		limit := time.After(10 * time.Second)
		for i := 0; i < workers; i++ {
			select {
			case <-done:
			case <-limit:
				vv.Fail("C29: a released token cannot be taken again")
			}
		}
		vv.Assert(peak <= n, "C29: a bucket hands out more tokens than it holds")
		got := 0
		for {
			select {
			case <-b:
				got++
				continue
			default:
			}
			break
		}
		vv.Assert(got == n, "C29: tokens are lost or invented")
	}
	vv.Cover("all done")
}
