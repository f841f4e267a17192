package lists

import (
	"context"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
)

// racer lets operation 0 stop at a chosen storage access and operation 1 run
// there, without ordering any of their memory accesses.
type racer struct {
	pc    pacer
	gate  int
	stops int
	begun bool
}

//go:norace
func (r *racer) access(c context.Context, op, key string) {
	vv.Untracked(true)
	who, ok := c.Value(opKey{}).(int)
	stop := ok && who == 0 && !r.begun && r.stops == r.gate
	if ok && who == 0 {
		r.stops++
	}
	if stop {
		r.begun = true
	}
	vv.Untracked(false)
	if stop {
		time.Sleep(pace)
	}
}

//go:norace
func (r *racer) finished() {
	vv.Untracked(true)
	r.begun = true
	vv.Untracked(false)
}

//go:norace
func (r *racer) started() bool {
	vv.Untracked(true)
	b := r.begun
	vv.Untracked(false)
	return b
}

const raceOps = 20

func raceOp(op int, c context.Context, l *rankdb.List, st *store, x, nx, fresh rankdb.Element) {
	switch op {
	case 0:
		l.UpdateElements(c, st, rankdb.Elements{nx}, 1, true)
	case 1:
		l.Insert(c, st, rankdb.Elements{fresh})
	case 2:
		l.DeleteElements(c, st, []rankdb.ElementID{x.ID})
	case 3:
		l.GetElements(c, st, []rankdb.ElementID{x.ID, fresh.ID}, 1)
	case 4:
		l.GetRankTop(c, st, 0, 3)
	case 5:
		l.GetRankScoreDesc(c, st, x.Score, 3)
	case 6:
		l.GetPercentile(c, st, 0.5, 1)
	case 7:
		l.Len(c, st)
	case 8:
		l.Stats(c, st, true)
	case 9:
		l.Verify(c, st)
	case 10:
		l.VerifyElements(c, st)
	case 11:
		l.ForceSplit(c, st)
	case 12:
		l.Repair(c, st, false)
	case 13:
		l.Reindex(c, st)
	case 14:
		w := rankdb.NewWriterMsg()
		l.Backup(c, st, w)
		w.Close()
	case 15:
		rankdb.NewList(c, "clone", "other", st, rankdb.WithListOption.Clone(l), rankdb.WithListOption.MergeSplitSize(0, 1))
	case 16:
		l.ReleaseSegments(c)
	case 17:
		l.DeleteAll(c, st)
	case 18:
		l.Populate(c, st, rankdb.Elements{nx, fresh})
	case 19:
		l.GetRankBottom(c, st, 0, 2)
	}
}

// races: operations a and b of a list of 3 elements in 2 segments that are split, with a cache or not, loaded before or
// not. Operation b runs when a is at a chosen storage access, or after it, without being ordered after it.
func races(a, b int) {
	vv.Races()
	plainShape = true
	st := newStore()
	w := build("a", st, lay([]int{2, 1}, 1, 2), 1, 0)
	for i, s := range []uint64{30, 20, 10} {
		vv.Assume(vv.And(w.els[i].Score == s, w.els[i].ID == rankdb.ElementID(s)))
	}
	nx, fresh := changed("nx", w.els[1], 20), newElems("f", 1)[0]
	vv.Assume(vv.And(nx.TieBreaker == 1, nx.Updated == 500))
	vv.Assume(vv.And(fresh.ID == 5, fresh.Score == 7, fresh.TieBreaker == 1))
	free := &sync.Map{}
	for _, bl := range st.snapshot() {
		free.Store(bl.set+"/"+bl.key, bl.val)
	}
	if vv.Choose("cache", 2) == 1 {
		w.withCache()
		w.cache.free = &sync.Map{}
	}
	st.free = free
	if vv.Choose("loaded", 2) == 1 {
		w.l.Verify(ctx, st)
		if w.cache != nil {
			w.l.GetRankTop(ctx, st, 0, 3)
		}
	}
	r := &racer{gate: vv.Choose("gate", sz(8, 16)), pc: pacer{st: st}}
	st.onCtx = r.access
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		raceOp(a, context.WithValue(ctx, opKey{}, 0), w.l, st, w.els[1], nx, fresh)
		r.finished()
	}()
	go func() {
		defer wg.Done()
		for !r.started() {
			time.Sleep(time.Millisecond)
		}
		raceOp(b, context.WithValue(ctx, opKey{}, 1), w.l, st, w.els[1], nx, fresh)
	}()
	wg.Wait()
	vv.Cover("both done")
}

// VH_C36_lists: all ordered pairs of 20 operations of one list.
func VH_C36_lists() { races(vv.Choose("a", raceOps), vv.Choose("b", raceOps)) }
