package lists

import (
	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// lossy makes the cache of the list forget everything at the k-th access for a solver chosen k, and entries that are
// added at solver chosen accesses.
func (c *mapCache) lossy(n int) {
	at := vv.Int("forget", 0, n)
	k := 0
	c.on = func(op string, key interface{}) {
		if k == at {
			c.mu.Lock()
			c.k, c.v = nil, nil
			c.mu.Unlock()
			vv.Cover("forgot")
		}
		k++
	}
}

// step does one operation on the list and updates the specification.
func (w *world) step(op int, name string) {
	vv.Assert(w.try(op, name) == nil, "C32: operation failed without a storage failure")
}

func (w *world) try(op int, name string) (err error) {
	switch op {
	case 0: // update of an existing or new element
		e := newElems(name, 1)
		w.els = merged(w.els, e)
		_, err = w.l.UpdateElements(ctx, w.st, vvlib.Copy(e), 0, false)
	case 1:
		if len(w.els) == 0 {
			return nil
		}
		k := vv.Choose("which", len(w.els))
		err = w.l.DeleteElements(ctx, w.st, []rankdb.ElementID{w.els[k].ID})
		w.els = append(w.els[:k:k], w.els[k+1:]...)
	case 2:
		e := newElems(name, 1)
		vv.Assume(vv.Not(vvlib.HasID(w.els, e[0].ID)))
		w.els = append(vvlib.Copy(w.els), e...)
		err = w.l.Insert(ctx, w.st, vvlib.Copy(e))
	case 3:
		err = w.l.ForceSplit(ctx, w.st)
	case 4:
		err = w.l.Reindex(ctx, w.st)
	case 5:
		err = w.l.Repair(ctx, w.st, false)
	case 6: // restored over itself
		var b []byte
		b, err = backupOf(w.l, w.st)
		if err == nil {
			e := newElems(name, 1)
			_, err = w.l.UpdateElements(ctx, w.st, vvlib.Copy(e), 0, false)
			if err != nil {
				return err
			}
			l, e2 := rankdb.RestoreList(ctx, w.st, rankdb.NewReaderMsgp(b), w.cache, nil)
			if err = e2; err == nil {
				w.l = l
			}
		}
	case 7: // dropped and filled again
		err = w.l.DeleteAll(ctx, w.st)
		if err == nil {
			e := newElems(name, 1)
			in := vvlib.Copy(e)
			err = w.l.Populate(ctx, w.st, in)
			w.els = in
		}
	case 8: // unloaded
		w.l.ReleaseSegments(ctx)
	}
	return err
}

// view is what the list answers.
func (w *world) view(ids []rankdb.ElementID) (top rankdb.Elements, found rankdb.RankedElements, ok [2]bool) {
	top, err := w.l.GetRankTop(ctx, w.st, 0, 6)
	ok[0] = err == nil
	found, err = w.l.GetElements(ctx, w.st, ids, 0)
	ok[1] = err == nil
	return top, found, ok
}

// VH_C32_fault: one operation of 9 kinds of which any one storage call fails; afterwards the list answers the same with
// what is in the cache and after the cache forgot everything.
func VH_C32_fault() {
	plainShape = true
	st := newStore()
	sp, mg := 2000, 500
	if vv.Choose("small", 2) == 1 {
		sp, mg = 1, 0
	}
	w := build("a", st, lay([]int{2, 1}, 1, 2), sp, mg)
	var ids []rankdb.ElementID
	for _, e := range w.els {
		ids = append(ids, e.ID)
	}
	w.warm()
	pickFault(st)
	err := w.try(vv.Choose("op", 9), "e")
	vv.Assume(err != nil)
	st.f = nil
	t1, f1, ok1 := w.view(ids)
	w.cache.k, w.cache.v = nil, nil
	t2, f2, ok2 := w.view(ids)
	vv.Assert(ok1 == ok2 && len(t1) == len(t2) && len(f1) == len(f2), "C32: after a failed operation a list answers otherwise once its cache is empty")
	for i := range t1 {
		vv.Assert(vvlib.Same(t1[i], t2[i]), "C32: after a failed operation a list answers otherwise once its cache is empty")
	}
	for i := range f1 {
		vv.Assert(vvlib.Same(f1[i].Element, f2[i].Element), "C32: after a failed operation a list answers otherwise once its cache is empty")
	}
	vv.Cover("failed")
}

func cached(scores, idx []int, forget, second int) {
	plainShape = true
	st := newStore()
	sp, mg := 2000, 500
	if vv.Choose("small", 2) == 1 {
		sp, mg = 2, 1
	}
	w := build("a", st, lay(scores, idx...), sp, mg)
	w.warm()
	w.cache.lossy(forget)
	w.step(vv.Choose("op", 9), "e")
	r := expect(st, w.l, w.els, "C32: list with a cache")
	if second == 0 || vv.Tier() == 1 {
		agree(w.l, st, r.els, "C32: list with a cache")
	}
	if second > 0 {
		w.els = r.els
		w.step(vv.Choose("op2", second), "f")
		r = expect(st, w.l, w.els, "C32: list with a cache")
		agree(w.l, st, r.els, "C32: list with a cache")
	}
	vv.Cover("steps")
}

// VH_C32_step: an operation of 9 kinds on a list of 3 arbitrary elements in 2 segments, all cached before, while the cache
// forgets everything at any one of its accesses or never; storage and reads agree with the same list without cache.
func VH_C32_step() { cached([]int{2, 1}, []int{1, 2}, sz(6, 16), 0) }

// VH_C32_twice: two operations in a row on 2 elements in 2 segments.
func VH_C32_twice() { cached([]int{1, 1}, []int{1, 1}, sz(1, 16), sz(2, 9)) }

// VH_C32_split: a cached segment of 3 elements is split; then an arbitrary element is inserted (thorough: or one of the 3
// replaced, and the cache forgets everything at any one access or never).
func VH_C32_split() {
	plainShape = true
	st := newStore()
	w := build("a", st, lay([]int{3}, 3), 2, 1)
	w.warm()
	if vv.Tier() == 1 {
		w.cache.lossy(12)
	}
	w.step(3, "s")
	w.step(2*(1-vv.Choose("replace", sz(1, 2))), "e")
	r := expect(st, w.l, w.els, "C32: list with a cache after a split")
	agree(w.l, st, r.els, "C32: list with a cache after a split")
	vv.Cover("split")
}
