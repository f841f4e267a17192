package lists

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

var mutLayouts = []layout{
	lay([]int{0}, 0),
	lay([]int{2}, 1, 1),
	lay([]int{1, 1}, 2),
	lay([]int{1, 0, 1}, 1, 1),
	lay([]int{2, 1}, 0, 3),
}

var mutLayoutsThorough = []layout{
	lay([]int{0, 0}, 0, 0),
	lay([]int{1, 1, 1}, 2, 1),
	lay([]int{3}, 1, 2),
	lay([]int{0, 2, 1}, 1, 0, 2),
	lay([]int{2, 2}, 2, 2),
}

func mutLayout() layout {
	ls := mutLayouts
	if vv.Tier() == 1 {
		ls = append(append([]layout(nil), ls...), mutLayoutsThorough...)
	}
	return pick(ls...)
}

// newElems draws n elements with distinct ids and update times.
func newElems(name string, n int) rankdb.Elements {
	r := make(rankdb.Elements, n)
	for i := range r {
		r[i] = vvlib.ElemP(fmt.Sprintf("%s%d", name, i), byte(100+i))
		vv.Assume(vv.And(r[i].Updated != 0, r[i].Updated != math.MaxUint32))
		for j := 0; j < i; j++ {
			vv.Assume(r[i].ID != r[j].ID)
		}
	}
	return r
}

// warm gives the list a cache and loads elements of every segment into it.
func (w *world) warm() {
	w.withCache()
	if _, err := w.l.GetRankTop(ctx, w.st, 0, len(w.els)+1); err != nil && len(w.els) > 0 {
		vv.Fail("harness: warm up failed")
	}
	ids := make([]rankdb.ElementID, 0, len(w.els))
	for i := range w.els {
		ids = append(ids, w.els[i].ID)
	}
	if _, err := w.l.GetElements(ctx, w.st, ids, 0); err != nil {
		vv.Fail("harness: warm up failed")
	}
}

// agree asserts that the list object, as its users see it, has the stored content.
func agree(l *rankdb.List, st *store, els []rankdb.Element, what string) {
	n, err := l.Len(ctx, st)
	vv.Assert(err == nil && n == len(els), what+": list length is wrong afterwards")
	if len(els) == 0 {
		return
	}
	top, err := l.GetRankTop(ctx, st, 0, len(els)+1)
	vv.Assert(err == nil && len(top) == len(els), what+": list cannot be read afterwards")
	for i := range top {
		vv.Assert(vvlib.Same(top[i], els[i]), what+": list reads differ from storage afterwards")
	}
	ids := make([]rankdb.ElementID, 0, len(els))
	for i := range els {
		ids = append(ids, els[i].ID)
	}
	ge, err := l.GetElements(ctx, st, ids, 0)
	vv.Assert(err == nil && len(ge) == len(els), what+": elements cannot be found by id afterwards")
}

// merged is old with els replacing those of equal id. It forks on which ids are equal.
func merged(old, els []rankdb.Element) []rankdb.Element {
	want := vvlib.Copy(els)
	for i := range old {
		hit := false
		for j := range els {
			if els[j].ID == old[i].ID {
				hit = true
			}
		}
		if !hit {
			want = append(want, old[i])
		}
	}
	return want
}

func indexOfID(els []rankdb.Element, id rankdb.ElementID) int {
	for i := range els {
		if els[i].ID == id {
			return i
		}
	}
	return -1
}

func doUpdate(n int, mode int) {
	st := newStore()
	var lo layout
	if n > 1 && vv.Tier() == 0 {
		lo = pick(lay([]int{1, 1}, 2), lay([]int{0}, 0), lay([]int{2}, 1, 1))
	} else {
		lo = mutLayout()
	}
	w := build("a", st, lo, 2000, 500)
	if mode == 1 {
		w.warm()
	}
	els := newElems("e", n)
	in := make(rankdb.Elements, n)
	copy(in, els)
	results := vv.Choose("results", 2) == 1
	radius := 0
	if results {
		radius = vv.Choose("radius", 2)
	}
	res, err := w.l.UpdateElements(ctx, st, in, radius, results)
	vv.Assert(err == nil, "update failed without a storage failure")
	want := merged(w.els, els)
	r := expect(st, w.l, want, "update")
	agree(w.l, st, r.els, "update")
	if !results {
		vv.Assert(len(res) == 0, "update returns results that were not requested")
	} else {
		vv.Assert(len(res) == n, "update returns a wrong number of results")
		last := -1
		for i := range res {
			vv.Assert(indexOfID(els, res[i].ID) >= 0, "update returns an element that was not supplied")
			k := checkRanked(r.els, res[i], radius, "update result")
			vv.Assert(k > last, "update results are not in rank order")
			last = k
			o := indexOfID(w.els, res[i].ID)
			if o < 0 {
				vv.Assert(res[i].Before == nil, "update reports a previous placement for a new element")
				continue
			}
			vv.Cover("existing")
			b := res[i].Before
			vv.Assert(b != nil, "update lacks the previous placement")
			vv.Assert(vvlib.Same(b.Element, w.els[o]), "update reports a wrong previous element")
			vv.Assert(b.FromTop == o, "update reports a wrong previous rank from the top")
			vv.Assert(b.FromBottom == len(w.els)-o-1, "update reports a wrong previous rank from the bottom")
		}
	}
	vv.Cover("updated")
	vvlib.ObserveElems("r", r.els)
}

// VH_C04_one: one arbitrary element (new or existing) updated in an arbitrary valid list, with and without results and
// neighbours.
func VH_C04_one() { doUpdate(1, 0) }

// VH_C04_warm: as C04_one, with all segments in the cache of the list.
func VH_C04_warm() { doUpdate(1, 1) }

// VH_C04_two: two elements with different ids in one update.
func VH_C04_two() { doUpdate(2, vv.Choose("warm", 2)) }

// VH_C04_three: three elements in one update of a fixed two segment list.
func VH_C04_three() {
	if vv.Tier() == 0 {
		return
	}
	doUpdate(3, 0)
}

// VH_C04_notime: an element without update time gets one and is otherwise stored as given.
func VH_C04_notime() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{0}, 0)), 2000, 500)
	e := vvlib.ElemP("e", 100)
	e.Updated = 0
	_, err := w.l.UpdateElements(ctx, st, rankdb.Elements{e}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	r := read(st, w.l)
	vv.Assert(r.why == "", "update: stored list is broken: "+r.why)
	vv.Assert(r.ok, "update: stored list is not structurally valid")
	k := indexOfID(r.els, e.ID)
	vv.Assert(k >= 0 && vvlib.SameBut(r.els[k], e), "update: element without update time is not stored as given")
	vv.Assert(len(r.els) == len(merged(w.els, []rankdb.Element{e})), "update: wrong number of elements")
	vv.Cover("notime")
}

// VH_C04_twice: two successive single element updates of one list object; the second sees the first.
func VH_C04_twice() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{0}, 0), lay([]int{1}, 1)), 2000, 500)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	a, b := newElems("e", 1), newElems("f", 1)
	b[0].Payload = []byte{120}
	_, err := w.l.UpdateElements(ctx, st, rankdb.Elements{a[0]}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	_, err = w.l.UpdateElements(ctx, st, rankdb.Elements{b[0]}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	r := expect(st, w.l, merged(merged(w.els, a), b), "second update")
	agree(w.l, st, r.els, "second update")
	vv.Cover("twice")
}

func doDelete(mode int) {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	if mode == 1 {
		w.warm()
	}
	n := 1 + vv.Choose("n", 2)
	ids := make([]rankdb.ElementID, n)
	for i := range ids {
		ids[i] = rankdb.ElementID(vv.U64(fmt.Sprintf("id%d", i)))
	}
	in := append([]rankdb.ElementID(nil), ids...)
	err := w.l.DeleteElements(ctx, st, in)
	vv.Assert(err == nil, "delete failed without a storage failure")
	var want []rankdb.Element
	for i := range w.els {
		hit := false
		for _, id := range ids {
			if w.els[i].ID == id {
				hit = true
			}
		}
		if !hit {
			want = append(want, w.els[i])
		}
	}
	r := unchanged(st, w.l, want, "delete")
	agree(w.l, st, r.els, "delete")
	vv.Cover(fmt.Sprintf("deleted%d", len(w.els)-len(want)))
	vvlib.ObserveElems("r", r.els)
}

// VH_C05_delete: one or two arbitrary ids (possibly equal, possibly unknown) deleted from an arbitrary valid list of up
// to 3 (thorough 5) elements in up to 3 (4) segments.
func VH_C05_delete() { doDelete(0) }

// VH_C05_deleteWarm: as C05_delete with all segments in the cache of the list.
func VH_C05_deleteWarm() { doDelete(1) }

// VH_C05_insert: up to 2 (thorough 3) elements with new, distinct ids inserted in an arbitrary valid list, with and
// without a warm cache.
func VH_C05_insert() {
	st := newStore()
	n := vv.Choose("n", sz(3, 4))
	var lo layout
	if n > 1 && vv.Tier() == 0 {
		lo = pick(lay([]int{1, 1}, 2), lay([]int{0}, 0), lay([]int{2}, 1, 1))
	} else {
		lo = mutLayout()
	}
	w := build("a", st, lo, 2000, 500)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	els := newElems("e", n)
	for i := range els {
		vv.Assume(vv.Not(vvlib.HasID(w.els, els[i].ID)))
	}
	in := make(rankdb.Elements, n)
	copy(in, els)
	err := w.l.Insert(ctx, st, in)
	vv.Assert(err == nil, "insert failed without a storage failure")
	r := expect(st, w.l, append(vvlib.Copy(w.els), els...), "insert")
	agree(w.l, st, r.els, "insert")
	vv.Cover(fmt.Sprintf("inserted%d", n))
	vvlib.ObserveElems("r", r.els)
}

// VH_C05_insertBatch: inserts that are larger than the batch limit SplitSize/4*segments are done in batches; split sizes
// 1 to 8, up to 4 elements, always terminating.
func VH_C05_insertBatch() {
	vv.HangCheck()
	vv.Steps(400000)
	st := newStore()
	split := []int{1, 2, 3, 4, 5, 8}[vv.Choose("split", 6)]
	w := build("a", st, pick(lay([]int{0}, 0), lay([]int{1, 0}, 1, 0)), split, split/2)
	n := 1 + vv.Choose("n", 4)
	els := newElems("e", n)
	vv.Assume(vvlib.Strict(els))
	for i := range els {
		vv.Assume(vv.Not(vvlib.HasID(w.els, els[i].ID)))
		if i > 0 {
			vv.Assume(els[i-1].ID < els[i].ID)
		}
	}
	in := make(rankdb.Elements, n)
	copy(in, els)
	err := w.l.Insert(ctx, st, in)
	vv.Assert(err == nil, "insert failed without a storage failure")
	expect(st, w.l, append(vvlib.Copy(w.els), els...), "insert")
	vv.Cover("batch")
}
