package lists

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

type sizes struct{ split, merge int }

func pickSizes(s ...sizes) sizes { return s[vv.Choose("sizes", len(s))] }

// tidy asserts that the set holds exactly the blobs of the given lists.
func tidy(st *store, what string, ls ...*rankdb.List) {
	var keep []string
	for _, l := range ls {
		for _, id := range []rankdb.SegmentsID{l.Scores, l.Index} {
			keep = append(keep, string(id))
			s, err := loadSegs(st, l.Set, id)
			if err != nil {
				vv.Fail(what + ": segments cannot be loaded")
			}
			for i := range s.Segments {
				keep = append(keep, s.Segments[i].StorageKey())
			}
		}
	}
	for _, b := range st.snapshot() {
		hit := false
		for _, k := range keep {
			if k == b.key {
				hit = true
			}
		}
		vv.Assert(hit, what+": storage of a dropped segment is not removed")
	}
}

// splittable says that not all elements are tied.
func splittable(e []rankdb.Element) bool {
	r := false
	for i := 1; i < len(e); i++ {
		r = vv.Or(r, e[i].Score != e[0].Score, e[i].TieBreaker != e[0].TieBreaker)
	}
	return r
}

func doSplit(lo layout, s sizes, warm bool) {
	st := newStore()
	w := build("a", st, lo, s.split, s.merge)
	if warm {
		w.warm()
	}
	err := w.l.ForceSplit(ctx, st)
	vv.Assert(err == nil, "split failed without a storage failure")
	r := unchanged(st, w.l, w.els, "split")
	agree(w.l, st, r.els, "split")
	tidy(st, "split", w.l)
	// an oversized segment was divided: no segment still holds all its elements
	pos := 0
	for _, n := range lo.scores {
		if n >= s.split {
			old := w.els[pos : pos+n]
			at := 0
			for _, m := range r.segN {
				if at <= pos && at+m >= pos+n {
					vv.Assert(vv.Not(splittable(old)), "split: an oversized segment was not split")
				}
				at += m
			}
		}
		pos += n
	}
	// nothing to merge is bigger than asked
	vv.Assert(len(r.segN) > 0, "split: no segments left")
	pos = 0
	for _, m := range lo.index {
		if m >= s.split && m > 1 {
			at := 0
			for _, k := range r.ixN {
				vv.Assert(!(at <= pos && at+k >= pos+m), "split: an oversized index segment was not split")
				at += k
			}
		}
		pos += m
	}
	vv.Cover(fmt.Sprintf("segs%dto%d", len(lo.scores), len(r.segN)))
	vvlib.ObserveElems("r", r.els)
}

var splitLayouts = []layout{
	lay([]int{0}, 0),
	lay([]int{2}, 2),
	lay([]int{3}, 3),
	lay([]int{1, 2}, 3),
	lay([]int{0, 1, 1}, 1, 1),
	lay([]int{1, 0, 2}, 2, 0, 1),
	lay([]int{3, 1}, 1, 3),
}

var splitLayoutsThorough = []layout{
	lay([]int{4}, 4),
	lay([]int{5}, 5),
	lay([]int{2, 2, 1}, 3, 2),
	lay([]int{1, 1, 1, 1}, 1, 1, 1, 1),
	lay([]int{0, 0, 3, 0}, 0, 3, 0),
	lay([]int{3, 3}, 2, 4),
}

func splitLayout() layout {
	ls := splitLayouts
	if vv.Tier() == 1 {
		ls = append(append([]layout(nil), ls...), splitLayoutsThorough...)
	}
	return pick(ls...)
}

// VH_C06_split: split and merge maintenance of an arbitrary valid list of up to 4 (thorough 6) elements in up to 3 (4)
// segments for split/merge sizes 1/0 to 5/4.
func VH_C06_split() {
	doSplit(splitLayout(), pickSizes(sizes{2, 1}, sizes{3, 2}, sizes{1, 0}, sizes{5, 4}), vv.Choose("warm", 2) == 1)
}

// VH_C06_splitTied: one segment of 4 (thorough: also 5, 6) elements with arbitrary ties is split.
func VH_C06_splitTied() {
	n := 4
	if vv.Tier() == 1 {
		n += vv.Choose("n", 3)
	}
	doSplit(lay([]int{n}, n), pickSizes(sizes{2, 1}, sizes{4, 2}), false)
}

// VH_C06_splitTwice: maintenance run twice, the second on the result of the first.
func VH_C06_splitTwice() {
	st := newStore()
	lo := pick(lay([]int{3}, 3), lay([]int{1, 2}, 3))
	s := pickSizes(sizes{2, 1}, sizes{2, 0})
	w := build("a", st, lo, s.split, s.merge)
	for i := 0; i < 2; i++ {
		err := w.l.ForceSplit(ctx, st)
		vv.Assert(err == nil, "split failed without a storage failure")
	}
	r := unchanged(st, w.l, w.els, "second split")
	agree(w.l, st, r.els, "second split")
	tidy(st, "second split", w.l)
	vv.Cover("twice")
}

// VH_C06_splitUpdate: a list object that was split is updated; the update still is an exact upsert.
func VH_C06_splitUpdate() {
	st := newStore()
	w := build("a", st, pick(lay([]int{2}, 2), lay([]int{1, 1}, 2)), 2, 1)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	err := w.l.ForceSplit(ctx, st)
	vv.Assert(err == nil, "split failed without a storage failure")
	els := newElems("e", 1)
	_, err = w.l.UpdateElements(ctx, st, rankdb.Elements{els[0]}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	r := expect(st, w.l, merged(w.els, els), "update after split")
	agree(w.l, st, r.els, "update after split")
	vv.Cover("update")
}

// VH_C06_reindex: a reindex of an arbitrary valid list rebuilds an equivalent index and drops the old one.
func VH_C06_reindex() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1}, sizes{3, 2}, sizes{1, 0})
	w := build("a", st, splitLayout(), s.split, s.merge)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	err := w.l.Reindex(ctx, st)
	vv.Assert(err == nil, "reindex failed without a storage failure")
	r := unchanged(st, w.l, w.els, "reindex")
	agree(w.l, st, r.els, "reindex")
	tidy(st, "reindex", w.l)
	vv.Cover("reindexed")
}

// VH_C07_populate: an arbitrary valid list is replaced by 0 to 3 (thorough 4) arbitrary elements with distinct ids.
func VH_C07_populate() {
	st := newStore()
	n := vv.Choose("n", sz(4, 5))
	ss := []sizes{{2, 1}, {4, 1}, {2000, 500}, {1, 0}}
	ls := []layout{lay([]int{1, 1}, 2), lay([]int{0}, 0), lay([]int{1}, 1)}
	if n > 2 && vv.Tier() == 0 {
		ss, ls = ss[:2], ls[:1]
	}
	s := pickSizes(ss...)
	w := build("a", st, pick(ls...), s.split, s.merge)
	switch vv.Choose("warm", 2) {
	case 1:
		w.warm()
	}
	els := newElems("e", n)
	in := make(rankdb.Elements, n)
	copy(in, els)
	err := w.l.Populate(ctx, st, in)
	vv.Assert(err == nil, "populate failed without a storage failure")
	r := expect(st, w.l, els, "populate")
	agree(w.l, st, r.els, "populate")
	tidy(st, "populate", w.l)
	vv.Cover(fmt.Sprintf("populated%d", n))
}

// VH_C07_new: NewList with Populate and with nothing, then an update.
func VH_C07_new() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1}, sizes{1, 0})
	n := vv.Choose("n", sz(3, 4))
	els := newElems("e", n)
	in := make(rankdb.Elements, n)
	copy(in, els)
	opts := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(s.merge, s.split)}
	if n > 0 {
		opts = append(opts, rankdb.WithListOption.Populate(in))
	}
	if vv.Choose("cache", 2) == 1 {
		opts = append(opts, rankdb.WithListOption.Cache(&mapCache{}))
	}
	l, err := rankdb.NewList(ctx, "n", set, st, opts...)
	vv.Assert(err == nil && l != nil, "NewList failed without a storage failure")
	vv.Assert(l.ID == "n" && l.Set == set && l.SplitSize == s.split && l.MergeSize == s.merge, "NewList ignores its options")
	// populating a new list stamps the elements with the current time
	if top, err := l.GetRankTop(ctx, st, 0, n+1); n > 0 && err == nil && len(top) > 0 {
		for i := range els {
			els[i].Updated = top[0].Updated
		}
	}
	r := expect(st, l, els, "new list")
	agree(l, st, r.els, "new list")
	tidy(st, "new list", l)
	up := newElems("u", 1)
	_, err = l.UpdateElements(ctx, st, rankdb.Elements{up[0]}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	r = expect(st, l, merged(els, up), "update of a new list")
	agree(l, st, r.els, "update of a new list")
	vv.Cover("new")
}

// VH_C07_clone: a clone has the content of the original, and a later change of either does not affect the other.
func VH_C07_clone() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1}, sizes{1, 0})
	w := build("a", st, pick(lay([]int{0}, 0), lay([]int{1, 1}, 2), lay([]int{1, 0, 1}, 1, 1), lay([]int{2}, 2)), 2000, 500)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	opts := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(s.merge, s.split), rankdb.WithListOption.Clone(w.l)}
	if vv.Choose("cache", 2) == 1 {
		c := w.cache
		if c == nil {
			c = &mapCache{}
		}
		opts = append(opts, rankdb.WithListOption.Cache(c))
	}
	dset := set
	if vv.Choose("otherset", 2) == 1 {
		dset = "other"
	}
	l, err := rankdb.NewList(ctx, "c", dset, st, opts...)
	vv.Assert(err == nil && l != nil, "clone failed without a storage failure")
	unchanged(st, l, w.els, "clone")
	unchanged(st, w.l, w.els, "original after clone")
	agree(l, st, w.els, "clone")
	agree(w.l, st, w.els, "original after clone")
	up := newElems("u", 1)
	a, b := l, w.l
	what := "original after update of clone"
	if vv.Choose("which", 2) == 1 {
		a, b = w.l, l
		what = "clone after update of original"
	}
	switch vv.Choose("op", 2) {
	case 0:
		_, err = a.UpdateElements(ctx, st, rankdb.Elements{up[0]}, 0, false)
		vv.Assert(err == nil, "update failed without a storage failure")
		r := expect(st, a, merged(w.els, up), "update after clone")
		agree(a, st, r.els, "update after clone")
	case 1:
		err = a.DeleteElements(ctx, st, []rankdb.ElementID{up[0].ID})
		vv.Assert(err == nil, "delete failed without a storage failure")
	}
	unchanged(st, b, w.els, what)
	agree(b, st, w.els, what)
	vv.Cover("clone")
}

// VH_C07_repairIndex: repair of a list whose index is missing, cannot be decoded, has arbitrary entries or arbitrary
// counters.
func VH_C07_repairIndex() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1})
	w := build("a", st, pick(lay([]int{1, 1}, 1, 1), lay([]int{2}, 2), lay([]int{0}, 0)), s.split, s.merge)
	ix, err := loadSegs(st, set, w.l.Index)
	if err != nil {
		vv.Fail("harness: index")
	}
	switch vv.Choose("damage", 4) {
	case 0:
		st.Delete(ctx, set, string(w.l.Index))
	case 1:
		st.Delete(ctx, set, ix.Segments[0].StorageKey())
	case 2:
		e := newElems("x", 1)
		st.put(set, ix.Segments[0].StorageKey(), elemBlob(e))
	case 3:
		ix.Segments[0].N = vv.Int("N", 0, 3)
		mustSave(ix, st)
	}
	err = w.l.Repair(ctx, st, vv.Choose("clear", 2) == 1)
	vv.Assert(err == nil, "repair failed without a storage failure")
	r := unchanged(st, w.l, w.els, "repair")
	agree(w.l, st, r.els, "repair")
	vv.Cover("repaired")
}

// VH_C07_repairElements: repair of a list whose score segments hold arbitrary elements: unordered, in wrong segments,
// with duplicate ids in one or several segments, and with a wrong counter.
func VH_C07_repairElements() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1})
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{0}, 0)), s.split, s.merge)
	sc, err := loadSegs(st, set, w.l.Scores)
	if err != nil {
		vv.Fail("harness: scores")
	}
	var all []rankdb.Element
	for i := range sc.Segments {
		n := 1
		if i == 0 || vv.Tier() == 1 {
			n += vv.Choose("n", 2)
		}
		e := make(rankdb.Elements, n)
		for j := range e {
			e[j] = vvlib.ElemP(fmt.Sprintf("d%d%d", i, j), byte(50+10*i+j))
			vv.Assume(vv.And(e[j].Updated != 0, e[j].Updated != math.MaxUint32))
			// the newest copy of an id is unique
			for _, o := range all {
				vv.Assume(vv.Or(o.ID != e[j].ID, o.Updated != e[j].Updated))
			}
			all = append(all, e[j])
		}
		st.put(set, sc.Segments[i].StorageKey(), elemBlob(e))
	}
	err = w.l.Repair(ctx, st, false)
	vv.Assert(err == nil, "repair failed without a storage failure")
	var want []rankdb.Element
	for i := range all {
		newest := true
		for j := range all {
			if i != j && all[j].ID == all[i].ID && all[j].Updated > all[i].Updated {
				newest = false
			}
		}
		if newest {
			want = append(want, all[i])
		}
	}
	r := expect(st, w.l, want, "repair")
	agree(w.l, st, r.els, "repair")
	vv.Cover(fmt.Sprintf("repaired%dof%d", len(want), len(all)))
}

// VH_C07_repairLost: one score segment cannot be read: repair keeps all readable elements; score segments that are gone
// give an empty list.
func VH_C07_repairLost() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{1}, 1), lay([]int{1, 1, 1}, 3)), 2000, 500)
	sc, err := loadSegs(st, set, w.l.Scores)
	if err != nil {
		vv.Fail("harness: scores")
	}
	var want []rankdb.Element
	switch vv.Choose("damage", 3) {
	case 0:
		k := vv.Choose("seg", len(sc.Segments))
		st.Delete(ctx, set, sc.Segments[k].StorageKey())
		for i := range w.els {
			if i != k {
				want = append(want, w.els[i])
			}
		}
	case 1:
		st.Delete(ctx, set, string(w.l.Scores))
	case 2:
		st.put(set, string(w.l.Scores), []byte{99, 1, 2})
	}
	err = w.l.Repair(ctx, st, true)
	vv.Assert(err == nil, "repair failed without a storage failure")
	r := unchanged(st, w.l, want, "repair")
	agree(w.l, st, r.els, "repair")
	vv.Cover("repaired")
}

// verdict is true when verification accepts the list.
func verdict(l *rankdb.List, st *store) bool {
	if l.Verify(ctx, st) != nil {
		return false
	}
	return l.VerifyElements(ctx, st) == nil
}

func untouched(st *store, before []blob, what string) {
	after := st.snapshot()
	vv.Assert(len(after) == len(before), what+" changed stored content")
	for i := range before {
		vv.Assert(before[i].key == after[i].key && vvlib.SamePayload(before[i].val, after[i].val), what+" changed stored content")
	}
}

// VH_C10_valid: every structurally valid list is accepted and left alone.
func VH_C10_valid() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1})
	w := build("a", st, queryLayout(), s.split, s.merge)
	if vv.Choose("warm", 2) == 1 {
		w.warm()
	}
	before := st.snapshot()
	vv.Assert(w.l.Verify(ctx, st) == nil, "verification rejects a valid list")
	vv.Assert(w.l.VerifyElements(ctx, st) == nil, "element verification rejects a valid list")
	untouched(st, before, "verification")
	vv.Cover("valid")
}

// VH_C10_segment: one field of one segment record is arbitrary; the verdict is the specification of validity.
func VH_C10_segment() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 1, 1), lay([]int{1, 0, 1}, 2), lay([]int{2}, 2)), 2000, 500)
	id := w.l.Scores
	if vv.Choose("index", 2) == 1 {
		id = w.l.Index
	}
	sc, err := loadSegs(st, set, id)
	if err != nil {
		vv.Fail("harness: segments")
	}
	seg := &sc.Segments[vv.Choose("seg", len(sc.Segments))]
	switch vv.Choose("field", 8) {
	case 0:
		seg.Min = vv.U64("x")
	case 1:
		seg.Max = vv.U64("x")
	case 2:
		seg.MinTie = vv.U32("x")
	case 3:
		seg.MaxTie = vv.U32("x")
	case 4:
		seg.N = vv.Int("x", 0, 4)
	case 5:
		seg.Updated = vv.I64("x")
	case 6:
		seg.Parent = "other"
	case 7:
		sc.IsIndex = !sc.IsIndex
	}
	mustSave(sc, st)
	checkVerdict(st, w)
}

func checkVerdict(st *store, w *world) {
	r := read(st, w.l)
	before := st.snapshot()
	got := verdict(w.l, st)
	untouched(st, before, "verification")
	if got {
		vv.Assert(r.why == "", "verification accepts a broken list: "+r.why)
		vv.Assert(r.ok, "verification accepts a broken list")
		vv.Cover("accepted")
	} else {
		vv.Assert(r.why != "" || !r.ok, "verification rejects a valid list")
		vv.Cover("rejected")
	}
}

// VH_C10_elements: one segment blob, score or index, holds 0 to 2 arbitrary elements; the verdict is the specification
// of validity.
func VH_C10_elements() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 1, 1), lay([]int{2}, 2)), 2000, 500)
	id := w.l.Scores
	if vv.Choose("index", 2) == 1 {
		id = w.l.Index
	}
	sc, err := loadSegs(st, set, id)
	if err != nil {
		vv.Fail("harness: segments")
	}
	seg := &sc.Segments[vv.Choose("seg", len(sc.Segments))]
	n := vv.Choose("n", 3)
	e := make(rankdb.Elements, n)
	for i := range e {
		e[i] = vvlib.Elem(fmt.Sprintf("x%d", i))
		vv.Assume(e[i].Updated != math.MaxUint32)
		if id == w.l.Index {
			// index entries always carry their id as score
			e[i].Score = uint64(e[i].ID)
		}
	}
	if vv.Choose("fixN", 2) == 1 {
		seg.N = n
		mustSave(sc, st)
	}
	st.put(set, seg.StorageKey(), elemBlob(e))
	checkVerdict(st, w)
}

// VH_C10_missing: a missing, foreign-version or undecodable segment blob is rejected.
func VH_C10_missing() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 1, 1), lay([]int{0, 1}, 1)), 2000, 500)
	id := w.l.Scores
	if vv.Choose("index", 2) == 1 {
		id = w.l.Index
	}
	sc, err := loadSegs(st, set, id)
	if err != nil {
		vv.Fail("harness: segments")
	}
	k := sc.Segments[vv.Choose("seg", len(sc.Segments))].StorageKey()
	switch vv.Choose("damage", 3) {
	case 0:
		st.Delete(ctx, set, k)
	case 1:
		st.put(set, k, []byte{vv.U8("b")})
	case 2:
		b := append([]byte(nil), st.b[st.find(set, k)].val...)
		v := vv.U8("ver")
		vv.Assume(v != 1)
		b[0] = v
		st.put(set, k, b)
	}
	vv.Assert(!verdict(w.l, st), "verification accepts a list with unreadable segments")
	vv.Cover("missing")
}
