package lists

import (
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// An op runs one operation on the list of w and returns its error and a check that its full effect is there.
type op func(w *world, st *store) (error, func(what string))

func opUpdate(w *world, st *store) (error, func(string)) {
	els := newElems("e", 1)
	res, err := w.l.UpdateElements(ctx, st, rankdb.Elements{els[0]}, 1, vv.Choose("results", 2) == 1)
	return err, func(what string) {
		r := expect(st, w.l, merged(w.els, els), what)
		for i := range res {
			checkRanked(r.els, res[i], 1, what+" result")
		}
	}
}

func opUpdate2(w *world, st *store) (error, func(string)) {
	els := vvlib.Copy(w.els[:2])
	for i := range els {
		els[i].Score = vv.U64(fmt.Sprintf("new%d", i))
	}
	_, err := w.l.UpdateElements(ctx, st, rankdb.Elements(vvlib.Copy(els)), 0, false)
	return err, func(what string) { expect(st, w.l, merged(w.els, els), what) }
}

func opInsert(w *world, st *store) (error, func(string)) {
	els := newElems("e", 1)
	vv.Assume(vv.Not(vvlib.HasID(w.els, els[0].ID)))
	err := w.l.Insert(ctx, st, rankdb.Elements{els[0]})
	return err, func(what string) { expect(st, w.l, append(vvlib.Copy(w.els), els...), what) }
}

func opDelete(w *world, st *store) (error, func(string)) {
	k := vv.Choose("k", len(w.els))
	err := w.l.DeleteElements(ctx, st, []rankdb.ElementID{w.els[k].ID})
	return err, func(what string) {
		expect(st, w.l, append(vvlib.Copy(w.els[:k]), w.els[k+1:]...), what)
	}
}

func opPopulate(w *world, st *store) (error, func(string)) {
	els := newElems("e", vv.Choose("n", 2))
	err := w.l.Populate(ctx, st, rankdb.Elements(vvlib.Copy(els)))
	return err, func(what string) { expect(st, w.l, els, what) }
}

func opSplit(w *world, st *store) (error, func(string)) {
	err := w.l.ForceSplit(ctx, st)
	return err, func(what string) { unchanged(st, w.l, w.els, what) }
}

func opReindex(w *world, st *store) (error, func(string)) {
	err := w.l.Reindex(ctx, st)
	return err, func(what string) { unchanged(st, w.l, w.els, what) }
}

func opRepair(w *world, st *store) (error, func(string)) {
	err := w.l.Repair(ctx, st, false)
	return err, func(what string) { unchanged(st, w.l, w.els, what) }
}

func opClone(w *world, st *store) (error, func(string)) {
	l, err := rankdb.NewList(ctx, "c", "other", st, rankdb.WithListOption.Clone(w.l))
	return err, func(what string) {
		vv.Assert(l != nil, what+": no list")
		unchanged(st, l, w.els, what)
		unchanged(st, w.l, w.els, what+" original")
	}
}

func opRestore(w *world, st *store) (error, func(string)) {
	f := st.f
	st.f = nil
	b, err := backupOf(w.l, st)
	if err != nil {
		vv.Fail("harness: backup")
	}
	st.f = f
	var nid *rankdb.ListID
	if vv.Choose("newid", 2) == 1 {
		id := rankdb.ListID("r")
		nid = &id
	}
	l, err := rankdb.RestoreList(ctx, st, rankdb.NewReaderMsgp(b), nil, nid)
	return err, func(what string) {
		vv.Assert(l != nil, what+": no list")
		unchanged(st, l, w.els, what)
	}
}

func opNewList(w *world, st *store) (error, func(string)) {
	l, err := rankdb.NewList(ctx, "n", "other", st)
	return err, func(what string) {
		vv.Assert(l != nil, what+": no list")
		unchanged(st, l, nil, what)
	}
}

func opDeleteAll(w *world, st *store) (error, func(string)) {
	err := w.l.DeleteAll(ctx, st)
	return err, func(what string) {
		vv.Assert(len(st.snapshot()) == 0, what+": reported as done but content is left")
	}
}

func opGet(w *world, st *store) (error, func(string)) {
	k := vv.Choose("k", len(w.els))
	ids := []rankdb.ElementID{w.els[k].ID, w.els[0].ID}
	res, err := w.l.GetElements(ctx, st, ids, 1)
	return err, func(what string) {
		n := 2
		if k == 0 {
			n = 1
		}
		vv.Assert(len(res) == n, what+": wrong number of results")
		for i := range res {
			checkRanked(w.els, res[i], 1, what)
		}
	}
}

func sameRange(got rankdb.Elements, want []rankdb.Element, what string) {
	vv.Assert(len(got) == len(want), what+": wrong number of elements")
	for i := range want {
		vv.Assert(vvlib.Same(got[i], want[i]), what+": wrong element")
	}
}

func opTop(w *world, st *store) (error, func(string)) {
	res, err := w.l.GetRankTop(ctx, st, 0, len(w.els))
	return err, func(what string) { sameRange(res, w.els, what) }
}

func opBottom(w *world, st *store) (error, func(string)) {
	res, err := w.l.GetRankBottom(ctx, st, 0, len(w.els))
	return err, func(what string) {
		vv.Assert(len(res) == len(w.els), what+": wrong number of elements")
		for i := range res {
			hit := false
			for j := range w.els {
				hit = vv.Or(hit, vvlib.Same(res[i], w.els[j]))
			}
			vv.Assert(hit, what+": wrong element")
		}
	}
}

func opScore(w *world, st *store) (error, func(string)) {
	res, err := w.l.GetRankScoreDesc(ctx, st, ^uint64(0), len(w.els))
	return err, func(what string) {
		vv.Assert(len(res) == len(w.els), what+": wrong number of elements")
		for i := range res {
			vv.Assert(vv.And(vvlib.Same(res[i].Element, w.els[i]), res[i].FromTop == i), what+": wrong element")
		}
	}
}

func opPercentile(w *world, st *store) (error, func(string)) {
	res, err := w.l.GetPercentile(ctx, st, 50, 1)
	return err, func(what string) {
		vv.Assert(res != nil, what+": no element")
		checkRanked(w.els, *res, 1, what)
	}
}

func opLen(w *world, st *store) (error, func(string)) {
	n, err := w.l.Len(ctx, st)
	return err, func(what string) { vv.Assert(n == len(w.els), what+": wrong length") }
}

func opStats(w *world, st *store) (error, func(string)) {
	s, err := w.l.Stats(ctx, st, true)
	return err, func(what string) {
		vv.Assert(s != nil && s.Elements == len(w.els), what+": wrong stats")
		vv.Assert(s.Top != nil && s.Bottom != nil, what+": top or bottom missing")
		vv.Assert(vv.And(vvlib.Same(s.Top.Element, w.els[0]), vvlib.Same(s.Bottom.Element, w.els[len(w.els)-1])), what+": wrong element")
	}
}

func opVerify(w *world, st *store) (error, func(string)) {
	err := w.l.Verify(ctx, st)
	if err == nil {
		err = w.l.VerifyElements(ctx, st)
	}
	return err, func(what string) { unchanged(st, w.l, w.els, what) }
}

func opBackup(w *world, st *store) (error, func(string)) {
	b, err := backupOf(w.l, st)
	return err, func(what string) {
		dst := newStore()
		l, err := rankdb.RestoreList(ctx, dst, rankdb.NewReaderMsgp(b), nil, nil)
		vv.Assert(err == nil && l != nil, what+": backup cannot be restored")
		unchanged(dst, l, w.els, what)
	}
}

// pickFault draws a failing storage call: its kind, the blob it is about, and which call of that kind.
func pickFault(st *store) {
	f := &fault{op: []string{"Get", "Set", "Delete"}[vv.Choose("faultop", 3)]}
	k := vv.Choose("faultkey", len(st.classes)/2+1)
	if k == len(st.classes)/2 {
		f.class = "new"
		f.nth = vv.Choose("faultnth", 3)
	} else {
		f.class = st.classes[2*k+1]
		f.nth = vv.Choose("faultnth", sz(1, 2))
	}
	f.all = vv.Choose("faultall", 2) == 1
	st.f = f
}

var faultLayouts = []layout{lay([]int{1, 1}, 1, 1)}
var faultLayoutsThorough = []layout{lay([]int{2, 1}, 3), lay([]int{1, 0, 1}, 1, 1)}

// pairs selects lists whose segments have several elements.
func pairs() {
	faultLayouts = []layout{lay([]int{2}, 2)}
	faultLayoutsThorough = []layout{lay([]int{2, 1}, 3), lay([]int{1, 2}, 1, 2)}
}

func faultSetup(s sizes) (*world, *store) {
	st := newStore()
	ls := faultLayouts
	if vv.Tier() == 1 {
		ls = append(append([]layout(nil), ls...), faultLayoutsThorough...)
	}
	w := build("a", st, pick(ls...), s.split, s.merge)
	switch vv.Choose("state", 4) {
	case 3: // segments loaded, elements not cached
		w.withCache()
		if _, err := w.l.Len(ctx, st); err != nil {
			vv.Fail("harness: load")
		}
	case 1: // segments loaded
		if _, err := w.l.Len(ctx, st); err != nil {
			vv.Fail("harness: load")
		}
	case 2: // everything cached
		w.warm()
	}
	return w, st
}

func fault15(o op, s sizes, what string) {
	w, st := faultSetup(s)
	pickFault(st)
	err, effect := o(w, st)
	hits := st.hits
	st.f = nil
	vv.Assume(hits > 0)
	if err == nil {
		effect(what + " acknowledged although a storage call failed")
		vv.Cover("acknowledged")
	} else {
		vv.Cover("reported")
	}
}

func fault16(o op, s sizes, what string) {
	w, st := faultSetup(s)
	pickFault(st)
	o(w, st)
	hits := st.hits
	st.f = nil
	vv.Assume(hits > 0)
	vv.Drain()
	vv.Assert(vv.HeldLocks() == 0, what+": a lock is still held after a failure")
	if !vv.Symbolic() {
		vv.Assert(vv.LockFree(w.l), what+": a lock is still held after a failure")
	}
	// later operations complete
	w.l.Len(ctx, st)
	w.l.GetRankTop(ctx, st, 0, 3)
	if len(w.els) > 0 {
		w.l.GetElements(ctx, st, []rankdb.ElementID{w.els[0].ID}, 1)
		w.l.UpdateElements(ctx, st, rankdb.Elements{w.els[0]}, 0, true)
	}
	w.l.ForceSplit(ctx, st)
	w.l.Repair(ctx, st, true)
	vv.Cover("usable")
}

var noSplit = sizes{2000, 500}

// Every single failing storage call during each operation on a list of 2 elements in 2 segments (thorough: up to 3
// elements and segments), list cold, loaded or fully cached; the failing call is any Get, Set or Delete of any blob, once
// or from then on.

func VH_C15_update()     { fault15(opUpdate, noSplit, "update") }
func VH_C15_update2()    { fault15(opUpdate2, noSplit, "update") }
func VH_C15_insert()     { fault15(opInsert, noSplit, "insert") }
func VH_C15_delete()     { fault15(opDelete, noSplit, "delete") }
func VH_C15_populate()   { fault15(opPopulate, noSplit, "populate") }
func VH_C15_split()      { pairs(); fault15(opSplit, sizes{1, 0}, "split") }
func VH_C15_merge()      { fault15(opSplit, sizes{4, 3}, "merge") }
func VH_C15_reindex()    { fault15(opReindex, noSplit, "reindex") }
func VH_C15_repair()     { fault15(opRepair, noSplit, "repair") }
func VH_C15_clone()      { fault15(opClone, noSplit, "clone") }
func VH_C15_restore()    { fault15(opRestore, noSplit, "restore") }
func VH_C15_newlist()    { fault15(opNewList, noSplit, "new list") }
func VH_C15_get()        { fault15(opGet, noSplit, "lookup") }
func VH_C15_top()        { fault15(opTop, noSplit, "top query") }
func VH_C15_bottom()     { fault15(opBottom, noSplit, "bottom query") }
func VH_C15_score()      { fault15(opScore, noSplit, "score query") }
func VH_C15_percentile() { fault15(opPercentile, noSplit, "percentile query") }
func VH_C15_len()        { fault15(opLen, noSplit, "length") }
func VH_C15_stats()      { fault15(opStats, noSplit, "stats") }
func VH_C15_verify()     { fault15(opVerify, noSplit, "verification") }
func VH_C15_backup()     { fault15(opBackup, noSplit, "backup") }

func VH_C16_update()     { fault16(opUpdate, noSplit, "update") }
func VH_C16_update2()    { fault16(opUpdate2, noSplit, "update") }
func VH_C16_insert()     { fault16(opInsert, noSplit, "insert") }
func VH_C16_delete()     { fault16(opDelete, noSplit, "delete") }
func VH_C16_populate()   { fault16(opPopulate, noSplit, "populate") }
func VH_C16_split()      { pairs(); fault16(opSplit, sizes{1, 0}, "split") }
func VH_C16_merge()      { fault16(opSplit, sizes{4, 3}, "merge") }
func VH_C16_reindex()    { fault16(opReindex, noSplit, "reindex") }
func VH_C16_repair()     { fault16(opRepair, noSplit, "repair") }
func VH_C16_clone()      { fault16(opClone, noSplit, "clone") }
func VH_C16_restore()    { fault16(opRestore, noSplit, "restore") }
func VH_C16_newlist()    { fault16(opNewList, noSplit, "new list") }
func VH_C16_deleteAll()  { fault16(opDeleteAll, noSplit, "delete all") }
func VH_C16_get()        { fault16(opGet, noSplit, "lookup") }
func VH_C16_top()        { fault16(opTop, noSplit, "top query") }
func VH_C16_bottom()     { fault16(opBottom, noSplit, "bottom query") }
func VH_C16_score()      { fault16(opScore, noSplit, "score query") }
func VH_C16_percentile() { fault16(opPercentile, noSplit, "percentile query") }
func VH_C16_len()        { fault16(opLen, noSplit, "length") }
func VH_C16_stats()      { fault16(opStats, noSplit, "stats") }
func VH_C16_verify()     { fault16(opVerify, noSplit, "verification") }
func VH_C16_backup()     { fault16(opBackup, noSplit, "backup") }
