package reg

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
)

// watched is a store that counts accesses and fails chosen ones.
type watched struct {
	blobstore.Store
	mu   sync.Mutex
	fail func(op, set, key string) bool
	gets int
	sets []string // set/key of every acknowledged write
}

func (w *watched) note(op, set, key string) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.fail != nil && w.fail(op, set, key) {
		return errBroken
	}
	switch op {
	case "get":
		w.gets++
	case "set":
		w.sets = append(w.sets, set+"/"+key)
	}
	return nil
}

func (w *watched) Get(c context.Context, set, key string) ([]byte, error) {
	if err := w.note("get", set, key); err != nil {
		return nil, err
	}
	return w.Store.Get(c, set, key)
}

func (w *watched) Set(c context.Context, set, key string, b []byte) error {
	if err := w.note("set", set, key); err != nil {
		return err
	}
	return w.Store.Set(c, set, key, b)
}

func (w *watched) Delete(c context.Context, set, key string) error {
	if err := w.note("delete", set, key); err != nil {
		return err
	}
	return w.Store.Delete(c, set, key)
}

// writes counts acknowledged writes of a blob.
func (w *watched) writes(name string) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.sets {
		if s == name {
			n++
		}
	}
	return n
}

// tick is the interval of the background services.
func tick() time.Duration { return 60 * time.Millisecond }

// stop asks a service to stop and waits until it says that it has.
func stop(sh chan chan struct{}, what string) {
	v := make(chan struct{})
	sh <- v
	if vv.Symbolic() {
		<-v // a service that never answers is a deadlock
		return
	}
	select {
	case <-v:
	case <-time.After(5 * time.Second):
		vv.Fail(what + " does not stop")
	}
}

// stored loads what a new server would load: from the backup copy if bkp is set.
func stored(bs blobstore.Store, bkp bool) *rankdb.Manager {
	m, err := rankdb.NewManager(bs, "set")
	vv.Assert(err == nil, "creating the manager failed")
	if bkp {
		m, err = rankdb.NewManager(bs, "nothing here")
		vv.Assert(err == nil, "creating the manager failed")
		m.Backup = blobstore.StoreWithSet(bs, "bset")
	}
	vv.Assert(m.LoadLists(ctx, nil) == nil, "C33: the saved registry cannot be loaded")
	settle()
	return m
}

// plain adds a list of arbitrary id, set and element to a manager with the lists of a specification.
func plain(k string, m *rankdb.Manager, have []spec) []spec {
	s := spec{id: vv.Str(k+"id", 1), set: vv.Str(k+"set", 1), split: 2000, merge: 500}
	for _, o := range have {
		vv.Assume(vv.Not(eq(o.id, s.id)))
	}
	e := rankdb.Element{ID: rankdb.ElementID(vv.U32(k + "eid")), Score: vv.U64(k + "score"), TieBreaker: vv.U32(k + "tie"), Updated: 1234, Payload: []byte(k)}
	s.els = rankdb.Elements{e}
	l, err := rankdb.NewList(ctx, rankdb.ListID(s.id), s.set, m.Storage, rankdb.WithListOption.MergeSplitSize(500, 2000), rankdb.WithListOption.LoadIndex(false), rankdb.WithListOption.Populate(rankdb.Elements{e}))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	return append(have[:len(have):len(have)], s)
}

// The registry of a manager changes between the ticks of the interval saver, while any of the writes fail.
func VH_C33_saver() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	want := plain("a", m, nil)
	switch every := vv.Choose("every", 4); every {
	case 0: // no backup storage
		m.BackupEvery = 1
	default: // backups disabled, or after every or every other save
		m.BackupEvery = every - 1
		m.Backup = blobstore.StoreWithSet(w, "bset")
	}
	backups := m.Backup != nil && m.BackupEvery > 0
	failing := vv.U8("failing") // a bit per write of the registry or its backup
	n := 0
	w.fail = func(op, set, key string) bool {
		if op != "set" || key != "lists" && key != "lists-backup" {
			return false
		}
		n++
		return failing>>uint(n-1)&1 == 1
	}
	sh := make(chan chan struct{}, 1)
	m.StartIntervalSaver(ctx, tick(), sh)
	time.Sleep(tick() / 2)
	rounds := sz(3, 5)
	since, first := 0, true
	for i := 0; i < rounds; i++ {
		switch vv.Choose("change", 2) {
		case 0:
			want = plain(fmt.Sprint("b", i), m, want)
		case 1:
			if len(want) > 0 {
				vv.Assert(m.DeleteList(ctx, rankdb.ListID(want[0].id)) == nil, "deleting a list failed")
				want = want[1:]
			}
		}
		was, wasb := w.writes("set/lists"), w.writes("bset/lists-backup")
		before := n
		time.Sleep(tick())
		ok := w.writes("set/lists") - was
		okb := w.writes("bset/lists-backup") - wasb
		vv.Assert(n > before, "C33: the registry is not saved at the interval")
		vv.Assert(ok <= 1 && okb <= 1 && n-before <= 2, "C33: the registry is saved several times per interval")
		vv.Assert(backups || n-before == 1, "C33: a backup is written although it is disabled")
		since++
		if backups && n-before == 1 {
			vv.Assert(since < m.BackupEvery || first && since == m.BackupEvery, "C33: the registry is not backed up every n saves")
		} else if backups {
			vv.Assert(since >= m.BackupEvery, "C33: the registry is backed up more often than every n saves")
			since, first = 0, false
		}
		if ok == 1 {
			holds(stored(mem, false), want, m, "C33: saved registry")
			vv.Cover("saved")
		}
		if okb == 1 {
			holds(stored(mem, true), want, m, "C33: backup of the registry")
			vv.Cover("backup")
		}
	}
	was := w.writes("set/lists")
	before := n
	want = plain("z", m, want)
	stop(sh, "C33: interval saver")
	vv.Assert(n > before, "C33: the registry is not saved at shutdown")
	if w.writes("set/lists") > was {
		holds(stored(mem, false), want, m, "C33: registry after shutdown")
		vv.Cover("shutdown")
	}
	n2 := n
	time.Sleep(2 * tick())
	vv.Assert(n == n2, "C33: the registry is saved after the shutdown")
	holds(m, want, nil, "C33: registry in use")
}

// A saver with interval 0 saves at shutdown only; a pruner with interval 0 never prunes but stops.
func VH_C33_never() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	want := plain("b", m, plain("a", m, nil))
	sh, sh2 := make(chan chan struct{}, 1), make(chan chan struct{}, 1)
	m.StartIntervalSaver(ctx, 0, sh)
	m.StartListPruner(ctx, 0, sh2)
	gets := w.gets
	time.Sleep(3 * tick())
	vv.Assert(w.writes("set/lists") == 0, "C33: the registry is saved although that is disabled")
	for _, s := range want {
		l, ok := m.Lists.ByID(rankdb.ListID(s.id))
		vv.Assert(ok, "a list is missing")
		n, err := l.Len(ctx, w)
		vv.Assert(err == nil && n == 1, "C33: list after the time passed")
	}
	vv.Assert(w.gets == gets, "C33: lists are released although that is disabled")
	stop(sh2, "C33: list pruner")
	stop(sh, "C33: interval saver")
	holds(stored(mem, false), want, m, "C33: registry after shutdown")
	vv.Cover("never")
}

// top returns the whole list in ranking order.
func topOf(l *rankdb.List, bs blobstore.Store, what string) rankdb.Elements {
	r, err := l.GetRankTop(ctx, bs, 0, 100)
	vv.Assert(err == nil || err == rankdb.ErrOffsetOutOfBounds, what+": list cannot be read")
	return r
}

// content compares a list with the elements it should have, in any order.
func content(l *rankdb.List, bs blobstore.Store, want rankdb.Elements, what string) {
	vv.Assert(l.Verify(ctx, bs) == nil, what+": list does not verify")
	vv.Assert(l.VerifyElements(ctx, bs) == nil, what+": elements do not verify")
	got := topOf(l, bs, what)
	vv.Assert(len(got) == len(want), what+": elements lost or added")
	for _, e := range want {
		found := false
		for _, g := range got {
			found = vv.Or(found, vv.And(g.ID == e.ID, g.Score == e.Score, g.TieBreaker == e.TieBreaker))
		}
		vv.Assert(found, what+": an element is missing or changed")
	}
}

func arbitrary(p string, n int) rankdb.Elements {
	var r rankdb.Elements
	for i := 0; i < n; i++ {
		e := rankdb.Element{ID: rankdb.ElementID(vv.U32(fmt.Sprint(p, "id", i))), Score: vv.U64(fmt.Sprint(p, "score", i)), TieBreaker: vv.U32(fmt.Sprint(p, "tie", i)), Updated: 100}
		for _, o := range r {
			vv.Assume(o.ID != e.ID)
		}
		r = append(r, e)
	}
	return r
}

func clone(e rankdb.Elements) rankdb.Elements { return append(rankdb.Elements(nil), e...) }

// The pruner runs while elements are inserted, updated, deleted and read, and once with nothing else going on.
func VH_C33_pruner() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	li := vv.Choose("loadindex", 2) == 1
	els := arbitrary("e", 2)
	l, err := rankdb.NewList(ctx, "l", "s", w, rankdb.WithListOption.MergeSplitSize(500, 2000), rankdb.WithListOption.LoadIndex(li), rankdb.WithListOption.Populate(clone(els)))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	sh := make(chan chan struct{}, 1)
	vv.Schedules(1)
	m.StartListPruner(ctx, tick(), sh)
	time.Sleep(tick())
	// At the first tick: an operation competes with the pruner.
	switch vv.Choose("op", 4) {
	case 0:
		e := arbitrary("n", 1)
		for _, o := range els {
			vv.Assume(o.ID != e[0].ID)
		}
		els = append(clone(els), e...)
		err = l.Insert(ctx, w, clone(e))
	case 1:
		e := els[1]
		e.Score, e.Updated = vv.U64("score"), 200
		els = rankdb.Elements{els[0], e}
		_, err = l.UpdateElements(ctx, w, rankdb.Elements{e}, 0, false)
	case 2:
		err = l.DeleteElements(ctx, w, []rankdb.ElementID{els[0].ID})
		els = els[1:]
	case 3:
		var n int
		n, err = l.Len(ctx, w)
		vv.Assert(err != nil || n == len(els), "C33: wrong length while pruning")
	}
	vv.Assert(err == nil, "C33: operation failed while pruning")
	vv.Schedules(0)
	content(l, w, els, "C33: list while pruning")
	time.Sleep(tick() * 3 / 2)
	gets := w.gets
	n, err := l.Len(ctx, w)
	vv.Assert(err == nil && n == len(els), "C33: wrong length after pruning")
	vv.Assert(li == (w.gets == gets), "C33: segments are released iff the list does not ask to keep them loaded")
	content(l, w, els, "C33: list after pruning")
	stop(sh, "C33: list pruner")
	vv.Cover("pruned")
}

// The pruner goes over 3 lists any of which asks to keep its segments loaded, in any order.
func VH_C33_prunes() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	keep := vv.Choose("keep", 8)
	var ls [3]*rankdb.List
	for i := range ls {
		ls[i], err = rankdb.NewList(ctx, rankdb.ListID(rune('a'+i)), "s", w, rankdb.WithListOption.MergeSplitSize(500, 2000), rankdb.WithListOption.LoadIndex(keep>>i&1 == 1),
			rankdb.WithListOption.Populate(arbitrary("e"+string(rune('0'+i)), 1)))
		vv.Assert(err == nil, "creating a list failed")
		m.Lists.Add(ls[i])
	}
	vv.MapOrder(6)
	sh := make(chan chan struct{}, 1)
	m.StartListPruner(ctx, tick(), sh)
	time.Sleep(tick() * 5 / 2)
	for i, l := range ls {
		gets := w.gets
		n, err := l.Len(ctx, w)
		vv.Assert(err == nil && n == 1, "C33: wrong length after pruning")
		vv.Assert((keep>>i&1 == 1) == (w.gets == gets), "C33: the segments of every list are released iff it does not ask to keep them loaded")
	}
	stop(sh, "C33: list pruner")
	vv.Cover("pruned")
}

// The splitter handles the request of an update that outgrew a segment, while another operation runs; a write of the
// splitter may fail, then another insert tries again.
func VH_C33_splitter() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	els := arbitrary("e", 1)
	l, err := rankdb.NewList(ctx, "l", "s", w, rankdb.WithListOption.MergeSplitSize(0, 2), rankdb.WithListOption.Populate(clone(els)))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	sh := make(chan chan struct{}, 1)
	m.StartListSplitter(ctx, w, sh)
	add := func(p string) {
		e := arbitrary(p, 2)
		vv.Assume(e[0].Score < e[1].Score)
		for _, o := range els {
			for i := range e {
				vv.Assume(vv.And(o.ID != e[i].ID, o.Score != e[i].Score))
			}
		}
		_, err := l.UpdateElements(ctx, w, clone(e), 0, false)
		vv.Assert(err == nil, "C33: update failed")
		els = append(clone(els), e...)
	}
	settle()
	vv.Schedules(1)
	add("n")
	switch vv.Choose("op", sz(2, 3)) {
	case 0:
		err = l.DeleteElements(ctx, w, []rankdb.ElementID{els[0].ID})
		els = els[1:]
	case 1:
		_, err = l.Len(ctx, w)
	case 2:
		e := els[1]
		e.Score, e.Updated = vv.U64("score"), 200
		_, err = l.UpdateElements(ctx, w, rankdb.Elements{e}, 0, false)
		els = rankdb.Elements{els[0], e, els[2]}
	}
	vv.Assert(err == nil, "C33: operation failed while splitting")
	vv.Schedules(0)
	settle()
	content(l, w, els, "C33: list after splitting")
	if len(els) == 3 {
		s, err := l.Stats(ctx, w, false)
		vv.Assert(err == nil && s.Elements == 3, "C33: wrong statistics")
		vv.Assert(vv.Or(s.Segments > 1, els[0].Score == els[1].Score, els[1].Score == els[2].Score), "C33: a segment that outgrew the split size is not split")
		vv.Cover("split")
	}
	stop(sh, "C33: list splitter")
}

// A write fails while the splitter works; the list keeps its elements and the next request splits it.
func VH_C33_splitfail() {
	mem := memLike()
	w := &watched{Store: mem}
	m, err := rankdb.NewManager(w, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	els := arbitrary("e", 1)
	l, err := rankdb.NewList(ctx, "l", "s", w, rankdb.WithListOption.MergeSplitSize(0, 2), rankdb.WithListOption.Populate(clone(els)))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	add := func(p string) {
		e := arbitrary(p, 2)
		vv.Assume(e[0].Score < e[1].Score)
		for _, o := range els {
			for i := range e {
				vv.Assume(vv.And(o.ID != e[i].ID, o.Score != e[i].Score))
			}
		}
		_, err := l.UpdateElements(ctx, w, clone(e), 0, false)
		vv.Assert(err == nil, "C33: update failed")
		els = append(clone(els), e...)
	}
	add("n") // requests a split, nobody takes it yet
	k, at := 0, vv.Int("fail", 0, sz(9, 14))
	w.fail = func(op, set, key string) bool { k++; return op != "delete" && k-1 == at }
	sh := make(chan chan struct{}, 1)
	m.StartListSplitter(ctx, w, sh)
	settle()
	vv.Assert(k > 0, "C33: the splitter does not take requests")
	failed := k > at
	w.fail = nil
	if failed {
		// A list may be inconsistent after a failed write, but can be repaired.
		vv.Assert(l.Repair(ctx, w, false) == nil, "C33: the list cannot be repaired after a failed split")
		got := topOf(l, w, "C33: list after a failed split")
		for i, g := range got {
			for _, o := range got[:i] {
				vv.Assert(o.ID != g.ID, "C33: duplicate element after a failed split")
			}
			found := false
			for _, e := range els {
				found = vv.Or(found, vv.And(g.ID == e.ID, g.Score == e.Score, g.TieBreaker == e.TieBreaker))
			}
			vv.Assert(found, "C33: unknown element after a failed split")
		}
		els = got
		vv.Cover("failed")
	}
	content(l, w, els, "C33: list after a failed split")
	// The splitter goes on with other lists.
	l2, err := rankdb.NewList(ctx, "l2", "s", w, rankdb.WithListOption.MergeSplitSize(0, 2), rankdb.WithListOption.Populate(rankdb.Elements{{ID: 1, Score: 10}}))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l2)
	_, err = l2.UpdateElements(ctx, w, rankdb.Elements{{ID: 2, Score: 20}, {ID: 3, Score: 30}}, 0, false)
	vv.Assert(err == nil, "C33: update failed")
	settle()
	st, err := l2.Stats(ctx, w, false)
	vv.Assert(err == nil && st.Elements == 3 && st.Segments > 1, "C33: lists are not split after a failed split")
	stop(sh, "C33: list splitter")
	vv.Cover("splitfail")
}

// Without anyone to take requests, requests to split never block an operation.
func VH_L33_queue() {
	mem := memLike()
	m, err := rankdb.NewManager(mem, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	l, err := rankdb.NewList(ctx, "l", "s", mem, rankdb.WithListOption.MergeSplitSize(0, 2), rankdb.WithListOption.Populate(arbitrary("e", 1)))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	for i := 0; i < 3; i++ {
		e := rankdb.Elements{{ID: rankdb.ElementID(1<<40 + uint64(i)), Score: vv.U64(fmt.Sprint("s", i))}}
		_, err := l.UpdateElements(ctx, mem, e, 0, false)
		vv.Assert(err == nil, "C33: update failed")
	}
	n, err := l.Len(ctx, mem)
	vv.Assert(err == nil && n == 4, "C33: elements lost when the request queue is full")
	vv.Cover("full")
}
