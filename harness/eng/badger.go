package eng

import (
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/dgraph-io/badger"
)

func openBadger(txn int) (*badgerstore.BadgerStore, *faults) {
	f := &faults{failAt: -1, off: true}
	st, err := badgerstore.New(badger.Options{Ask: f.fail, TxnSize: txn})
	if err != nil {
		panic(err)
	}
	f.off = false
	return st, f
}

// stored checks what is in the engine: every key holds what it can hold.
func (b *box) stored(find func(p pair) ([]byte, bool), n int) {
	cnt := 0
	for _, k := range b.keys {
		v, ok := find(k.p)
		if !ok {
			b.narrow(k, func(v val) bool { return v.gone }, "a blob is not in the engine after the store was closed")
			continue
		}
		cnt++
		b.narrow(k, func(w val) bool { return !w.gone && same(w.b, v) }, "the engine does not have the last value after the store was closed")
	}
	vv.Assert(cnt == n, b.msg("the engine has blobs that were never stored"))
}

// Histories of 4 operations on 2 keys, the write queue holds 2 blobs (run with a smaller queue),
// transactions hold 1 write or any number, any one engine call fails, then the store is closed.
func VH_C30_badger() {
	st, f := openBadger(vv.Choose("transaction size", 2))
	b := newBox("badger", st, f, pair{"s", "ab"}, pair{"sa", "b"})
	f.failAt = vv.Choose("fails", sz(10, 14)) - 1
	n := 4
	for i := 0; i < n; i++ {
		b.step(i)
	}
	had := f.op
	err := st.Close()
	if f.op != had {
		vv.Assert(err != nil, b.msg("a close that failed in the engine reports no error"))
		vv.Cover("close failed")
	} else {
		vv.Assert(err == nil, b.msg("close fails for no reason"))
	}
	db := badger.Last()
	vv.Assert(db.OpenTxns() == 0, b.msg("a transaction is left open"))
	if err == nil {
		vv.Assert(db.Closed, b.msg("the engine is not closed"))
		b.stored(func(p pair) ([]byte, bool) {
			i := db.Find(p.set + "/" + p.key)
			if i < 0 {
				return nil, false
			}
			return db.Data[i].V, true
		}, len(db.Data))
		vv.Cover("closed")
	}
	if f.op != "" {
		vv.Cover("failed " + f.op)
	}
}

// Two operations at the same time, one of which fills the queue.
func VH_C30_badgerconc() {
	st, f := openBadger(0)
	b := newBox("badger", st, f, pair{"s", "ab"}, pair{"sa", "b"})
	k, o := b.keys[0].p, b.keys[1].p
	b.set(b.keys[0], 1)
	b.set(b.keys[1], 1) // flushed
	if vv.Choose("queued", 2) == 1 {
		b.set(b.keys[1], 1)
	}
	first := b.keys[0].may[0].b
	second := []byte{vv.U8("second")}
	vv.Schedules(sz(2, 4))
	done := make(chan error)
	go func() { done <- st.Set(ctx, k.set, k.key, append([]byte{}, second...)) }()
	switch vv.Choose("other", 3) {
	case 0:
		got, err := st.Get(ctx, k.set, k.key)
		vv.Assert(err == nil, b.msg("a read during a write fails"))
		vv.Assert(vv.Or(same(got, first), same(got, second)), b.msg("a read during a write returns neither value"))
		b.keys[0].may = []val{{b: second}}
		vv.Cover("read")
	case 1:
		vv.Assert(st.Delete(ctx, k.set, k.key) == nil, b.msg("a delete during a write fails"))
		b.keys[0].may = []val{{b: second}, {gone: true}}
		vv.Cover("delete")
	case 2:
		v := []byte{vv.U8("third")}
		vv.Assert(st.Set(ctx, o.set, o.key, append([]byte{}, v...)) == nil, b.msg("a write during a write fails"))
		b.keys[0].may = []val{{b: second}}
		b.keys[1].may = []val{{b: v}}
		vv.Cover("write")
	}
	vv.Assert(<-done == nil, b.msg("a write fails for no reason"))
	b.all()
	vv.Assert(st.Close() == nil, b.msg("close fails for no reason"))
	db := badger.Last()
	b.stored(func(p pair) ([]byte, bool) {
		i := db.Find(p.set + "/" + p.key)
		if i < 0 {
			return nil, false
		}
		return db.Data[i].V, true
	}, len(db.Data))
}
