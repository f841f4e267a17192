package lists

import (
	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// backupOf is the serialized backup of a list.
func backupOf(l *rankdb.List, st *store) ([]byte, error) {
	wm := rankdb.NewWriterMsg()
	defer wm.Close()
	if err := l.Backup(ctx, st, wm); err != nil {
		return nil, err
	}
	return append([]byte(nil), wm.Buffer().Bytes()...), nil
}

var backupLayouts = []layout{
	lay([]int{0}, 0),
	lay([]int{1, 1}, 2),
	lay([]int{1, 0, 1}, 1, 1),
	lay([]int{2}, 0, 2),
	lay([]int{2, 1}, 3),
}

// VH_C13_restore: backup of an arbitrary valid list and restore, under its own id over the existing storage, under its
// own id into an empty store, or under a new id.
func VH_C13_restore() {
	st := newStore()
	s := pickSizes(sizes{2000, 500}, sizes{2, 1})
	w := build("a", st, pick(backupLayouts[:sz(4, 5)]...), s.split, s.merge)
	w.l.Metadata = map[string]string{"k": "v"}
	w.l.LoadIndex = vv.Choose("loadindex", 2) == 1
	if vv.Choose("warm", 2) == 1 {
		li := w.l.LoadIndex
		w.warm()
		w.l.Metadata = map[string]string{"k": "v"}
		w.l.LoadIndex = li
	}
	li := w.l.LoadIndex
	b, err := backupOf(w.l, st)
	vv.Assert(err == nil, "backup failed without a storage failure")
	unchanged(st, w.l, w.els, "backup")
	before := st.snapshot()
	mode := vv.Choose("mode", 3)
	dst := st
	var nid *rankdb.ListID
	if mode == 1 {
		dst = newStore()
	}
	if mode == 2 {
		id := rankdb.ListID("restored")
		nid = &id
	}
	var c rankdb.Cache
	if vv.Choose("cache", 2) == 1 {
		c = &mapCache{}
	}
	l, err := rankdb.RestoreList(ctx, dst, rankdb.NewReaderMsgp(b), c, nid)
	vv.Assert(err == nil && l != nil, "restore failed without a storage failure")
	want := rankdb.ListID("a")
	if nid != nil {
		want = "restored"
	}
	vv.Assert(l.ID == want, "restored list has a wrong id")
	vv.Assert(l.Set == set && l.SplitSize == s.split && l.MergeSize == s.merge && l.LoadIndex == li, "restored list has other settings")
	vv.Assert(len(l.Metadata) == 1 && l.Metadata["k"] == "v", "restored list has other metadata")
	unchanged(dst, l, w.els, "restore")
	agree(l, dst, w.els, "restored list")
	vv.Assert(l.Verify(ctx, dst) == nil && l.VerifyElements(ctx, dst) == nil, "restored list does not verify")
	if mode == 2 {
		vv.Assert(l.Scores != w.l.Scores && l.Index != w.l.Index, "restored list shares storage with the original")
		for i := range before {
			k := dst.find(before[i].set, before[i].key)
			vv.Assert(k >= 0 && vvlib.SamePayload(dst.b[k].val, before[i].val), "restore under a new id changed storage of the original")
		}
		tidy(dst, "restore", l, w.l)
	} else {
		tidy(dst, "restore", l)
	}
	vv.Cover("restored")
}

// VH_C13_use: a restored list is a working list, independent of the original.
func VH_C13_use() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{0}, 0)), 2000, 500)
	b, err := backupOf(w.l, st)
	vv.Assert(err == nil, "backup failed without a storage failure")
	id := rankdb.ListID("restored")
	l, err := rankdb.RestoreList(ctx, st, rankdb.NewReaderMsgp(b), nil, &id)
	vv.Assert(err == nil && l != nil, "restore failed without a storage failure")
	up := newElems("u", 1)
	x, y := l, w.l
	if vv.Choose("which", 2) == 1 {
		x, y = w.l, l
	}
	_, err = x.UpdateElements(ctx, st, rankdb.Elements{up[0]}, 0, false)
	vv.Assert(err == nil, "update failed without a storage failure")
	r := expect(st, x, merged(w.els, up), "update after restore")
	agree(x, st, r.els, "update after restore")
	unchanged(st, y, w.els, "other list after update")
	agree(y, st, w.els, "other list after update")
	vv.Cover("used")
}

// VH_C13_truncated: a backup truncated anywhere, or with another version, is refused.
func VH_C13_truncated() {
	st := newStore()
	w := build("a", st, pick(lay([]int{1, 1}, 2), lay([]int{0}, 0)), 2000, 500)
	b, err := backupOf(w.l, st)
	vv.Assert(err == nil, "backup failed without a storage failure")
	if vv.Choose("damage", 2) == 0 {
		cut := vv.Choose("cut", len(b))
		if !vv.Symbolic() {
			// The symbolic run cuts between encoded values, here every byte position is tried.
			for i := range b {
				id := rankdb.ListID("restored")
				_, err = rankdb.RestoreList(ctx, newStore(), rankdb.NewReaderMsgp(append([]byte(nil), b[:i]...)), nil, &id)
				vv.Assert(err != nil, "restore of a damaged backup reports success")
			}
		}
		b = b[:cut]
	} else {
		v := vv.U8("version")
		vv.Assume(v != b[0])
		b[0] = v
	}
	id := rankdb.ListID("restored")
	_, err = rankdb.RestoreList(ctx, newStore(), rankdb.NewReaderMsgp(b), nil, &id)
	vv.Assert(err != nil, "restore of a damaged backup reports success")
	vv.Cover("refused")
}
