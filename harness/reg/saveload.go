package reg

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/vv"
)

type spec struct {
	id, set, mv  string
	meta         int // 0 nil, 1 one entry, 2 two entries
	split, merge int
	load         bool
	els          rankdb.Elements
}

// registry fills a manager with n lists of arbitrary ids, sets, metadata, sizes and one element each.
func registry(p string, n int, m *rankdb.Manager) []spec {
	var r []spec
	for i := 0; i < n; i++ {
		k := fmt.Sprint(p, i)
		s := spec{id: vv.Str(k+"id", 1), set: vv.Str(k+"set", 1)}
		for _, o := range r {
			vv.Assume(vv.Not(eq(o.id, s.id)))
		}
		s.merge = vv.Int(k+"merge", 1, 1<<20)
		s.split = vv.Int(k+"split", 2, 1<<30)
		vv.Assume(s.merge < s.split)
		s.load = vv.Choose(k+"load", 2) == 1
		s.meta = vv.Choose(k+"meta", 3)
		var md map[string]string
		if s.meta > 0 {
			s.mv = vv.Str(k+"val", 1)
			md = map[string]string{"a": s.mv}
			if s.meta > 1 {
				md["b"] = ""
			}
		}
		opts := []rankdb.ListOption{
			rankdb.WithListOption.MergeSplitSize(s.merge, s.split),
			rankdb.WithListOption.LoadIndex(s.load),
			rankdb.WithListOption.Metadata(md),
		}
		e := rankdb.Element{ID: rankdb.ElementID(vv.U32(k + "eid")), Score: vv.U64(k + "score"), TieBreaker: vv.U32(k + "tie"), Updated: 1234, Payload: []byte(k)}
		s.els = rankdb.Elements{e}
		l, err := rankdb.NewList(ctx, rankdb.ListID(s.id), s.set, m.Storage, append(opts, rankdb.WithListOption.Populate(rankdb.Elements{e}))...)
		vv.Assert(err == nil, "creating a list failed")
		m.Lists.Add(l)
		r = append(r, s)
	}
	return r
}

// holds checks that a manager has exactly the lists of the specification.
func holds(m *rankdb.Manager, want []spec, orig *rankdb.Manager, what string) {
	vv.Assert(len(m.Lists.All()) == len(want), what+": wrong number of lists")
	for _, s := range want {
		l, ok := m.Lists.ByID(rankdb.ListID(s.id))
		vv.Assert(ok && l != nil, what+": a list is missing")
		vv.Assert(l.ID == rankdb.ListID(s.id) && l.Set == s.set, what+": a list has a wrong id or set")
		vv.Assert(l.SplitSize == s.split && l.MergeSize == s.merge && l.LoadIndex == s.load, what+": a list has other settings")
		vv.Assert(len(l.Metadata) == s.meta, what+": a list has other metadata")
		if s.meta > 0 {
			vv.Assert(eq(l.Metadata["a"], s.mv), what+": a list has other metadata")
		}
		if s.meta > 1 {
			v, ok := l.Metadata["b"]
			vv.Assert(ok && v == "", what+": a list has other metadata")
		}
		if orig != nil {
			o, ok := orig.Lists.ByID(rankdb.ListID(s.id))
			vv.Assert(ok && l.Scores == o.Scores && l.Index == o.Index, what+": a list refers to other content")
		}
		e := s.els[0]
		r, err := l.GetElements(ctx, m.Storage, []rankdb.ElementID{e.ID}, 0)
		vv.Assert(err == nil && len(r) == 1, what+": the content of a list is not available")
		vv.Assert(r[0].ID == e.ID && r[0].Score == e.Score && r[0].TieBreaker == e.TieBreaker, what+": a list has other content")
	}
}

func settle() {
	// Lists with LoadIndex load in the background.
	if vv.Symbolic() {
		time.Sleep(time.Millisecond)
	} else {
		time.Sleep(5 * time.Millisecond)
	}
}

// A registry of 0-2 lists with arbitrary settings is saved and loaded by another manager over the same storage,
// which already may hold a list.
func VH_C19_roundtrip() {
	bs := memLike()
	m, err := rankdb.NewManager(bs, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	n := vv.Choose("lists", sz(3, 4))
	want := registry("l", n, m)
	bkp := vv.Choose("backup", 2) == 1
	if bkp {
		m.Backup = blobstore.StoreWithSet(bs, "bset")
	}
	vv.Assert(m.SaveLists(ctx, bkp) == nil, "C19: saving the registry failed without a storage failure")
	holds(m, want, nil, "C19: registry after saving")
	m2, err := rankdb.NewManager(bs, "set")
	vv.Assert(err == nil, "creating the manager failed")
	if vv.Choose("old", 2) == 1 {
		vv.Assert(m2.NewLists(nil) == nil, "creating the manager failed")
		m2.Lists.Add(mkList2(bs, "old!"))
	}
	if bkp {
		m2.Backup = blobstore.StoreWithSet(bs, "bset")
		if vv.Choose("lost", 2) == 1 {
			vv.Assert(bs.Delete(ctx, "set", "lists") == nil, "delete failed")
		}
	}
	err = m2.LoadLists(ctx, nil)
	vv.Assert(err == nil, "C19: loading a saved registry failed")
	settle()
	holds(m2, want, m, "C19: loaded registry")
	vv.Cover("loaded")
}

func mkList2(bs blobstore.Store, id string) *rankdb.List {
	l, err := rankdb.NewList(ctx, rankdb.ListID(id), "oldset", bs)
	vv.Assert(err == nil, "creating a list failed")
	return l
}

func memLike() blobstore.Store { return memstore.NewMemStore() }

var errBroken = errors.New("broken store")

// override serves one key with given content or error.
type override struct {
	blobstore.Store
	set, key string
	val      []byte
	err      error
	on       bool
}

func (o *override) Get(c context.Context, set, key string) ([]byte, error) {
	if o.on && set == o.set && key == o.key {
		return o.val, o.err
	}
	return o.Store.Get(c, set, key)
}

// damage is one state of a stored copy. ok tells whether it can be loaded, missing whether it is not there.
func damage(p string, o *override, blob []byte) (ok, missing bool) {
	o.on = true
	switch vv.Choose(p, 8) {
	case 0:
		o.on = false
		return true, false
	case 1:
		o.err = blobstore.ErrBlobNotFound
		return false, true
	case 2:
		o.err = errBroken
	case 3:
		o.val = []byte{}
	case 4:
		cut := vv.Choose(p+"cut", len(blob))
		if !vv.Symbolic() {
			cut = len(blob) * cut / 40
			if cut >= len(blob)-8 {
				cut = len(blob) - 9
			}
		}
		// Cutting the end mark, the checksum or nothing leaves the content readable.
		vv.Assume(cut < len(blob)-1)
		o.val = blob[:cut]
	case 5:
		b := append([]byte(nil), blob...)
		b[0] = vv.U8(p + "first")
		vv.Assume(b[0] != blob[0])
		o.val = b
	case 6:
		// Uncompressed, of another version.
		v := vv.U8(p + "version")
		vv.Assume(v != 1)
		o.val = []byte{7, v, 0xc3}
	case 7:
		// Uncompressed, of whole and partial lists without the end mark.
		o.val = []byte{7, 1}
		for i := vv.Choose(p+"lists", 3); i > 0; i-- {
			var err error
			o.val, err = (&rankdb.List{ID: "both", Set: "s", SplitSize: 20, MergeSize: 10, Scores: "sc", Index: "ix"}).MarshalMsg(o.val)
			vv.Assert(err == nil, "encoding a list failed")
		}
		o.val = o.val[:len(o.val)-vv.Choose(p+"missing", 2)]
	}
	return false, false
}

// The master copy and the backup copy of a registry, which differ, are each intact, missing, unreadable, empty, cut
// short, or of another kind or version.
func VH_C19_fallback() {
	mem := memLike()
	m, err := rankdb.NewManager(mem, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	m.Backup = blobstore.StoreWithSet(mem, "bset")
	m.Lists.Add(mkList2(mem, "both"))
	vv.Assert(m.SaveLists(ctx, true) == nil, "C19: saving the registry failed without a storage failure")
	m.Lists.Add(mkList2(mem, "only master"))
	vv.Assert(m.SaveLists(ctx, false) == nil, "C19: saving the registry failed without a storage failure")
	mb, err := mem.Get(ctx, "set", "lists")
	vv.Assert(err == nil, "the registry is not stored")
	bb, err := mem.Get(ctx, "bset", "lists-backup")
	vv.Assert(err == nil, "the backup of the registry is not stored")

	om := &override{Store: mem, set: "set", key: "lists"}
	ob := &override{Store: mem, set: "bset", key: "lists-backup"}
	mok, mmissing := damage("master", om, mb)
	m2, err := rankdb.NewManager(om, "set")
	vv.Assert(err == nil, "creating the manager failed")
	bok := false
	if vv.Choose("backup", 2) == 1 {
		m2.Backup = blobstore.StoreWithSet(ob, "bset")
		bok, _ = damage("backup", ob, bb)
	}
	err = m2.LoadLists(ctx, nil)
	switch {
	case mok:
		vv.Assert(err == nil, "C19: loading an intact registry failed")
		_, a := m2.Lists.ByID("both")
		_, b := m2.Lists.ByID("only master")
		vv.Assert(a && b && len(m2.Lists.All()) == 2, "C19: loading an intact registry gives other lists")
		vv.Cover("master")
	case bok:
		vv.Assert(err == nil, "C19: the backup of the registry was not used")
		_, a := m2.Lists.ByID("both")
		vv.Assert(a && len(m2.Lists.All()) == 1, "C19: loading the backup of the registry gives other lists")
		vv.Cover("backup")
	default:
		vv.Assert(err != nil, "C19: loading a registry that cannot be read reports success")
		vv.Assert(err != blobstore.ErrBlobNotFound || mmissing, "C19: an unreadable registry is reported as not existing")
		vv.Cover("failed")
	}
}

// limited fails every write once more than n bytes were to be written.
type limited struct {
	n, got int
	failed bool
}

func (l *limited) Write(p []byte) (int, error) {
	if l.failed || l.got+len(p) > l.n {
		l.failed = true
		return 0, errBroken
	}
	l.got += len(p)
	return len(p), nil
}

// Saving a registry to a writer that fails after any number of bytes, or to storage that refuses it, reports the failure.
func VH_C19_savefail() {
	m, bs := manager()
	for i := 0; i < vv.Choose("lists", 3); i++ {
		m.Lists.Add(mkList2(bs, fmt.Sprint("list", i)))
	}
	if vv.Choose("kind", 2) == 0 {
		w := &limited{n: vv.Choose("room", 45)}
		if !vv.Symbolic() {
			for i := 0; i < 500; i++ {
				w := &limited{n: i}
				err := m.Lists.Save(ctx, w)
				vv.Assert(err != nil || !w.failed, "C19: saving the registry to a failing writer reports success")
			}
		}
		err := m.Lists.Save(ctx, w)
		vv.Assert(err != nil || !w.failed, "C19: saving the registry to a failing writer reports success")
		if w.failed {
			vv.Cover("failed")
		}
		return
	}
	bad := &refuse{Store: bs}
	m.Storage = bad
	vv.Assert(m.SaveLists(ctx, false) != nil, "C19: saving the registry to failing storage reports success")
	vv.Cover("refused")
}

type refuse struct{ blobstore.Store }

func (r *refuse) Set(c context.Context, set, key string, b []byte) error { return errBroken }
