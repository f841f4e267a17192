// Package bkp holds the harnesses of backup jobs and restores of sets of lists.
package bkp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/klauspost/compress/zstd"
)

var (
	ctx       = context.Background()
	errBroken = errors.New("broken")
)

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

// store is a memory store that can refuse to read or write one set.
type store struct {
	blobstore.Store
	badGet, badSet string
	keys           []string // set/key of every blob
}

func (s *store) Get(c context.Context, set, key string) ([]byte, error) {
	if s.badGet != "" && set == s.badGet {
		return nil, errBroken
	}
	return s.Store.Get(c, set, key)
}

func (s *store) Set(c context.Context, set, key string, b []byte) error {
	if s.badSet != "" && set == s.badSet {
		return errBroken
	}
	err := s.Store.Set(c, set, key, b)
	if err == nil {
		s.drop(set + "/" + key)
		s.keys = append(s.keys, set+"/"+key)
	}
	return err
}

func (s *store) Delete(c context.Context, set, key string) error {
	err := s.Store.Delete(c, set, key)
	if err == nil {
		s.drop(set + "/" + key)
	}
	return err
}

func (s *store) drop(k string) {
	for i := range s.keys {
		if s.keys[i] == k {
			s.keys = append(s.keys[:i], s.keys[i+1:]...)
			return
		}
	}
}

// blobs is the number of blobs in a set.
func (s *store) blobs(set string) int {
	n := 0
	for _, k := range s.keys {
		if len(k) > len(set) && k[:len(set)+1] == set+"/" {
			n++
		}
	}
	return n
}

func newManager() (*rankdb.Manager, *store) {
	st := &store{Store: memstore.NewMemStore()}
	m, err := rankdb.NewManager(st, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	return m, st
}

// elem is one arbitrary element.
func elem(p string) rankdb.Element {
	return rankdb.Element{ID: rankdb.ElementID(vv.U32(p + "id")), Score: vv.U64(p + "score"), TieBreaker: vv.U32(p + "tie"), Updated: 77, Payload: []byte(p)}
}

func addList(m *rankdb.Manager, id, set string, els ...rankdb.Element) *rankdb.List {
	l, err := rankdb.NewList(ctx, rankdb.ListID(id), set, m.Storage,
		rankdb.WithListOption.Populate(append([]rankdb.Element(nil), els...)), rankdb.WithListOption.LoadIndex(false))
	vv.Assert(err == nil, "creating a list failed")
	m.Lists.Add(l)
	return l
}

// has checks that a list exists with exactly the given content.
func has(m *rankdb.Manager, id, set string, els []rankdb.Element, what string) {
	l, ok := m.Lists.ByID(rankdb.ListID(id))
	vv.Assert(ok && l != nil, what+": list is missing")
	vv.Assert(l.ID == rankdb.ListID(id) && l.Set == set, what+": list has a wrong id or set")
	n, err := l.Len(ctx, m.Storage)
	vv.Assert(err == nil && n == len(els), what+": list has a wrong number of elements")
	for _, e := range els {
		r, err := l.GetElements(ctx, m.Storage, []rankdb.ElementID{e.ID}, 0)
		vv.Assert(err == nil && len(r) == 1, what+": an element is missing")
		vv.Assert(r[0].Score == e.Score && r[0].TieBreaker == e.TieBreaker && bytes.Equal(r[0].Payload, e.Payload), what+": an element has other values")
	}
}

// saver receives a backup, optionally failing.
type saver struct {
	buf      bytes.Buffer
	room     int // bytes accepted, -1 for any number
	refused  bool
	saveErr  bool
	closeErr bool
	closed   int
}

func (s *saver) Save(context.Context) (io.WriteCloser, error) {
	if s.saveErr {
		return nil, errBroken
	}
	return s, nil
}

func (s *saver) Write(p []byte) (int, error) {
	if s.refused || s.room >= 0 && s.buf.Len()+len(p) > s.room {
		s.refused = true
		return 0, errBroken
	}
	return s.buf.Write(p)
}

func (s *saver) Close() error {
	s.closed++
	if s.closeErr {
		return errBroken
	}
	return nil
}

// run starts a backup job and waits until it is done.
func run(m *rankdb.Manager, s *saver, ids ...rankdb.ListID) *backup.Status {
	s2, id := start(m, s, ids...)
	vv.Assert(s2 != nil, "C14: a started job has no status")
	return wait(id)
}

func start(m *rankdb.Manager, s *saver, ids ...rankdb.ListID) (*backup.Status, backup.ID) {
	id := backup.Request{DB: m, Dst: s, Lists: ids}.Start(ctx)
	return id.Status(), id
}

func wait(id backup.ID) *backup.Status {
	for i := 0; i < 2000; i++ {
		st := id.Status()
		vv.Assert(st != nil, "C14: a job lost its status")
		if st.Done {
			return st
		}
		time.Sleep(time.Millisecond)
	}
	vv.Fail("C14: a backup job does not end")
	return nil
}

func restore(m *rankdb.Manager, b []byte, replace bool, pre, suf string) (*backup.RestoreResult, error) {
	ri := backup.RestoreInfo{
		Source: backup.WrapReader{ReadCloser: io.NopCloser(bytes.NewReader(b))},
		DB:     m, Replace: replace, ListIDPrefix: pre, ListIDSuffix: suf,
	}
	return ri.Restore(ctx)
}

// Up to three lists, one of them unknown or unreadable, are backed up in any order and restored into a manager that may
// have one of them, with or without replacement, with arbitrary prefixes and suffixes.
func VH_C14_roundtrip() {
	m, st := newManager()
	a := []rankdb.Element{elem("a0")}
	var b []rankdb.Element
	if vv.Choose("belems", 2) == 1 {
		b = append(b, elem("b0"))
	}
	addList(m, "la", "sa", a...)
	addList(m, "lb", "sb", b...)
	sets := [][]rankdb.ListID{{"la", "lb"}, {"lb", "gone", "la"}, {"la"}, {}, {"gone", "lb"}}
	ids := append([]rankdb.ListID{}, sets[vv.Choose("set", sz(4, 5))]...)
	known := func(id rankdb.ListID) bool { return id != "gone" }
	bad := vv.Choose("bad", 2) == 1
	if bad {
		st.badGet = "sa"
	}
	good := func(id rankdb.ListID) bool { return known(id) && !(bad && id == "la") }
	s := &saver{room: -1}
	first, job := start(m, s, ids...)
	vv.Assert(first != nil, "C14: a started job has no status")
	errs, oks := len(first.Errors), len(first.Success)
	stat := wait(job)
	if vv.Symbolic() {
		vv.Assert(len(first.Errors) == errs && len(first.Success) == oks, "C14: the status of a job changes after it was returned")
	}
	ngood := 0
	for _, id := range ids {
		in := 0
		for _, o := range stat.Success {
			in += vv.B2I(o == string(id))
		}
		_, failed := stat.Errors[string(id)]
		vv.Assert(in == vv.B2I(good(id)), "C14: a job reports a wrong set of saved lists")
		vv.Assert(failed != good(id), "C14: a job reports a wrong set of failed lists")
		if good(id) {
			ngood++
		}
	}
	vv.Assert(len(stat.Errors) == len(ids)-ngood && len(stat.Success) == ngood, "C14: a job does not report every list exactly once")
	vv.Assert(stat.Lists == len(ids) && stat.ListsDone == ngood && !stat.Cancelled && stat.Finished != nil, "C14: a job reports wrong totals")
	vv.Assert(s.closed == 1 && stat.Size == int64(s.buf.Len()), "C14: a job reports a wrong size or leaves its destination open")
	st.badGet = ""

	m2, st2 := newManager()
	pre, suf := "", ""
	if vv.Choose("rename", 2) == 1 {
		pre, suf = vv.Str("pre", 1), vv.Str("suf", 1)
	}
	old := []rankdb.Element{elem("o0")}
	present := vv.Choose("present", 2) == 1
	if present {
		addList(m2, pre+"la"+suf, "so", old...)
	}
	replace := vv.Choose("replace", 2) == 1
	res, err := restore(m2, s.buf.Bytes(), replace, pre, suf)
	vv.Assert(err == nil && res != nil, "C14: restoring a backup failed")
	skipped, total := 0, 0
	for _, id := range ids {
		if !good(id) {
			continue
		}
		n := pre + string(id) + suf
		els, set := a, "sa"
		if id == "lb" {
			els, set = b, "sb"
		}
		if id == "la" && present && !replace {
			skipped++
			els, set = old, "so"
		}
		if id == "la" && present && replace {
			vv.Assert(st2.blobs("so") == 0, "C14: replacing a list leaves its content behind")
		}
		total++
		has(m2, n, set, els, "C14: restored backup")
		vv.Cover("restored")
	}
	vv.Assert(res.Restored == total-skipped && res.Skipped == skipped && len(res.Failed) == 0, "C14: a restore counts wrongly")
	if present && !good("la") {
		has(m2, pre+"la"+suf, "so", old, "C14: list that is not in the backup")
	}
	want := ngood
	if present {
		in := false
		for _, id := range ids {
			in = in || id == "la" && good(id)
		}
		if !in {
			want++
		}
	}
	vv.Assert(len(m2.Lists.All()) == want, "C14: a restore leaves a wrong number of lists")
}

// The destination of a backup fails to open, after any number of bytes, or when it is closed: a job that reports
// no error at all has saved everything it claims.
func VH_C14_destination() {
	m, _ := newManager()
	a, b := []rankdb.Element{elem("a0")}, []rankdb.Element{}
	addList(m, "la", "sa", a...)
	addList(m, "lb", "sb", b...)
	s := &saver{room: -1}
	switch vv.Choose("fault", 4) {
	case 1:
		s.saveErr = true
	case 2:
		s.closeErr = true
	case 3:
		s.room = vv.Choose("room", 70)
		if !vv.Symbolic() {
			for i := 0; i < 900; i += 1 + i/20 {
				attempt(m, &saver{room: i}, a, b)
			}
		}
	}
	attempt(m, s, a, b)
}

func attempt(m *rankdb.Manager, s *saver, a, b []rankdb.Element) {
	stat := run(m, s, "la", "lb")
	vv.Assert(stat.Finished != nil && stat.Lists == 2, "C14: a job reports wrong totals")
	if s.saveErr || s.refused || s.closeErr {
		vv.Assert(len(stat.Errors) > 0, "C14: a job whose destination failed reports no error")
		vv.Cover("failed")
	}
	if len(stat.Errors) > 0 {
		return
	}
	vv.Assert(len(stat.Success) == 2, "C14: a job does not report every list exactly once")
	m2, _ := newManager()
	res, err := restore(m2, s.buf.Bytes(), false, "", "")
	vv.Assert(err == nil && res.Restored == 2, "C14: restoring a backup failed")
	has(m2, "la", "sa", a, "C14: restored backup")
	has(m2, "lb", "sb", b, "C14: restored backup")
	vv.Cover("saved")
}

// payload is the serialized form of one list.
func payload(m *rankdb.Manager, l *rankdb.List) []byte {
	wm := rankdb.NewWriterMsg()
	defer wm.Close()
	vv.Assert(l.Backup(ctx, m.Storage, wm) == nil, "backup failed without a storage failure")
	return append([]byte(nil), wm.Buffer().Bytes()...)
}

// setOf is a backup set with the given payloads.
func setOf(version uint8, end bool, ids []string, payloads ...[]byte) []byte {
	var buf bytes.Buffer
	zw, err := zstd.NewWriter(&buf)
	vv.Assert(err == nil, "zstd")
	wm := rankdb.NewWriterMsg()
	wm.ReplaceWriter(zw)
	w := wm.Writer()
	for i, p := range payloads {
		w.WriteBool(true)
		wm.SetVersion(version)
		w.WriteString(ids[i])
		w.WriteBytes(p)
	}
	if end {
		w.WriteBool(false)
	}
	w.Flush()
	zw.Close()
	return buf.Bytes()
}

// Of two lists in a set, one has a damaged payload or cannot be stored: the other one is restored all the same and the
// bad one is reported.
func VH_C14_badlist() {
	m, _ := newManager()
	a, b := []rankdb.Element{elem("a0")}, []rankdb.Element{elem("b0")}
	pa := payload(m, addList(m, "la", "sa", a...))
	pb := payload(m, addList(m, "lb", "sb", b...))
	first := vv.Choose("order", 2) == 0
	m2, st2 := newManager()
	switch vv.Choose("bad", 3) {
	case 0:
		cut := vv.Choose("cut", sz(12, 40))
		vv.Assume(cut < len(pa))
		pa = pa[:cut]
	case 1:
		v := vv.U8("version")
		vv.Assume(v != pa[0])
		pa[0] = v
	case 2:
		st2.badSet = "sa"
	}
	ids, ps := []string{"la", "lb"}, [][]byte{pa, pb}
	if !first {
		ids, ps = []string{"lb", "la"}, [][]byte{pb, pa}
	}
	replace := vv.Choose("replace", 2) == 1
	old := []rankdb.Element{elem("o0")}
	present := vv.Choose("present", 2) == 1
	if present {
		addList(m2, "la", "so", old...)
	}
	res, err := restore(m2, setOf(1, true, ids, ps...), replace, "", "")
	vv.Assert(err == nil && res != nil, "C14: one bad list breaks the restore of a set")
	if present {
		// It is either not asked for or cannot be replaced.
		has(m2, "la", "so", old, "C14: list that a bad one would replace")
		vv.Cover("kept")
	}
	if present && !replace {
		vv.Assert(res.Restored == 1 && res.Skipped == 1 && len(res.Failed) == 0, "C14: a restore counts wrongly")
		return
	}
	vv.Assert(res.Restored == 1 && res.Skipped == 0 && len(res.Failed) == 1, "C14: a restore counts wrongly")
	_, ok := res.Failed["la"]
	vv.Assert(ok, "C14: a restore reports the wrong list as failed")
	has(m2, "lb", "sb", b, "C14: list restored beside a bad one")
	_, ok = m2.Lists.ByID("la")
	vv.Assert(ok == present, "C14: a list that failed to restore is registered")
	vv.Cover("reported")
}

// A set that is cut short anywhere, without an end mark, of another version or not a backup at all is refused.
func VH_C14_damaged() {
	m, _ := newManager()
	pa := payload(m, addList(m, "la", "sa", elem("a0")))
	m2, _ := newManager()
	var in []byte
	switch vv.Choose("damage", 4) {
	case 0:
		v := vv.U8("version")
		vv.Assume(v != 1 && v != 255)
		in = setOf(v, true, []string{"la"}, pa)
	case 1:
		in = setOf(1, false, []string{"la"}, pa)
	case 2:
		in = setOf(1, true, []string{"la"}, pa)
		cut := vv.Choose("cut", 12)
		if !vv.Symbolic() {
			cut = len(in) * cut / 12
		}
		vv.Assume(cut < len(in)-4)
		in = in[:cut]
	case 3:
		in = []byte("this is not a backup")[:1+vv.Choose("len", 20)]
	}
	res, err := restore(m2, in, false, "", "")
	vv.Assert(err != nil && res == nil, "C14: a damaged backup set is restored without an error")
	vv.Cover("refused")
	_ = fmt.Sprint
}
