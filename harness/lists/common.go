// Package lists holds the list level harnesses: an arbitrary valid list is laid
// out in a model store through the exported API, one or more operations of the
// real code run on it, and the storage is read back and compared with the
// specification.
package lists

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

var ctx = context.Background()

const set = "set"

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

var errInjected = errors.New("injected storage failure")

// fault says which storage call fails.
type fault struct {
	op    string // Get, Set or Delete
	class string // key class, see store.classOf
	nth   int    // which call of that kind
	all   bool   // and all following of that kind
	err   error
}

type blob struct {
	set, key string
	val      []byte
}

// store is a map of blobs with fault injection.
type store struct {
	mu      sync.Mutex
	b       []blob
	f       *fault
	seen    int
	hits    int
	classes []string // key prefix -> class, pairs
	gets, sets, dels int
	onOp    func(op, set, key string)
	onCtx   func(ctx context.Context, op, key string) // as onOp, sees the context of the caller
	free    *sync.Map                                 // if set, the blobs: accesses to different ones are not ordered
}

func newStore() *store { return &store{} }

func (s *store) classOf(key string) string {
	for i := 0; i < len(s.classes); i += 2 {
		if s.classes[i] == key {
			return s.classes[i+1]
		}
	}
	return "new"
}

func (s *store) fails(op, key string) error {
	f := s.f
	if f == nil || f.op != op || (f.class != "any" && f.class != s.classOf(key)) {
		return nil
	}
	k := s.seen
	s.seen++
	if k == f.nth || (f.all && k > f.nth) {
		s.hits++
		if f.err != nil {
			return f.err
		}
		return errInjected
	}
	return nil
}

func (s *store) find(set, key string) int {
	for i := range s.b {
		if s.b[i].set == set && s.b[i].key == key {
			return i
		}
	}
	return -1
}

func (s *store) Get(c context.Context, set, key string) ([]byte, error) {
	if s.onCtx != nil {
		s.onCtx(c, "Get", key)
	}
	if s.onOp != nil {
		s.onOp("Get", set, key)
	}
	if s.free != nil {
		v, ok := s.free.Load(set + "/" + key)
		if !ok {
			return nil, blobstore.ErrBlobNotFound
		}
		return append([]byte(nil), v.([]byte)...), nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gets++
	if err := s.fails("Get", key); err != nil {
		return nil, err
	}
	i := s.find(set, key)
	if i < 0 {
		return nil, blobstore.ErrBlobNotFound
	}
	return append(make([]byte, 0, len(s.b[i].val)), s.b[i].val...), nil
}

func (s *store) Set(c context.Context, set, key string, val []byte) error {
	if s.onCtx != nil {
		s.onCtx(c, "Set", key)
	}
	if s.onOp != nil {
		s.onOp("Set", set, key)
	}
	if s.free != nil {
		s.free.Store(set+"/"+key, append([]byte(nil), val...))
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sets++
	if err := s.fails("Set", key); err != nil {
		return err
	}
	s.put(set, key, val)
	return nil
}

func (s *store) put(set, key string, val []byte) {
	v := append(make([]byte, 0, len(val)), val...)
	if i := s.find(set, key); i >= 0 {
		s.b[i].val = v
		return
	}
	s.b = append(s.b, blob{set, key, v})
}

func (s *store) Delete(c context.Context, set, key string) error {
	if s.onCtx != nil {
		s.onCtx(c, "Delete", key)
	}
	if s.onOp != nil {
		s.onOp("Delete", set, key)
	}
	if s.free != nil {
		s.free.Delete(set + "/" + key)
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dels++
	if err := s.fails("Delete", key); err != nil {
		return err
	}
	if i := s.find(set, key); i >= 0 {
		s.b = append(s.b[:i], s.b[i+1:]...)
	}
	return nil
}

// snapshot is a copy of all blobs.
func (s *store) snapshot() []blob {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := make([]blob, len(s.b))
	copy(r, s.b)
	return r
}

// mapCache is a rankdb.Cache.
type mapCache struct {
	mu sync.Mutex
	k  []interface{}
	v  []interface{}
	on func(op string, key interface{})

	free *sync.Map // as in store
}

func (c *mapCache) at(k interface{}) int {
	for i := range c.k {
		if c.k[i] == k {
			return i
		}
	}
	return -1
}
func (c *mapCache) Add(k, v interface{}) {
	if c.on != nil {
		c.on("Add", k)
	}
	if c.free != nil {
		c.free.Store(k, v)
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if i := c.at(k); i >= 0 {
		c.v[i] = v
		return
	}
	c.k, c.v = append(c.k, k), append(c.v, v)
}
func (c *mapCache) Get(k interface{}) (interface{}, bool) {
	if c.on != nil {
		c.on("Look", k)
	}
	if c.free != nil {
		return c.free.Load(k)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if i := c.at(k); i >= 0 {
		return c.v[i], true
	}
	return nil, false
}
func (c *mapCache) Contains(k interface{}) bool { _, ok := c.Get(k); return ok }
func (c *mapCache) Remove(k interface{}) {
	if c.free != nil {
		c.free.Delete(k)
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if i := c.at(k); i >= 0 {
		c.k = append(c.k[:i], c.k[i+1:]...)
		c.v = append(c.v[:i], c.v[i+1:]...)
	}
}

// world is one list in a store, with its specification content.
type world struct {
	st    *store
	l     *rankdb.List
	els   rankdb.Elements // all elements in rank order
	segN  []int
	bound []rankdb.Element // lower bounds (Score, TieBreaker) of the score segments but the last
	cache *mapCache
}

// layout of a list: elements per score segment, and per index segment.
type layout struct {
	scores []int
	index  []int
}

func lay(scores []int, index ...int) layout {
	return layout{scores, index}
}

// plainShape: ids and segment ids in rank order only.
var plainShape bool

// permutations of the id order used for n elements: quick uses a few, thorough all for n<=3.
func idPerm(n int) []int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n < 2 || plainShape {
		return id
	}
	switch k := vv.Choose("perm", sz(2, 4)); k {
	case 1:
		for i := range id {
			id[i] = n - 1 - i
		}
	case 2: // rotate
		for i := range id {
			id[i] = (i + 1) % n
		}
	case 3:
		id[0], id[n-1] = id[n-1], id[0]
	}
	return id
}

func geq(s uint64, t uint32, b rankdb.Element) bool {
	return vv.Or(s > b.Score, vv.And(s == b.Score, t >= b.TieBreaker))
}

// within says that element e belongs in a segment.
func within(e rankdb.Element, s *rankdb.Segment) bool {
	return vv.And(vv.Or(e.Score < s.Max, vv.And(e.Score == s.Max, e.TieBreaker <= s.MaxTie)),
		vv.Or(e.Score > s.Min, vv.And(e.Score == s.Min, e.TieBreaker >= s.MinTie)))
}

// elemBlob encodes elements as stored.
func elemBlob(e rankdb.Elements) []byte {
	wm := rankdb.NewWriterMsg()
	defer wm.Close()
	if err := wm.SetVersion(1); err != nil {
		vv.Fail("harness: version")
	}
	if err := e.EncodeMsg(wm.Writer()); err != nil {
		vv.Fail("harness: encode")
	}
	return append([]byte(nil), wm.Buffer().Bytes()...)
}

func mustSave(s *rankdb.Segments, st *store) {
	if err := s.Save(ctx, blobstore.StoreWithSet(st, set)); err != nil {
		vv.Fail("harness: save segments")
	}
}

// build lays out an arbitrary valid list.
func build(name string, st *store, lo layout, split, merge int) *world {
	w := &world{st: st, segN: lo.scores}
	n := 0
	for _, k := range lo.scores {
		n += k
	}
	if n > 0 {
		w.els = make(rankdb.Elements, n)
	}
	perm := idPerm(n)
	for i := range w.els {
		w.els[i] = vvlib.ElemP(fmt.Sprintf("%s%d", name, i), byte(10+i))
		vv.Assume(vv.And(w.els[i].Updated != 0, w.els[i].Updated != math.MaxUint32))
	}
	vv.Assume(vvlib.Strict(w.els))
	// id order: element perm[0] has the highest id
	for i := 1; i < n; i++ {
		vv.Assume(w.els[perm[i-1]].ID > w.els[perm[i]].ID)
	}
	k := len(lo.scores)
	ids := make([]rankdb.SegmentID, k)
	rev := k > 1 && !plainShape && vv.Choose("segids", 2) == 1
	for i := range ids {
		ids[i] = rankdb.SegmentID(i + 1)
		if rev {
			ids[i] = rankdb.SegmentID(k - i)
		}
	}
	sc := rankdb.Segments{ID: rankdb.SegmentsID(name + "sc"), NextID: rankdb.SegmentID(k + 1)}
	maxS, maxT := uint64(math.MaxUint64), uint32(math.MaxUint32)
	pos := 0
	segOf := make([]rankdb.SegmentID, n)
	for i := 0; i < k; i++ {
		s := rankdb.Segment{ID: ids[i], Max: maxS, MaxTie: maxT, N: lo.scores[i], Updated: 1, Parent: sc.ID}
		els := w.els[pos : pos+lo.scores[i]]
		for j := range els {
			segOf[pos+j] = s.ID
		}
		pos += lo.scores[i]
		if i < k-1 {
			b := rankdb.Element{Score: vv.U64(fmt.Sprintf("%sb%d", name, i)), TieBreaker: vv.U32(fmt.Sprintf("%sbt%d", name, i))}
			vv.Assume(vv.Or(b.Score != 0, b.TieBreaker != 0))
			if len(els) > 0 {
				vv.Assume(geq(els[len(els)-1].Score, els[len(els)-1].TieBreaker, b))
			}
			if len(w.bound) > 0 {
				vv.Assume(vv.Not(geq(b.Score, b.TieBreaker, w.bound[len(w.bound)-1])))
			}
			if pos < n {
				vv.Assume(vv.Not(geq(w.els[pos].Score, w.els[pos].TieBreaker, b)))
			}
			w.bound = append(w.bound, b)
			s.Min, s.MinTie = b.Score, b.TieBreaker
			// just below the boundary
			maxS = vv.Ite64(b.TieBreaker == 0, b.Score-1, b.Score)
			maxT = b.TieBreaker - 1
		}
		sc.Segments = append(sc.Segments, s)
		st.put(set, s.StorageKey(), elemBlob(els))
		st.classes = append(st.classes, s.StorageKey(), fmt.Sprintf("%ss%d", name, i))
	}
	mustSave(&sc, st)
	ix := rankdb.Segments{ID: rankdb.SegmentsID(name + "ix"), NextID: rankdb.SegmentID(len(lo.index) + 1), IsIndex: true}
	pos = 0
	maxS = math.MaxUint64
	for i, m := range lo.index {
		s := rankdb.Segment{ID: rankdb.SegmentID(i + 1), Max: maxS, MaxTie: math.MaxUint32, N: m, Updated: 1, Parent: ix.ID}
		els := make(rankdb.Elements, 0, m)
		for j := 0; j < m; j++ {
			e := w.els[perm[pos+j]]
			els = append(els, rankdb.Element{Score: uint64(e.ID), ID: e.ID, TieBreaker: uint32(segOf[perm[pos+j]]), Updated: e.Updated})
		}
		pos += m
		if i < len(lo.index)-1 {
			b := vv.U64(fmt.Sprintf("%si%d", name, i))
			vv.Assume(vv.And(b > 0, b <= maxS))
			if m > 0 {
				vv.Assume(els[m-1].Score >= b)
			}
			if pos < n {
				vv.Assume(uint64(w.els[perm[pos]].ID) < b)
			}
			s.Min = b
			maxS = b - 1
		}
		ix.Segments = append(ix.Segments, s)
		st.put(set, s.StorageKey(), elemBlob(els))
		st.classes = append(st.classes, s.StorageKey(), fmt.Sprintf("%si%d", name, i))
	}
	mustSave(&ix, st)
	st.classes = append(st.classes, string(sc.ID), name+"S", string(ix.ID), name+"I")
	w.l = &rankdb.List{ID: rankdb.ListID(name), Set: set, SplitSize: split, MergeSize: merge, Scores: sc.ID, Index: ix.ID}
	return w
}

// withCache gives the list a cache (only reachable through NewList).
func (w *world) withCache() {
	w.cache = &mapCache{}
	l, err := rankdb.NewList(ctx, w.l.ID, set, newStore(), rankdb.WithListOption.Cache(w.cache), rankdb.WithListOption.MergeSplitSize(w.l.MergeSize, w.l.SplitSize))
	if err != nil {
		vv.Fail("harness: NewList")
	}
	l.ReleaseSegments(ctx)
	l.Scores, l.Index = w.l.Scores, w.l.Index
	w.l = l
}

// reader is a fresh list object for the same storage.
func (w *world) reader() *rankdb.List {
	return &rankdb.List{ID: w.l.ID, Set: w.l.Set, SplitSize: w.l.SplitSize, MergeSize: w.l.MergeSize, Scores: w.l.Scores, Index: w.l.Index}
}

// stored is what storage says a list is.
type stored struct {
	ok    bool // structurally valid, as a condition
	why   string
	els   rankdb.Elements
	segN  []int
	ixN   []int
	index rankdb.Elements
}

func (r *stored) req(c bool) { r.ok = vv.And(r.ok, c) }

func loadSegs(st *store, set string, id rankdb.SegmentsID) (*rankdb.Segments, error) {
	return id.Load(ctx, blobstore.StoreWithSet(st, set), nil)
}

func decodeElems(b []byte) (rankdb.Elements, bool) {
	b, v := rankdb.MsgpGetVersion(b)
	if v != 1 {
		return nil, false
	}
	var e rankdb.Elements
	rest, err := e.UnmarshalMsg(b)
	return e, err == nil && len(rest) == 0
}

// read decodes the stored list and checks its structure against the
// specification of a valid list.
func read(st *store, l *rankdb.List) stored {
	r := stored{ok: true}
	f := st.f
	st.f = nil
	defer func() { st.f = f }()
	bad := func(why string) stored {
		r.ok, r.why = false, why
		return r
	}
	sc, err := loadSegs(st, l.Set, l.Scores)
	if err != nil {
		return bad("score segments cannot be loaded")
	}
	ix, err := loadSegs(st, l.Set, l.Index)
	if err != nil {
		return bad("index segments cannot be loaded")
	}
	if sc.IsIndex || !ix.IsIndex || sc.ID != l.Scores || ix.ID != l.Index {
		return bad("segment collections are mislabelled")
	}
	var segOf []rankdb.SegmentID
	walk := func(s *rankdb.Segments, fn func(seg *rankdb.Segment, e rankdb.Elements)) string {
		if len(s.Segments) == 0 {
			return "no segments"
		}
		for i := range s.Segments {
			seg := &s.Segments[i]
			for j := 0; j < i; j++ {
				r.req(s.Segments[j].ID != seg.ID)
			}
			r.req(seg.ID < s.NextID)
			r.req(seg.Updated != 0)
			if seg.Parent != s.ID {
				return "segment with a wrong parent"
			}
			if i == 0 {
				r.req(vv.And(seg.Max == math.MaxUint64, seg.MaxTie == math.MaxUint32))
			} else {
				p := &s.Segments[i-1]
				r.req(vv.Or(p.Min != 0, p.MinTie != 0))
				r.req(vv.And(seg.Max == vv.Ite64(p.MinTie == 0, p.Min-1, p.Min), seg.MaxTie == p.MinTie-1))
				if s.IsIndex {
					r.req(p.MinTie == 0)
				}
			}
			if i == len(s.Segments)-1 {
				r.req(vv.And(seg.Min == 0, seg.MinTie == 0))
			}
			k := st.find(l.Set, seg.StorageKey())
			if k < 0 {
				return "segment elements are not stored"
			}
			e, ok := decodeElems(st.b[k].val)
			if !ok {
				return "segment elements cannot be decoded"
			}
			r.req(seg.N == len(e))
			for j := range e {
				r.req(vv.And(within(e[j], seg), e[j].Updated != 0))
			}
			fn(seg, e)
		}
		return ""
	}
	if why := walk(sc, func(seg *rankdb.Segment, e rankdb.Elements) {
		r.segN = append(r.segN, len(e))
		for range e {
			segOf = append(segOf, seg.ID)
		}
		r.els = append(r.els, e...)
	}); why != "" {
		return bad("scores: " + why)
	}
	if why := walk(ix, func(seg *rankdb.Segment, e rankdb.Elements) {
		r.ixN = append(r.ixN, len(e))
		r.index = append(r.index, e...)
	}); why != "" {
		return bad("index: " + why)
	}
	r.req(vvlib.Strict(r.els))
	r.req(vvlib.Distinct(r.els))
	if len(r.index) != len(r.els) {
		return bad("index has a different number of entries")
	}
	for i := range r.index {
		if i > 0 {
			r.req(r.index[i-1].Score > r.index[i].Score)
		}
		hit := false
		for j := range r.els {
			hit = vv.Or(hit, vv.And(r.els[j].ID == r.index[i].ID, uint64(r.els[j].ID) == r.index[i].Score, uint32(segOf[j]) == r.index[i].TieBreaker))
		}
		r.req(hit)
	}
	return r
}

// expect asserts that storage holds a valid list with exactly the wanted elements.
func expect(st *store, l *rankdb.List, want []rankdb.Element, what string) stored {
	r := read(st, l)
	vv.Assert(r.why == "", what+": stored list is broken: "+r.why)
	vv.Assert(r.ok, what+": stored list is not structurally valid")
	vv.Assert(len(r.els) == len(want), what+": stored list has a wrong number of elements")
	// ids are distinct on both sides, so containment is equality
	same := true
	for i := range want {
		hit := false
		for j := range r.els {
			hit = vv.Or(hit, vvlib.Same(r.els[j], want[i]))
		}
		same = vv.And(same, hit)
	}
	vv.Assert(same, what+": stored list does not have the expected elements")
	return r
}

// unchanged asserts that the stored elements are exactly the given ones in order.
func unchanged(st *store, l *rankdb.List, want []rankdb.Element, what string) stored {
	r := expect(st, l, want, what)
	for i := range want {
		vv.Assert(vvlib.Same(r.els[i], want[i]), what+": order changed")
	}
	return r
}

// rankOf is the number of elements ranked above e.
func rankOf(l []rankdb.Element, e rankdb.Element) int {
	n := 0
	for i := range l {
		n += vv.B2I(vvlib.Above(l[i], e))
	}
	return n
}
