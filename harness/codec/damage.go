package codec

import (
	"bytes"
	"context"
	"strings"
	"sync"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// maxAlloc is what reading a blob of a few bytes may reserve.
const maxAlloc = 4 << 20

// maxStream is the same for streams, where one string may claim 4 GB.
const maxStream = 8 << 30

// store is a map of blobs.
type store struct {
	mu sync.Mutex
	k  []string
	v  [][]byte
}

func (s *store) find(set, key string) int {
	for i, k := range s.k {
		if k == set+"/"+key {
			return i
		}
	}
	return -1
}

func (s *store) Get(_ context.Context, set, key string) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := s.find(set, key)
	if i < 0 {
		return nil, blobstore.ErrBlobNotFound
	}
	return append(make([]byte, 0, len(s.v[i])), s.v[i]...), nil
}

func (s *store) Set(_ context.Context, set, key string, val []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	val = append(make([]byte, 0, len(val)), val...)
	if i := s.find(set, key); i >= 0 {
		s.v[i] = val
		return nil
	}
	s.k = append(s.k, set+"/"+key)
	s.v = append(s.v, val)
	return nil
}

func (s *store) Delete(_ context.Context, set, key string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(set, key); i >= 0 {
		s.k = append(s.k[:i], s.k[i+1:]...)
		s.v = append(s.v[:i], s.v[i+1:]...)
	}
	return nil
}

// prefix finds the only blob whose key starts with p.
func (s *store) prefix(set, p string) int {
	r := -1
	for i, k := range s.k {
		if strings.HasPrefix(k, set+"/"+p) {
			if r >= 0 {
				vv.Fail("more than one elements blob for one segment")
			}
			r = i
		}
	}
	vv.Assert(r >= 0, "the elements are not stored")
	return r
}

func segID(key string) rankdb.SegmentID {
	n := 0
	for _, c := range key[len(key)-6:] {
		n = n*10 + int(c-'0')
	}
	return rankdb.SegmentID(n)
}

// fresh gives an empty value of one of the stored types.
func fresh(kind int) codec {
	switch kind {
	case 0:
		return &rankdb.Element{}
	case 1:
		return &rankdb.Elements{}
	case 2:
		return &rankdb.Segment{}
	case 3:
		return &rankdb.Segments{}
	case 4:
		return &rankdb.List{}
	case 5:
		return &rankdb.ElementIDs{}
	case 6:
		return &rankdb.IndexElements{}
	}
	return &rankdb.ListIDs{}
}

const kinds = 8

// valid gives an arbitrary small value of the type.
func valid(kind int) codec {
	switch kind {
	case 0:
		e := elem("v", 0)
		e.Payload = vv.Bytes("p", 1)
		return &e
	case 1, 6:
		es := rankdb.Elements{elem("v0", 0), elem("v1", 0)}
		es[0].Payload, es[1].Payload = []byte{}, vv.Bytes("p", 1)
		if kind == 6 {
			return &rankdb.IndexElements{Elements: es}
		}
		return &es
	case 2:
		g := seg("v", 9, 9)
		return &g
	case 3:
		return &rankdb.Segments{ID: "i", Segments: []rankdb.Segment{seg("v", 9, 9)}, NextID: 3, IsIndex: vv.Bool("index")}
	case 4:
		l := &rankdb.List{ID: "l", Set: "s", Metadata: map[string]string{"k": vv.Str("val", 1)}, SplitSize: vv.Int("split", 0, 127), MergeSize: vv.Int("merge", 0, 127), Scores: "a", Index: "b"}
		return l
	case 5:
		return &rankdb.ElementIDs{rankdb.ElementID(vv.U8("a") & 127), rankdb.ElementID(vv.U32("b"))}
	}
	return &rankdb.ListIDs{"a", rankdb.ListID(vv.Str("b", 1))}
}

// canonical checks that a decoded value is what the bytes say: encoding it again and
// decoding that gives the same encoding.
func canonical(v codec, kind int) {
	m, err := v.MarshalMsg(nil)
	nonil(err, "a decoded value cannot be encoded")
	w := fresh(kind)
	_, err = w.UnmarshalMsg(m)
	nonil(err, "the encoding of a decoded value cannot be decoded")
	m2, err := w.MarshalMsg(nil)
	nonil(err, "a decoded value cannot be encoded")
	vv.Assert(len(m) == len(m2), "a decoded value changes when stored again")
}

// decode feeds b to both interfaces; both accept or both refuse.
func decode(kind int, b []byte) (ok bool) {
	a, s := fresh(kind), fresh(kind)
	rest, err := a.UnmarshalMsg(append(make([]byte, 0, len(b)), b...))
	br := rankdb.NewReaderMsgp(b)
	serr := s.DecodeMsg(br.Reader())
	br.Close()
	if serr == nil {
		canonical(s, kind)
	}
	if err == nil {
		vv.Assert(len(rest) <= len(b), "decoding gives back more bytes than it got")
		canonical(a, kind)
	}
	return err == nil
}

// VH_C12_Truncate: a valid encoding cut anywhere is an error in both interfaces.
func VH_C12_Truncate() {
	kind := vv.Choose("kind", kinds)
	v := valid(kind)
	m, err := v.MarshalMsg(nil)
	nonil(err, "a value cannot be marshalled")
	cut := vv.Choose("cut", 64)
	vv.Assume(cut < len(m))
	b := m[:cut]
	_, err = fresh(kind).UnmarshalMsg(append(make([]byte, 0, len(b)), b...))
	vv.Assert(err != nil, "a truncated encoding is accepted")
	br := rankdb.NewReaderMsgp(b)
	err = fresh(kind).DecodeMsg(br.Reader())
	br.Close()
	vv.Assert(err != nil, "a truncated encoding is accepted from a stream")
}

// VH_C12_Corrupt: a valid encoding with one byte replaced never crashes a decoder.
func VH_C12_Corrupt() {
	kind := vv.Choose("kind", kinds)
	v := valid(kind)
	m, err := v.MarshalMsg(nil)
	nonil(err, "a value cannot be marshalled")
	at := vv.Choose("at", 64)
	vv.Assume(at < len(m))
	m[at] = vv.U8("byte")
	a := fresh(kind)
	rest, err := a.UnmarshalMsg(m)
	if err == nil {
		vv.Assert(len(rest) <= len(m), "decoding gives back more bytes than it got")
		canonical(a, kind)
	}
}

// VH_C12_Arbitrary: arbitrary bytes never crash a decoder.
func VH_C12_Arbitrary() {
	kind := vv.Choose("kind", kinds)
	n := vv.Choose("n", sz(4, 6))
	b := vv.Bytes("b", n)
	// an array or map header with a count beyond the bytes given only reserves memory
	vv.Guarded(1<<50, "memory", func() { decode(kind, b) })
}

// newList makes a stored list of n elements without anything loaded.
func newList(bs *store, id string, n int) (*rankdb.List, rankdb.Elements) {
	var es rankdb.Elements
	for i := 0; i < n; i++ {
		es = append(es, rankdb.Element{Score: uint64(100 - i), ID: rankdb.ElementID(i + 1), Payload: []byte{}, TieBreaker: 5, Updated: 7})
	}
	l, err := rankdb.NewList(ctx, rankdb.ListID(id), "set", bs, rankdb.WithListOption.MergeSplitSize(10, 20), rankdb.WithListOption.Populate(es))
	nonil(err, "creating a list failed")
	l.ReleaseSegments(ctx)
	return l, es
}

func versioned(v codec, version byte) []byte {
	b, err := v.MarshalMsg([]byte{version})
	nonil(err, "a value cannot be marshalled")
	return b
}

// damage replaces the content of a stored blob: by a prefix of it, by the blob with one
// byte changed, or by arbitrary bytes behind a header. It says whether the result has to be
// refused.
func damage(valid []byte, arb int) (b []byte, refuse bool) {
	switch vv.Choose("damage", 4) {
	case 0:
		k := vv.Choose("cut", 128)
		vv.Assume(k < len(valid))
		return valid[:k], true
	case 1:
		k := 1 + vv.Choose("at", 128)
		vv.Assume(k < len(valid))
		b = append(make([]byte, 0, len(valid)), valid...)
		b[k] = vv.U8("byte")
		return b, false
	case 2:
		return append(otherVersion(valid[0]), valid[1:]...), true
	}
	return append([]byte{valid[0]}, vv.Bytes("arbitrary", vv.Choose("n", arb))...), false
}

// otherVersion is any encoding of a number as the version except that of v.
func otherVersion(v byte) []byte {
	k := vv.Choose("version format", 9)
	if k == 0 {
		x := vv.U8("version")
		vv.Assume(x != v)
		return []byte{x}
	}
	n := 1 << ((k - 1) % 4)
	b := []byte{0xcc + byte(k-1)}
	same := true
	for i := 0; i < n; i++ {
		x := vv.U8("version byte")
		b = append(b, x)
		want := byte(0)
		if i == n-1 {
			want = v
		}
		same = vv.And(same, x == want)
	}
	vv.Assume(!same)
	return b
}

// VH_C12_Elements: a damaged elements blob is refused, or gives the elements it encodes,
// and never crashes or makes the reader reserve memory out of proportion.
func VH_C12_Elements() {
	bs := &store{}
	l, es := newList(bs, "list", 1)
	i := bs.prefix("set", string(l.Scores)+"-")
	b, refuse := damage(bs.v[i], sz(6, 9))
	bs.v[i] = b
	_ = es
	var got rankdb.Elements
	var err error
	vv.Guarded(maxAlloc, "a damaged elements blob of a few bytes makes the reader reserve a lot of memory", func() {
		got, err = l.GetRankTop(ctx, bs, 0, 10)
	})
	if refuse {
		vv.Assert(err != nil, "a truncated elements blob or one of an unknown version is accepted")
	}
	if err == nil {
		want, ok := parseElems(b[1:])
		vv.Assert(ok, "bytes that do not encode elements are accepted")
		vv.Assert(sameElems(got, want), "a damaged elements blob gives elements it does not encode")
	}
	vv.Assert(vv.HeldLocks() == 0, "a failed load leaves locks held")
}

// VH_C12_Segments: the same for the segments blob.
func VH_C12_SegmentsFields() { segments(true) }

func VH_C12_SegmentsDamage() { segments(false) }

func segments(fields bool) {
	bs := &store{}
	l, _ := newList(bs, "list", 1)
	i := bs.find("set", string(l.Scores))
	vv.Assert(i >= 0, "segments are not stored under their key")
	j := bs.prefix("set", string(l.Scores)+"-")
	var b []byte
	var refuse bool
	if fields {
		// a well formed blob with arbitrary numbers
		g := rankdb.Segments{ID: l.Scores, Segments: []rankdb.Segment{seg("s", 5, 1)}, NextID: 1}
		g.Segments[0].Parent = l.Scores
		g.Segments[0].ID = segID(bs.k[j])
		b = versioned(&g, 2)
	} else {
		b, refuse = damage(bs.v[i], sz(3, 5))
	}
	bs.v[i] = b
	var err error
	vv.Guarded(maxAlloc, "a damaged segments blob of a few bytes makes the reader reserve a lot of memory", func() {
		switch vv.Choose("op", 2) {
		case 0:
			_, err = l.GetRankTop(ctx, bs, 0, 10)
		case 1:
			_, err = l.Stats(ctx, bs, true)
		}
	})
	if refuse {
		vv.Assert(err != nil, "a truncated segments blob or one of an unknown version is accepted")
	}
	vv.Assert(vv.HeldLocks() == 0, "a failed load leaves locks held")
}

// ---- reading elements, written down independently ----

type parser struct {
	b  []byte
	ok bool
}

func (p *parser) take(n int) []byte {
	if !p.ok || len(p.b) < n {
		p.ok = false
		return make([]byte, n)
	}
	r := p.b[:n]
	p.b = p.b[n:]
	return r
}

func (p *parser) be(n int) (v uint64) {
	for _, x := range p.take(n) {
		v = v<<8 | uint64(x)
	}
	return v
}

// num reads any integer that fits the unsigned type of the width.
func (p *parser) num(bits uint) uint64 {
	var v uint64
	switch c := p.take(1)[0]; {
	case c < 0x80:
		v = uint64(c)
	case c == 0xcc:
		v = p.be(1)
	case c == 0xcd:
		v = p.be(2)
	case c == 0xce:
		v = p.be(4)
	case c == 0xcf:
		v = p.be(8)
	case c == 0xd0:
		v = uint64(int64(int8(p.be(1))))
		p.ok = p.ok && int64(v) >= 0
	case c == 0xd1:
		v = uint64(int64(int16(p.be(2))))
		p.ok = p.ok && int64(v) >= 0
	case c == 0xd2:
		v = uint64(int64(int32(p.be(4))))
		p.ok = p.ok && int64(v) >= 0
	case c == 0xd3:
		v = p.be(8)
		p.ok = p.ok && int64(v) >= 0
	default:
		p.ok = false
	}
	if bits < 64 && v>>bits != 0 {
		p.ok = false
	}
	return v
}

func (p *parser) arr() int {
	switch c := p.take(1)[0]; {
	case c&0xf0 == 0x90:
		return int(c & 15)
	case c == 0xdc:
		return int(p.be(2))
	case c == 0xdd:
		return int(p.be(4))
	}
	p.ok = false
	return 0
}

func (p *parser) bin() []byte {
	var n uint64
	switch p.take(1)[0] {
	case 0xc4:
		n = p.be(1)
	case 0xc5:
		n = p.be(2)
	case 0xc6:
		n = p.be(4)
	default:
		p.ok = false
	}
	if !p.ok || n > uint64(len(p.b)) {
		p.ok = false
		return nil
	}
	return p.take(int(vv.Concrete(n)))
}

func parseElems(b []byte) (rankdb.Elements, bool) {
	p := &parser{b: b, ok: true}
	n := p.arr()
	if n > len(b) {
		return nil, false
	}
	n = int(vv.Concrete(uint64(n)))
	var r rankdb.Elements
	for i := 0; i < n && p.ok; i++ {
		if p.arr() != 5 {
			p.ok = false
		}
		var e rankdb.Element
		e.Score = p.num(64)
		e.ID = rankdb.ElementID(p.num(64))
		e.Payload = p.bin()
		e.TieBreaker = uint32(p.num(32))
		e.Updated = uint32(p.num(32))
		r = append(r, e)
	}
	return r, p.ok
}

// VH_C12_Restore: a damaged backup is refused or restored, without a crash.
func VH_C12_Restore() {
	bs := &store{}
	l, es := newList(bs, "list", 1)
	l.Scores, l.Index = "sc", "ix"
	w := rankdb.NewWriterMsg()
	part := vv.Choose("part", 6)
	src := &rankdb.List{ID: "list", Set: "set", Metadata: map[string]string{}, SplitSize: 20, MergeSize: 10, Scores: "sc", Index: "ix"}
	nonil(w.SetVersion(1), "version")
	nonil(src.EncodeMsg(w.Writer()), "encode")
	nonil(w.SetVersion(2), "version")
	segs := rankdb.Segments{ID: "sc", NextID: 1}
	g := rankdb.Segment{ID: 0, Min: 100, Max: 100, MinTie: 5, MaxTie: 5, N: 1, Updated: 7, Parent: "sc"}
	if part != 2 {
		segs.Segments = append(segs.Segments, g)
	}
	nonil(segs.EncodeMsg(w.Writer()), "encode")
	nonil(w.SetVersion(2), "version")
	n := 1
	if part == 1 {
		n = int(vv.I64("segments"))
		vv.Assume(vv.Or(n < 1, n > 1))
	}
	nonil(w.Writer().WriteInt(n), "encode")
	if part == 3 {
		g.N = int(vv.I64("n"))
	}
	nonil(g.EncodeMsg(w.Writer()), "encode")
	nonil(es.EncodeMsg(w.Writer()), "encode")
	b := append(make([]byte, 0, 256), w.Buffer().Bytes()...)
	w.Close()
	refuse := false
	switch part {
	case 0:
		k := vv.Choose("cut", 160)
		vv.Assume(k < len(b))
		b, refuse = b[:k], true
	case 4:
		k := vv.Choose("at", 160)
		vv.Assume(k < len(b))
		b[k] = vv.U8("byte")
	case 5:
		b, refuse = append(otherVersion(1), b[1:]...), true
	}
	var id *rankdb.ListID
	if vv.Choose("newid", 2) == 1 {
		x := rankdb.ListID("other")
		id = &x
	}
	to := &store{}
	var got *rankdb.List
	var err error
	vv.Guarded(maxStream, "a damaged backup of a few bytes makes the restore reserve a lot of memory", func() {
		r := rankdb.NewReaderMsgp(b)
		got, err = rankdb.RestoreList(ctx, to, r, nil, id)
		r.Close()
	})
	if part == 1 && n > 1 || n < 0 {
		refuse = true
	}
	if refuse {
		vv.Assert(err != nil, "a truncated backup or one of an unknown version is accepted")
	}
	if err == nil {
		vv.Assert(got != nil, "a restore reports success without a list")
	}
	_ = vvlib.Above
}

// VH_C12_Registry: a damaged list registry is refused or loaded, without a crash.
func VH_C12_Registry() {
	bs := &store{}
	var buf bytes.Buffer
	m, err := rankdb.NewManager(bs, "set")
	nonil(err, "manager")
	l, _ := newList(bs, "list", 0)
	l.Scores, l.Index = "sc", "ix"
	m.NewLists(nil)
	m.Lists.Add(l)
	nonil(m.Lists.Save(ctx, &buf), "saving the registry failed")
	_ = buf
	plain := []byte{7, 1}
	src := &rankdb.List{ID: "list", Set: "set", Metadata: map[string]string{"k": "v"}, SplitSize: 20, MergeSize: 10, Scores: "sc", Index: "ix"}
	plain, err = src.MarshalMsg(plain)
	nonil(err, "encode")
	plain = append(plain, 0xc3)
	b, refuse := plain, false
	switch vv.Choose("damage", 4) {
	case 0:
		k := vv.Choose("cut", 128)
		vv.Assume(k < len(plain))
		b, refuse = plain[:k], true
	case 1:
		k := 1 + vv.Choose("at", 128)
		vv.Assume(k < len(plain))
		b[k] = vv.U8("byte")
	case 2:
		b, refuse = append(append([]byte{7}, otherVersion(1)...), b[2:]...), true
	case 3:
		b = append([]byte{vv.U8("kind")}, vv.Bytes("arbitrary", vv.Choose("n", sz(5, 7)))...)
	}
	m2, err := rankdb.NewManager(bs, "set")
	nonil(err, "manager")
	m2.NewLists(nil)
	vv.Guarded(maxStream, "a damaged registry of a few bytes makes the reader reserve a lot of memory", func() {
		err = m2.Lists.Load(ctx, bs, b)
	})
	if refuse {
		vv.Assert(err != nil, "a truncated registry or one of an unknown version is accepted")
	}
}
