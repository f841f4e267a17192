// Package codec holds the harnesses over the stored formats. The msgp library is
// executed as it is (no model).
package codec

import (
	"context"
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
	"github.com/tinylib/msgp/msgp"
)

var ctx = context.Background()

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

type codec interface {
	msgp.Encodable
	msgp.Decodable
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Sizer
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, a[i] == b[i])
	}
	return r
}

func nonil(err error, msg string) {
	if err != nil {
		vv.Note(err)
		vv.Fail(msg)
	}
}

func encodeStream(v msgp.Encodable) []byte {
	w := rankdb.NewWriterMsg()
	nonil(v.EncodeMsg(w.Writer()), "the stream interface refuses to encode a value")
	b := append(make([]byte, 0, 64), w.Buffer().Bytes()...)
	w.Close()
	return b
}

// roundtrip checks both interfaces on v; a and s are fresh values to decode into and
// same compares the decoded with the original.
func roundtrip(v codec, a, s codec, same func(got codec) bool, ordered bool) {
	m, err := v.MarshalMsg(nil)
	nonil(err, "a value cannot be marshalled")
	vv.Assert(len(m) <= v.Msgsize(), "an encoding is larger than the size estimate")
	e := encodeStream(v)
	if ordered {
		vv.Assert(sameBytes(m, e), "the byte-slice and the stream interface encode a value differently")
	} else {
		vv.Assert(len(m) == len(e), "the byte-slice and the stream interface encode a value differently")
	}
	// appended to existing bytes, and followed by other bytes
	pre := []byte{0xde, 0xad}
	m2, err := v.MarshalMsg(pre)
	nonil(err, "a value cannot be marshalled")
	vv.Assert(vv.And(len(m2) == len(m)+2, m2[0] == 0xde, m2[1] == 0xad), "marshalling does not append")
	if ordered {
		vv.Assert(sameBytes(m, m2[2:]), "marshalling to a non empty slice gives other bytes")
	}
	tail := []byte{0xc1, 0x91}
	rest, err := a.UnmarshalMsg(append(append(make([]byte, 0, len(m)+2), m...), tail...))
	nonil(err, "an encoded value cannot be unmarshalled")
	vv.Assert(sameBytes(rest, tail), "unmarshalling does not consume exactly the encoding")
	vv.Assert(same(a), "unmarshalling gives another value")
	br := rankdb.NewReaderMsgp(append(append(make([]byte, 0, len(e)+2), e...), tail...))
	nonil(s.DecodeMsg(br.Reader()), "an encoded value cannot be decoded from a stream")
	vv.Assert(same(s), "decoding from a stream gives another value")
	for _, b := range tail {
		x, err := br.Reader().R.ReadByte()
		vv.Assert(err == nil && x == b, "decoding from a stream does not consume exactly the encoding")
	}
	br.Close()
	vv.Observe("len", uint64(len(m)))
	for _, b := range m {
		if ordered {
			vv.Observe("b", uint64(b))
		}
	}
}

// ---- the layout, written down independently ----

func putUint(b []byte, v uint64) []byte {
	switch {
	case v < 1<<7:
		return append(b, byte(v))
	case v < 1<<8:
		return append(b, 0xcc, byte(v))
	case v < 1<<16:
		return append(b, 0xcd, byte(v>>8), byte(v))
	case v < 1<<32:
		return append(b, 0xce, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return append(b, 0xcf, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func putInt(b []byte, v int64) []byte {
	switch {
	case v >= 0 && v < 1<<7:
		return append(b, byte(v))
	case v < 0 && v >= -32:
		return append(b, byte(v))
	case v >= -1<<7 && v < 1<<7:
		return append(b, 0xd0, byte(v))
	case v >= -1<<15 && v < 1<<15:
		return append(b, 0xd1, byte(v>>8), byte(v))
	case v >= -1<<31 && v < 1<<31:
		return append(b, 0xd2, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return append(b, 0xd3, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func putBin(b, v []byte) []byte {
	if len(v) < 256 {
		b = append(b, 0xc4, byte(len(v)))
	} else {
		b = append(b, 0xc5, byte(len(v)>>8), byte(len(v)))
	}
	return append(b, v...)
}

func putStr(b []byte, v string) []byte {
	if len(v) < 32 {
		b = append(b, 0xa0|byte(len(v)))
	} else {
		b = append(b, 0xd9, byte(len(v)))
	}
	return append(b, v...)
}

func putElem(b []byte, e rankdb.Element) []byte {
	b = append(b, 0x95)
	b = putUint(b, e.Score)
	b = putUint(b, uint64(e.ID))
	b = putBin(b, e.Payload)
	b = putUint(b, uint64(e.TieBreaker))
	return putUint(b, uint64(e.Updated))
}

var payloadSizes = []int{0, 1, 3, 255, 256, 2047, 5000}

// payload draws a payload; long ones are arbitrary only at both ends.
func payload(name string, n int) []byte {
	if n <= 300 {
		return vv.Bytes(name, n)
	}
	b := make([]byte, n)
	copy(b, vv.Bytes(name, 4))
	copy(b[n-4:], vv.Bytes(name+".end", 4))
	return b
}

// small limits v to the one byte encodings.
func small(v uint64) bool { return v < 1<<7 }

// elem draws an element; the fields outside the mask are limited to the smallest
// encoding.
func elem(name string, free int) rankdb.Element {
	e := vvlib.Elem(name)
	if free&1 == 0 {
		vv.Assume(small(e.Score))
	}
	if free&2 == 0 {
		vv.Assume(small(uint64(e.ID)))
	}
	if free&4 == 0 {
		vv.Assume(small(uint64(e.TieBreaker)))
	}
	if free&8 == 0 {
		vv.Assume(small(uint64(e.Updated)))
	}
	return e
}

// VH_C11_Element: every element round-trips.
func VH_C11_Element() {
	e := vvlib.Elem("e")
	e.Payload = vv.Bytes("payload", 1)
	var a, s rankdb.Element
	roundtrip(&e, &a, &s, func(g codec) bool { return vvlib.Same(*g.(*rankdb.Element), e) }, true)
	m, _ := e.MarshalMsg(nil)
	vv.Assert(sameBytes(m, putElem(nil, e)), "the stored layout of an element changed")
}

// VH_C11_Payload: every payload size class round-trips.
func VH_C11_Payload() {
	n := payloadSizes[vv.Choose("size", len(payloadSizes))]
	e := elem("e", 0)
	e.Payload = payload("payload", n)
	if n == 0 && vv.Bool("nil") {
		e.Payload = nil
	}
	var a, s rankdb.Element
	// decoding into a used element
	if vv.Bool("dirty") {
		a = rankdb.Element{Score: 1, ID: 2, Payload: []byte{9, 9}, TieBreaker: 3, Updated: 4}
		s = rankdb.Element{Score: 1, ID: 2, Payload: []byte{9, 9}, TieBreaker: 3, Updated: 4}
	}
	roundtrip(&e, &a, &s, func(g codec) bool { return vvlib.Same(*g.(*rankdb.Element), e) }, true)
	m, _ := e.MarshalMsg(nil)
	vv.Assert(sameBytes(m, putElem(nil, e)), "the stored layout of an element changed")
}

func sameElems(a, b rankdb.Elements) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, vvlib.Same(a[i], b[i]))
	}
	return r
}

// VH_C11_Elements: collections of elements round-trip.
func VH_C11_Elements() {
	n := vv.Choose("n", sz(3, 4))
	es := make(rankdb.Elements, n)
	k := vv.Choose("wide", n)
	for i := range es {
		f := 0
		if i == k {
			f = 1 << vv.Choose("field", 4)
			if vv.Tier() == 1 {
				f |= 1 << vv.Choose("field2", 4)
			}
		}
		es[i] = elem(fmt.Sprintf("e%d", i), f)
		es[i].Payload = vv.Bytes(fmt.Sprintf("p%d", i), i%2)
	}
	a, s := rankdb.Elements{}, rankdb.Elements{}
	if vv.Bool("dirty") {
		a = make(rankdb.Elements, 2, 2)
		s = make(rankdb.Elements, 2, 2)
		a[0], s[0] = rankdb.Element{ID: 4, Payload: []byte{1, 2}}, rankdb.Element{ID: 4, Payload: []byte{1, 2}}
	}
	roundtrip(&es, &a, &s, func(g codec) bool { return sameElems(*g.(*rankdb.Elements), es) }, true)
	m, _ := es.MarshalMsg(nil)
	want := []byte{0x90 | byte(n)}
	for _, e := range es {
		want = putElem(want, e)
	}
	vv.Assert(sameBytes(m, want), "the stored layout of elements changed")
}

// VH_C11_Many: an element count of every header size round-trips.
func VH_C11_Many() {
	n := []int{15, 16, 17}[vv.Choose("n", 3)]
	es := make(rankdb.Elements, n)
	for i := range es {
		es[i] = rankdb.Element{Score: uint64(100 - i), ID: rankdb.ElementID(i), Payload: []byte{}}
	}
	es[n-1] = elem("e", 0)
	a, s := rankdb.Elements{}, rankdb.Elements{}
	roundtrip(&es, &a, &s, func(g codec) bool { return sameElems(*g.(*rankdb.Elements), es) }, true)
}

// VH_C11_Index: index elements round-trip.
func VH_C11_Index() {
	e := rankdb.IndexElement{Element: vvlib.Elem("e")}
	e.Payload = vv.Bytes("payload", vv.Choose("n", 2))
	if len(e.Payload) == 1 {
		vv.Assume(small(uint64(e.Updated)))
	}
	var a, s rankdb.IndexElement
	roundtrip(&e, &a, &s, func(g codec) bool { return vvlib.Same(g.(*rankdb.IndexElement).Element, e.Element) }, true)
	es := rankdb.IndexElements{Elements: rankdb.Elements{e.Element, elem("f", 0)}}
	es.Elements[1].Payload = []byte{}
	if vv.And(small(e.Score), small(uint64(e.Updated))) {
		var a, s rankdb.IndexElements
		roundtrip(&es, &a, &s, func(g codec) bool { return sameElems(g.(*rankdb.IndexElements).Elements, es.Elements) }, true)
	}
}

// VH_C11_IDs: id collections round-trip.
func VH_C11_IDs() {
	n := vv.Choose("n", 3)
	ids := make(rankdb.ElementIDs, n)
	for i := range ids {
		ids[i] = rankdb.ElementID(vv.U64(fmt.Sprintf("id%d", i)))
	}
	a, s := rankdb.ElementIDs{}, rankdb.ElementIDs{}
	roundtrip(&ids, &a, &s, func(c codec) bool {
		g := *c.(*rankdb.ElementIDs)
		if len(g) != len(ids) {
			return false
		}
		r := true
		for i := range g {
			r = vv.And(r, g[i] == ids[i])
		}
		return r
	}, true)
	if n == 1 {
		var a, s rankdb.ElementID
		roundtrip(&ids[0], &a, &s, func(c codec) bool { return *c.(*rankdb.ElementID) == ids[0] }, true)
	}
}

// VH_C11_ListIDs: list ids round-trip.
func VH_C11_ListIDs() {
	n := vv.Choose("n", 3)
	ids := make(rankdb.ListIDs, n)
	for i := range ids {
		ids[i] = rankdb.ListID(vv.Str(fmt.Sprintf("id%d", i), []int{0, 2, 31, 32, 255, 256}[vv.Choose("len", 4)]))
	}
	a, s := rankdb.ListIDs{}, rankdb.ListIDs{}
	roundtrip(&ids, &a, &s, func(c codec) bool {
		g := *c.(*rankdb.ListIDs)
		if len(g) != len(ids) {
			return false
		}
		r := true
		for i := range g {
			r = vv.And(r, g[i] == ids[i])
		}
		return r
	}, true)
}

func seg(name string, free, free2 int) rankdb.Segment {
	g := rankdb.Segment{
		ID: rankdb.SegmentID(vv.U32(name + ".id")), Min: vv.U64(name + ".min"), Max: vv.U64(name + ".max"),
		MinTie: vv.U32(name + ".mintie"), MaxTie: vv.U32(name + ".maxtie"), N: int(vv.I64(name + ".n")), Updated: vv.I64(name + ".upd"),
		Parent: rankdb.SegmentsID(vv.Str(name+".parent", 2)),
	}
	if free != 0 && free2 != 0 {
		vv.Assume(small(uint64(g.ID)))
	}
	if free != 1 && free2 != 1 {
		vv.Assume(small(g.Min))
	}
	if free != 2 && free2 != 2 {
		vv.Assume(small(g.Max))
	}
	if free != 3 && free2 != 3 {
		vv.Assume(small(uint64(g.MinTie)))
	}
	if free != 4 && free2 != 4 {
		vv.Assume(small(uint64(g.MaxTie)))
	}
	if free != 5 && free2 != 5 {
		vv.Assume(vv.And(g.N >= 0, g.N < 128))
	}
	if free != 6 && free2 != 6 {
		vv.Assume(vv.And(g.Updated >= 0, g.Updated < 128))
	}
	return g
}

func sameSeg(a, b *rankdb.Segment) bool {
	return vv.And(a.ID == b.ID, a.Min == b.Min, a.Max == b.Max, a.MinTie == b.MinTie, a.MaxTie == b.MaxTie, a.N == b.N,
		a.Updated == b.Updated, a.Parent == b.Parent)
}

// VH_C11_Segment: one segment round-trips, with any two fields at any value.
func VH_C11_Segment() {
	f := vv.Choose("field", 7)
	g := seg("s", f, (f+1+vv.Choose("field2", 6))%7)
	var a, s rankdb.Segment
	roundtrip(&g, &a, &s, func(c codec) bool { return sameSeg(c.(*rankdb.Segment), &g) }, true)
}

func sameSegments(a, b *rankdb.Segments) bool {
	if len(a.Segments) != len(b.Segments) {
		return false
	}
	r := vv.And(a.ID == b.ID, a.NextID == b.NextID, a.IsIndex == b.IsIndex)
	for i := range a.Segments {
		r = vv.And(r, sameSeg(&a.Segments[i], &b.Segments[i]))
	}
	return r
}

// VH_C11_Segments: a set of segments round-trips.
func VH_C11_Segments() {
	n := vv.Choose("n", sz(3, 4))
	g := rankdb.Segments{ID: rankdb.SegmentsID(vv.Str("id", []int{0, 5, 32}[vv.Choose("idlen", 3)])), NextID: rankdb.SegmentID(vv.U32("next")), IsIndex: vv.Bool("index")}
	for i := 0; i < n; i++ {
		g.Segments = append(g.Segments, seg(fmt.Sprintf("s%d", i), 5+i, 5+i))
	}
	if n > 0 {
		vv.Assume(small(uint64(g.NextID)))
	}
	var a, s rankdb.Segments
	roundtrip(&g, &a, &s, func(c codec) bool { return sameSegments(c.(*rankdb.Segments), &g) }, true)
	// the layout
	if n == 0 {
		want := putStr([]byte{0x84, 0xa2, 'I', 'D'}, string(g.ID))
		want = append(putStr(want, "Segments"), 0x90)
		want = putUint(putStr(want, "NextID"), uint64(g.NextID))
		want = putStr(want, "IsIndex")
		if g.IsIndex {
			want = append(want, 0xc3)
		} else {
			want = append(want, 0xc2)
		}
		m, _ := g.MarshalMsg(nil)
		vv.Assert(sameBytes(m, want), "the stored layout of segments changed")
	}
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		r = vv.And(r, ok, w == v)
	}
	return r
}

// VH_C11_List: a list with any settings round-trips.
func VH_C11_List() {
	free := vv.Choose("field", 4)
	n := 0
	if free == 0 {
		n = vv.Choose("meta", 3)
	}
	meta := map[string]string{}
	for i := 0; i < n; i++ {
		meta[[]string{"key", ""}[i]] = vv.Str(fmt.Sprintf("val%d", i), 1+i)
	}
	l := rankdb.List{ID: rankdb.ListID(vv.Str("id", 2)), Set: "set", Metadata: meta, SplitSize: int(vv.I64("split")), MergeSize: int(vv.I64("merge")),
		LoadIndex: vv.Bool("loadindex"), Scores: rankdb.SegmentsID(vv.Str("scores", 1)), Index: rankdb.SegmentsID("ix")}
	if free == 3 {
		l.Set = vv.Str("longset", []int{0, 31, 32, 255, 256}[vv.Choose("setlen", 4)])
	}
	if n == 0 && vv.Bool("nilmeta") {
		l.Metadata = nil
	}
	if free != 1 {
		vv.Assume(vv.And(l.SplitSize >= 0, l.SplitSize < 128))
	}
	if free != 2 {
		vv.Assume(vv.And(l.MergeSize >= 0, l.MergeSize < 128))
	}
	var a, s rankdb.List
	if vv.Bool("dirty") {
		a.Metadata = map[string]string{"old": "x", "key": "y"}
		s.Metadata = map[string]string{"old": "x", "key": "y"}
	}
	roundtrip(&l, &a, &s, func(c codec) bool {
		g := c.(*rankdb.List)
		return vv.And(g.ID == l.ID, g.Set == l.Set, sameMap(l.Metadata, g.Metadata), g.SplitSize == l.SplitSize, g.MergeSize == l.MergeSize,
			g.LoadIndex == l.LoadIndex, g.Scores == l.Scores, g.Index == l.Index)
	}, n < 2)
	if n == 0 {
		want := putStr([]byte{0x98}, string(l.ID))
		want = append(putStr(want, l.Set), 0x80)
		want = putInt(putInt(want, int64(l.SplitSize)), int64(l.MergeSize))
		if l.LoadIndex {
			want = append(want, 0xc3)
		} else {
			want = append(want, 0xc2)
		}
		want = putStr(putStr(want, string(l.Scores)), string(l.Index))
		m, _ := l.MarshalMsg(nil)
		vv.Assert(sameBytes(m, want), "the stored layout of a list changed")
	}
}
