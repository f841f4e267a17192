package blob

import (
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
)

const limit = 1024

// sizes around every multiple of the limit up to 3 parts: the header takes 1
// byte of the first part and the split reserves up to 3.
func blobSize(n string) int {
	v := vv.U64(n + "size")
	w := uint64(sz(6, 10))
	vv.Assume(vv.Or(v < 3, vv.And(v >= limit-5, v < limit-5+w), vv.And(v >= 2*limit-5, v < 2*limit-5+w), vv.And(v >= 3*limit-5, v < 3*limit-5+w)))
	return int(vv.Concrete(v))
}

// content has arbitrary bytes at the ends and around every part border.
func content(n string, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i*7) ^ byte(i>>8)
	}
	for i := 0; i < size; i++ {
		d := i % limit
		if i < 2 || i >= size-2 || d < 1 || d >= limit-2 {
			b[i] = vv.U8(n)
		}
	}
	return b
}

func mkMax(s *store) *blobstore.MaxSizeStore {
	m, err := blobstore.NewMaxSizeStore(s, limit)
	vv.Assert(err == nil, "C21: creating the store failed")
	return m
}

// A blob of any size class is written over nothing or a previous blob of any
// size class (part counts known or not), then read back through the same and a
// fresh instance; healthy storage.
func VH_C21_roundtrip() {
	s := newStore()
	m := mkMax(s)
	other := []byte{vv.U8("other")}
	vv.Assert(m.Set(ctx, "set", "other", other) == nil, "C21: set failed")
	warm := true
	nprev := 0
	if vv.Choose("prev", 2) == 1 {
		ps := []int{1, limit - 4, 2*limit - 4, 3*limit - 4}[vv.Choose("prevsize", 4)]
		vv.Assert(m.Set(ctx, "set", "key", make([]byte, ps)) == nil, "C21: set failed")
		nprev = len(s.b) - 1
		switch vv.Choose("cache", 3) {
		case 1:
			m, warm = mkMax(s), false
		case 2:
			m = mkMax(s)
			_, err := m.Get(ctx, "set", "key")
			vv.Assert(err == nil, "C21: get failed")
		}
	}
	b := content("b", blobSize(""))
	w := append([]byte{}, b...)
	vv.Assert(m.Set(ctx, "set", "key", b) == nil, "C21: set failed with healthy storage")
	vv.Assert(len(b) == len(w), "C21: the caller's blob changed")
	vv.Assert(same(b, w), "C21: the caller's blob changed")
	for i := range b {
		b[i] ^= 0x55
	}
	vv.Assert(s.max <= limit, "C21: a write to the underlying store exceeds the limit")
	parts := len(s.b) - 1
	g, err := m.Get(ctx, "set", "key")
	vv.Assert(err == nil, "C21: get failed with healthy storage")
	vv.Assert(len(g) == len(w), "C21: blob came back with another size")
	vv.Assert(same(g, w), "C21: blob came back changed")
	f := mkMax(s)
	g, err = f.Get(ctx, "set", "key")
	vv.Assert(err == nil, "C21: get through a fresh store failed")
	vv.Assert(len(g) == len(w), "C21: blob came back with another size")
	vv.Assert(same(g, w), "C21: blob came back changed")
	need := 1
	for c := len(w) + 3; c > need*limit; {
		need++
	}
	if warm || nprev == 0 {
		vv.Assert(parts <= need, "C21: surplus parts left behind")
	} else {
		vv.Assert(parts <= need || parts <= nprev, "C21: more parts than either blob needs")
	}
	if len(w) < limit/2 {
		vv.Cover("small")
	} else {
		vv.Cover("parts")
	}
	// delete, with any knowledge of the number of parts
	d := m
	switch vv.Choose("del", 3) {
	case 1:
		d = f
	case 2:
		d = mkMax(s)
	}
	vv.Assert(d.Delete(ctx, "set", "key") == nil, "C21: delete failed with healthy storage")
	_, err = d.Get(ctx, "set", "key")
	vv.Assert(err == blobstore.ErrBlobNotFound, "C21: blob still there after delete")
	if warm || nprev == 0 {
		vv.Assert(len(s.b) == 1, "C21: parts left behind by delete")
	}
	g, err = d.Get(ctx, "set", "other")
	vv.Assert(err == nil && len(g) == 1, "C21: another blob lost")
	vv.Assert(g[0] == other[0], "C21: another blob changed")
	// use again
	s2 := []byte{7}
	vv.Assert(d.Set(ctx, "set", "key", s2) == nil, "C21: set after delete failed")
	g, err = mkMax(s).Get(ctx, "set", "key")
	vv.Assert(err == nil && len(g) == 1 && g[0] == 7, "C21: blob written after delete not read back")
	vv.Assert(m.Delete(ctx, "set", "missing") == nil, "C21: deleting a missing blob failed")
	_, err = m.Get(ctx, "set", "missing")
	vv.Assert(err == blobstore.ErrBlobNotFound, "C21: wrong result for a missing blob")
}

// Any one call to the underlying store fails while a blob of 1-3 parts is
// read, overwritten by one of 1-3 parts or deleted.
func VH_C21_faults() {
	s := newStore()
	m := mkMax(s)
	sizes := []int{2, 2*limit - 4, 3*limit - 4}
	old := content("old", sizes[vv.Choose("oldsize", 3)])
	vv.Assert(m.Set(ctx, "set", "key", old) == nil, "C21: set failed")
	if vv.Choose("cold", 2) == 1 {
		m = mkMax(s)
	}
	s.calls, s.failAt = 0, vv.Int("failAt", 0, 6)
	switch vv.Choose("op", 3) {
	case 0:
		g, err := m.Get(ctx, "set", "key")
		if s.failed != "" {
			vv.Assert(err != nil, "C21: a failed read is reported as success")
		} else {
			vv.Assert(err == nil, "C21: get failed with healthy storage")
			vv.Assert(len(g) == len(old), "C21: blob came back with another size")
			vv.Assert(same(g, old), "C21: blob came back changed")
		}
		s.failAt = -1
		g, err = m.Get(ctx, "set", "key")
		vv.Assert(err == nil && len(g) == len(old), "C21: reading again after a failure does not work")
		vv.Assert(same(g, old), "C21: reading again after a failure gives something else")
		vv.Cover("get")
	case 1:
		b := content("new", sizes[vv.Choose("newsize", 3)])
		err := m.Set(ctx, "set", "key", b)
		if s.failed == "Set" {
			vv.Assert(err != nil, "C21: a failed write is reported as success")
		}
		s.failAt = -1
		if err == nil {
			g, err := mkMax(s).Get(ctx, "set", "key")
			vv.Assert(err == nil && len(g) == len(b), "C21: an acknowledged blob is not read back")
			vv.Assert(same(g, b), "C21: an acknowledged blob came back changed")
		}
		vv.Assert(m.Set(ctx, "set", "key", b) == nil, "C21: writing again after a failure does not work")
		g, err := m.Get(ctx, "set", "key")
		vv.Assert(err == nil && len(g) == len(b), "C21: an acknowledged blob is not read back")
		vv.Assert(same(g, b), "C21: an acknowledged blob came back changed")
		vv.Assert(m.Delete(ctx, "set", "key") == nil, "C21: delete failed")
		_, err = mkMax(s).Get(ctx, "set", "key")
		vv.Assert(err == blobstore.ErrBlobNotFound, "C21: blob still there after delete")
		vv.Cover("set")
	case 2:
		err := m.Delete(ctx, "set", "key")
		if s.failed != "" {
			vv.Assert(err != nil, "C21: a failed delete is reported as success")
			s.failAt = -1
			_ = m.Delete(ctx, "set", "key")
		} else {
			vv.Assert(err == nil, "C21: delete failed with healthy storage")
			vv.Assert(len(s.b) == 0, "C21: parts left behind by delete")
			s.failAt = -1
		}
		_, err = mkMax(s).Get(ctx, "set", "key")
		vv.Assert(err == blobstore.ErrBlobNotFound, "C21: blob still there after delete")
		vv.Cover("delete")
	}
}

// A blob of as many parts as make the header one byte longer, with arbitrary
// bytes at both ends, written and read through the same and a fresh instance.
func VH_C21_manyparts() {
	s := newStore()
	m := mkMax(s)
	size := int(vv.Concrete(uint64(vv.Int("size", 128*limit-4, 128*limit+4)))) + limit*vv.Choose("parts", sz(2, 4))
	b := make([]byte, size)
	b[0], b[1] = vv.U8("b"), vv.U8("b")
	for i := size - 6; i < size; i++ {
		b[i] = vv.U8("b")
	}
	w := append([]byte{}, b...)
	vv.Assert(m.Set(ctx, "set", "key", b) == nil, "C21: set failed with healthy storage")
	vv.Assert(s.max <= limit, "C21: a write to the underlying store exceeds the limit")
	for i := 0; i < 2; i++ {
		g, err := m.Get(ctx, "set", "key")
		vv.Assert(err == nil, "C21: get failed with healthy storage")
		vv.Assert(len(g) == len(w), "C21: blob came back with another size")
		vv.Assert(same(g[:8], w[:8]), "C21: blob came back changed")
		vv.Assert(same(g[size-8:], w[size-8:]), "C21: blob came back changed")
		m = mkMax(s)
	}
	vv.Assert(m.Delete(ctx, "set", "key") == nil, "C21: delete failed with healthy storage")
	vv.Assert(len(s.b) == 0, "C21: parts left behind by delete")
	vv.Cover("many parts")
}
