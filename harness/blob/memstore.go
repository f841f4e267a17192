package blob

import (
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/vv"
)

type pair struct{ set, key string }

func drawPair(n string) pair {
	return pair{vv.Str(n+"set", vv.Choose(n+"setlen", sz(3, 4))), vv.Str(n+"key", 2+vv.Choose(n+"keylen", sz(2, 3)))}
}

func eqPair(a, b pair) bool {
	if len(a.set) != len(b.set) || len(a.key) != len(b.key) {
		return false
	}
	return vv.And(a.set == b.set, a.key == b.key)
}

// Two (set, key) pairs with arbitrary bytes (sets of 0-2, keys of 2-3 bytes);
// a value of 0-2 arbitrary bytes is set for the first, then the second is set
// or deleted, then both are read. The caller's buffers are overwritten after
// every call.
func VH_C23_pairs() {
	m := memstore.NewMemStore()
	a, b := drawPair("a"), drawPair("b")
	va := vv.Bytes("va", vv.Choose("valen", 3))
	wa := append([]byte{}, va...)
	vv.Assert(m.Set(ctx, a.set, a.key, va) == nil, "C23: setting a blob failed")
	for i := range va {
		va[i] ^= 0xff
	}
	got, err := m.Get(ctx, a.set, a.key)
	vv.Assert(err == nil, "C23: a blob that was set is not found")
	vv.Assert(same(got, wa), "C23: wrong blob returned")
	eq := eqPair(a, b)
	vb := vv.Bytes("vb", 1)
	wb := append([]byte{}, vb...)
	switch vv.Choose("op", 3) {
	case 0: // nothing happened to b
		_, err = m.Get(ctx, b.set, b.key)
		vv.Assert(vv.Iff(err == nil, eq), "C23: a pair that was never set is found, or one that was set is not")
		vv.Assert(err == nil || err == blobstore.ErrBlobNotFound, "C23: wrong error for a missing blob")
		vv.Cover("missing")
	case 1:
		vv.Assert(m.Set(ctx, b.set, b.key, vb) == nil, "C23: setting a second blob failed")
		vb[0] ^= 0xff
		g, err := m.Get(ctx, b.set, b.key)
		vv.Assert(err == nil, "C23: second blob not found")
		vv.Assert(same(g, wb), "C23: wrong second blob")
		g, err = m.Get(ctx, a.set, a.key)
		vv.Assert(err == nil, "C23: first blob lost by setting another")
		want := wa
		if eq {
			want = wb
		}
		vv.Assert(same(g, want), "C23: setting one pair changed another")
		vv.Assert(same(got, wa), "C23: a returned blob changed later")
		vv.Cover("set")
	case 2:
		vv.Assert(m.Delete(ctx, b.set, b.key) == nil, "C23: delete failed")
		g, err := m.Get(ctx, a.set, a.key)
		if eq {
			vv.Assert(err == blobstore.ErrBlobNotFound, "C23: a deleted blob is still there")
		} else {
			vv.Assert(err == nil, "C23: deleting one pair removed another")
			vv.Assert(same(g, wa), "C23: deleting one pair changed another")
		}
		_, err = m.Get(ctx, b.set, b.key)
		vv.Assert(err == blobstore.ErrBlobNotFound, "C23: a deleted blob is still there")
		vv.Cover("delete")
	}
}

// Keys of 0-3 bytes and values of the size limit and one more: refused writes
// return an error and leave the previous blob alone; others are stored.
func VH_C23_limits() {
	m := memstore.NewMemStore()
	key := vv.Str("key", vv.Choose("keylen", 4))
	prev := vv.Choose("prev", 2) == 1
	old := []byte{vv.U8("old")}
	var perr error
	if prev {
		perr = m.Set(ctx, "s", key, old)
		vv.Assert((perr == nil) == (len(key) >= 2), "C23: short key accepted or usual key refused")
	}
	n := []int{0, 1, blobstore.MaxSize, blobstore.MaxSize + 1}[vv.Choose("n", 4)]
	v := make([]byte, n)
	if n > 0 {
		v[0] = vv.U8("first")
		v[n-1] = vv.U8("last")
	}
	err := m.Set(ctx, "s", key, v)
	if n > blobstore.MaxSize || len(key) < 2 {
		vv.Assert(err != nil, "C23: a too large blob or too short key was accepted")
		g, err := m.Get(ctx, "s", key)
		if prev && perr == nil {
			vv.Assert(err == nil, "C23: a refused write removed the previous blob")
			vv.Assert(same(g, old), "C23: a refused write changed the previous blob")
		} else {
			vv.Assert(err == blobstore.ErrBlobNotFound, "C23: a refused write stored something")
		}
		vv.Cover("refused")
		return
	}
	vv.Assert(err == nil, "C23: a blob within the limits was refused")
	g, err := m.Get(ctx, "s", key)
	vv.Assert(err == nil, "C23: a blob within the limits is not found")
	vv.Assert(len(g) == n, "C23: a blob came back with another size")
	if n > 0 {
		vv.Assert(vv.And(g[0] == v[0], g[n-1] == v[n-1]), "C23: a blob came back changed")
	}
	vv.Cover("stored")
}
