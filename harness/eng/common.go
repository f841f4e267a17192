// Package eng holds the harnesses for the adapters of storage engines. The
// engines are stand-ins (stands/): transactions over maps in memory of which
// any call can be made to fail.
package eng

import (
	"context"
	"errors"
	"fmt"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
)

var ctx = context.Background()

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

var errInjected = errors.New("injected failure")

// faults makes the call with index failAt of an engine fail.
type faults struct {
	failAt, calls int
	off           bool
	op            string
}

func (f *faults) fail(op string) error {
	if f.off {
		return nil
	}
	k := f.calls
	f.calls++
	if k == f.failAt {
		f.op = op
		return errInjected
	}
	return nil
}

type pair struct{ set, key string }

// state is what a key can hold: one value, or nothing if gone, or either of several after a failed change.
type state struct {
	p   pair
	may []val
}

type val struct {
	gone bool
	b    []byte
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, a[i] == b[i])
	}
	return r
}

// box checks a store against a map.
type box struct {
	st   blobstore.Store
	f    *faults
	keys []*state
	n    int
	name string
}

func newBox(name string, st blobstore.Store, f *faults, ps ...pair) *box {
	b := &box{st: st, f: f, name: name}
	for _, p := range ps {
		b.keys = append(b.keys, &state{p: p, may: []val{{gone: true}}})
	}
	return b
}

func (b *box) msg(s string) string { return "C30: " + b.name + ": " + s }

// ask reads a key and compares it with what it can hold.
func (b *box) ask(k *state, faulty bool) {
	b.f.off = !faulty
	had := b.f.op
	got, err := b.st.Get(ctx, k.p.set, k.p.key)
	b.f.off = false
	if b.f.op != had {
		vv.Assert(err != nil, b.msg("a read that failed in the engine reports no error"))
		vv.Assert(err != blobstore.ErrBlobNotFound, b.msg("a read that failed in the engine says that the blob does not exist"))
		return
	}
	if err != nil {
		vv.Assert(err == blobstore.ErrBlobNotFound, b.msg("a read fails for no reason"))
		b.narrow(k, func(v val) bool { return v.gone }, "a blob that was stored is not found")
		return
	}
	b.narrow(k, func(v val) bool { return !v.gone && same(v.b, got) }, "a read does not return the last value stored")
	for i := range got {
		got[i] = ^got[i]
	}
}

func (b *box) narrow(k *state, ok func(v val) bool, what string) {
	var rest []val
	any := false
	for _, v := range k.may {
		if c := ok(v); vv.Symbolic() || c {
			any = vv.Or(any, c)
			rest = append(rest, v)
		}
	}
	vv.Assert(any, b.msg(what))
	if len(k.may) == 1 {
		return
	}
	rest = nil
	for _, v := range k.may {
		if ok(v) {
			rest = append(rest, v)
		}
	}
	k.may = rest
}

func (b *box) set(k *state, n int) {
	v := make([]byte, n)
	for i := range v {
		v[i] = vv.U8(fmt.Sprint("val", b.n, "_", i))
	}
	b.n++
	keep := append([]byte{}, v...)
	had := b.f.op
	err := b.st.Set(ctx, k.p.set, k.p.key, v)
	for i := range v {
		v[i] = ^v[i]
	}
	if b.f.op != had {
		vv.Assert(err != nil, b.msg("a write that failed in the engine reports no error"))
	}
	if err != nil {
		vv.Assert(b.f.op != had, b.msg("a write fails for no reason"))
		k.may = append(k.may, val{b: keep})
		return
	}
	k.may = []val{{b: keep}}
}

func (b *box) del(k *state) {
	had := b.f.op
	err := b.st.Delete(ctx, k.p.set, k.p.key)
	if b.f.op != had {
		vv.Assert(err != nil, b.msg("a delete that failed in the engine reports no error"))
	}
	if err != nil {
		vv.Assert(b.f.op != had, b.msg("a delete fails for no reason"))
		k.may = append(k.may, val{gone: true})
		return
	}
	k.may = []val{{gone: true}}
}

func (b *box) all() {
	for _, k := range b.keys {
		b.ask(k, false)
	}
}

// step does one of the operations on one of the keys, values are 0 or 2 bytes.
func (b *box) step(i int) {
	switch o := vv.Choose(fmt.Sprint("op", i), 7); o {
	case 0, 1:
		b.set(b.keys[o], 2)
	case 2:
		b.set(b.keys[0], 0)
	case 3, 4:
		b.del(b.keys[o-3])
	case 5, 6:
		b.ask(b.keys[o-5], true)
	}
	b.all()
}
