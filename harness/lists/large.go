package lists

import (
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
)

// VH_L07_populate: populating with more elements than fit in the initial list: the rest is inserted. The limit is
// lowered to 2 and the list populated with 3 or 4 (thorough 5) arbitrary elements.
func VH_L07_populate() {
	st := newStore()
	n := 3 + vv.Choose("n", sz(2, 3))
	ss := []sizes{{4, 1}, {2, 1}, {2000, 500}}
	if n > 3 && vv.Tier() == 0 {
		ss = ss[:1]
	}
	s := pickSizes(ss...)
	w := build("a", st, lay([]int{1}, 1), s.split, s.merge)
	els := newElems("e", n)
	in := make(rankdb.Elements, n)
	copy(in, els)
	err := w.l.Populate(ctx, st, in)
	vv.Assert(err == nil, "populate failed without a storage failure")
	r := expect(st, w.l, els, "large populate")
	agree(w.l, st, r.els, "large populate")
	tidy(st, "large populate", w.l)
	vv.Cover(fmt.Sprintf("populated%d", n))
}
