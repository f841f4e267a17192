package coll

import (
	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// VH_L02_sort: the parallel sort for large collections (split, sort the parts, merge them in pairs), with the
// thresholds lowered so that 4 or 5 (thorough 6) arbitrary elements take it in parts of 2.
func VH_L02_sort() {
	n := 4 + vv.Choose("n", sz(2, 3))
	in := vvlib.Elems("e", n)
	orig := vvlib.Copy(in)
	l := rankdb.Elements(in)
	was := vvlib.Ordered(orig)
	changed := l.Sort()
	vv.Assert(vvlib.Ordered(l), "Sort result is not in rank order")
	vv.Assert(vvlib.Permutation(orig, l), "Sort does not permute its input")
	vv.Assert(changed == vv.Not(was), "Sort misreports whether it changed anything")
	vv.Cover("sorted")
	vvlib.ObserveElems("out", l)
}
