package coll

import (
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/sortfloat"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

// VH_C01_order: Above is the documented strict total order.
func VH_C01_order() {
	a, b, c := vvlib.Elem("a"), vvlib.Elem("b"), vvlib.Elem("c")
	ab, ba := a.Above(b), b.Above(a)
	vv.Assert(ab == vvlib.Above(a, b), "Above differs from score/tie-breaker/update/id order")
	vv.Assert(vv.Not(vv.And(ab, ba)), "two elements rank above each other")
	vv.Assert(vv.Implies(a.ID != b.ID, vv.Or(ab, ba)), "elements with different ids are not ordered")
	vv.Assert(vv.Implies(vv.And(ab, b.Above(c)), a.Above(c)), "order is not transitive")
	vv.Assert(vv.Not(a.Above(a)), "element ranks above itself")
	vv.Cover("order")
	vv.Observe("ab", uint64(vv.B2I(ab)))
}

// VH_C01_bounds: PrevMax and AboveThis are the adjacent pairs.
func VH_C01_bounds() {
	a, b := vvlib.Elem("a"), vvlib.Elem("b")
	ps, pt := a.PrevMax()
	as, at := a.AboveThis()
	lt := func(s1 uint64, t1 uint32, s2 uint64, t2 uint32) bool {
		return vv.Or(s1 < s2, vv.And(s1 == s2, t1 < t2))
	}
	isMin := vv.And(a.Score == 0, a.TieBreaker == 0)
	isMax := vv.And(a.Score == math.MaxUint64, a.TieBreaker == math.MaxUint32)
	vv.Assert(vv.Implies(vv.Not(isMin), lt(ps, pt, a.Score, a.TieBreaker)), "PrevMax is not below the element")
	vv.Assert(vv.Implies(isMin, vv.And(ps == 0, pt == 0)), "PrevMax does not saturate")
	// nothing between
	vv.Assert(vv.Not(vv.And(lt(ps, pt, b.Score, b.TieBreaker), lt(b.Score, b.TieBreaker, a.Score, a.TieBreaker))), "PrevMax skips a pair")
	vv.Assert(vv.Implies(vv.Not(isMax), lt(a.Score, a.TieBreaker, as, at)), "AboveThis is not above the element")
	vv.Assert(vv.Implies(isMax, vv.And(as == math.MaxUint64, at == math.MaxUint32)), "AboveThis does not saturate")
	vv.Assert(vv.Not(vv.And(lt(a.Score, a.TieBreaker, b.Score, b.TieBreaker), lt(b.Score, b.TieBreaker, as, at))), "AboveThis skips a pair")
	vv.Cover("bounds")
	vv.Observe("b", ps, uint64(pt), as, uint64(at))
}

// VH_C01_sortElements: Elements.Sort permutes into rank order.
func VH_C01_sortElements() {
	n := vv.Choose("n", sz(5, 6))
	in := vvlib.Elems("e", n)
	orig := vvlib.Copy(in)
	l := rankdb.Elements(in)
	sorted := vvlib.Ordered(orig)
	changed := l.Sort()
	vv.Assert(vvlib.Ordered(l), "Sort result is not in rank order")
	vv.Assert(vvlib.Permutation(orig, l), "Sort does not permute its input")
	vv.Assert(changed == vv.Not(sorted), "Sort misreports whether it changed anything")
	vv.Cover("sorted")
	vvlib.ObserveElems("out", l)
}

// VH_C01_sortRanked: RankedElements.Sort uses the same order.
func VH_C01_sortRanked() {
	n := vv.Choose("n", sz(5, 6))
	in := vvlib.Elems("e", n)
	r := make(rankdb.RankedElements, n)
	for i := range r {
		r[i] = rankdb.RankedElement{Element: in[i], FromTop: i}
	}
	r.Sort()
	out := make([]rankdb.Element, n)
	for i := range r {
		out[i] = r[i].Element
		vv.Assert(vvlib.Same(r[i].Element, in[r[i].FromTop]), "ranked sort tears entries apart")
	}
	vv.Assert(vvlib.Ordered(out), "ranked sort result is not in rank order")
	vv.Assert(vvlib.Permutation(in, out), "ranked sort does not permute")
	vv.Cover("sorted")
	vvlib.ObserveElems("out", out)
}

// VH_C24_sortfloat: float conversion keeps order and is reversible.
func VH_C24_sortfloat() {
	a, b := vv.F64("a"), vv.F64("b")
	fa, fb := sortfloat.SortableFloat64(a), sortfloat.SortableFloat64(b)
	na, nb := a != a, b != b
	vv.Assert(vv.Implies(vv.And(vv.Not(na), vv.Not(nb)), (a < b) == (fa < fb)), "order of two floats not preserved")
	vv.Assert(vv.Implies(vv.And(vv.Not(na), vv.Not(nb)), (a == b) == (fa == fb)), "equality of two floats not preserved")
	vv.Assert(vv.Implies(vv.And(na, vv.Not(nb)), fa < fb), "NaN is not lowest")
	vv.Assert(vv.Implies(vv.And(na, nb), fa == fb), "NaNs differ")
	r := sortfloat.ReverseFloat64(fa)
	vv.Assert(vv.Implies(vv.Not(na), r == a), "reverse gives a different float")
	vv.Assert(vv.Implies(na, r != r), "reverse of NaN is not NaN")
	bits := math.Float64bits(a)
	vv.Assert(vv.Implies(vv.And(vv.Not(na), bits != 1<<63), math.Float64bits(r) == bits), "reverse changes bits")
	inf := math.Inf(1)
	vv.Assert(vv.Implies(vv.And(vv.Not(na), vv.Not(nb), a == inf), fb <= fa), "+Inf is not highest")
	vv.Cover("floats")
	vv.Observe("f", fa, fb)
}
