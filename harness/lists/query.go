package lists

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

var queryLayouts = []layout{
	lay([]int{0}, 0),
	lay([]int{1}, 1),
	lay([]int{2, 1}, 2, 1),
	lay([]int{1, 0, 2}, 3),
	lay([]int{0, 2, 1}, 1, 0, 2),
	lay([]int{1, 1, 1}, 1, 2),
	lay([]int{3}, 2, 1),
	lay([]int{2, 0}, 2),
}

var queryLayoutsThorough = []layout{
	lay([]int{2, 0, 0, 2}, 2, 2),
	lay([]int{1, 1, 1, 1}, 4),
	lay([]int{0, 0}, 0, 0),
	lay([]int{0, 3, 0, 1}, 1, 3),
	lay([]int{4, 1}, 3, 2),
	lay([]int{1, 3, 1}, 5),
}

func pick(ls ...layout) layout { return ls[vv.Choose("layout", len(ls))] }

func queryLayout() layout {
	ls := queryLayouts
	if vv.Tier() == 1 {
		ls = append(append([]layout(nil), ls...), queryLayoutsThorough...)
	}
	return pick(ls...)
}

// checkRanked asserts that r describes els[k] for the k that has its id, and returns k (forking on it).
func checkRanked(els []rankdb.Element, r rankdb.RankedElement, radius int, what string) int {
	for k := range els {
		if r.ID != els[k].ID {
			continue
		}
		vv.Assert(vvlib.Same(r.Element, els[k]), what+": element differs from the stored one")
		vv.Assert(r.FromTop == k, what+": from-top is not the number of elements above")
		vv.Assert(r.FromBottom == len(els)-k-1, what+": from-bottom is not the number of elements below")
		na, nb := k, len(els)-k-1
		if na > radius {
			na = radius
		}
		if nb > radius {
			nb = radius
		}
		vv.Assert(len(r.Above) == na, what+": wrong number of neighbours above")
		vv.Assert(len(r.Below) == nb, what+": wrong number of neighbours below")
		for i := 0; i < nb; i++ {
			vv.Assert(vvlib.Same(r.Below[i], els[k+1+i]), what+": wrong neighbour below")
		}
		// nearest first, as the tests of the repository fix it
		for i := 0; i < na; i++ {
			vv.Assert(vvlib.Same(r.Above[i], els[k-1-i]), what+": wrong neighbour above")
		}
		return k
	}
	vv.Fail(what + ": returned an element that is not in the list")
	return -1
}

// VH_C08_get: GetElements of up to 2 (thorough 3) arbitrary ids with radius 0..2 on an arbitrary valid list of up to 3
// (thorough 5) elements in up to 3 (thorough 4) segments, 1 to 3 index segments.
func VH_C08_get() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	radius := vv.Choose("radius", 4)
	if radius == 3 {
		radius = 10
	}
	n := vv.Choose("n", sz(3, 4))
	ids := make([]rankdb.ElementID, n)
	for i := range ids {
		ids[i] = rankdb.ElementID(vv.U64(fmt.Sprintf("id%d", i)))
	}
	if n == 2 && vv.Choose("cached", 2) == 1 {
		w.withCache()
		_, err := w.l.GetElements(ctx, st, []rankdb.ElementID{ids[0]}, 1)
		vv.Assert(err == nil, "lookup failed")
	}
	want := append([]rankdb.ElementID(nil), ids...)
	res, err := w.l.GetElements(ctx, st, ids, radius)
	vv.Assert(err == nil, "lookup failed")
	found := 0
	for i := range w.els {
		hit := false
		for _, id := range want {
			hit = vv.Or(hit, id == w.els[i].ID)
		}
		found += vv.B2I(hit)
	}
	vv.Assert(len(res) == found, "wrong number of results")
	last := -1
	for i := range res {
		asked := false
		for _, id := range want {
			asked = vv.Or(asked, id == res[i].ID)
		}
		vv.Assert(asked, "an id that was not asked for is returned")
		k := checkRanked(w.els, res[i], radius, "lookup")
		vv.Assert(k > last, "results are not in rank order")
		last = k
	}
	unchanged(st, w.l, w.els, "lookup")
	vv.Cover(fmt.Sprintf("found%d", len(res)))
	for i := range res {
		vv.Observe("r", res[i].Score, uint64(res[i].ID), uint64(res[i].FromTop), uint64(res[i].FromBottom))
	}
}

// VH_C09_top: GetRankTop for every offset and count from 0 to beyond the list.
func VH_C09_top() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	off := vv.Choose("off", 5)
	cnt := vv.Choose("cnt", 5)
	e, err := w.l.GetRankTop(ctx, st, off, cnt)
	vv.Cover("top")
	if off >= len(w.els) {
		vv.Assert(err != nil || len(e) == 0, "range beyond the list returns elements")
		return
	}
	want := len(w.els) - off
	if want > cnt {
		want = cnt
	}
	vv.Assert(err == nil, "range query failed")
	vv.Assert(len(e) == want, "range query returns a wrong number of elements")
	for i := range e {
		vv.Assert(vvlib.Same(e[i], w.els[off+i]), "range query returns a wrong element")
	}
	vvlib.ObserveElems("e", e)
}

// VH_C09_bottom: GetRankBottom: starts at the given offset from the bottom, in descending order.
func VH_C09_bottom() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	off := vv.Choose("off", 5)
	cnt := vv.Choose("cnt", 5)
	e, err := w.l.GetRankBottom(ctx, st, off, cnt)
	vv.Cover("bottom")
	if off >= len(w.els) {
		vv.Assert(err != nil || len(e) == 0, "range beyond the list returns elements")
		return
	}
	first := len(w.els) - off - 1
	want := len(w.els) - first
	if want > cnt {
		want = cnt
	}
	vv.Assert(err == nil, "range query failed")
	vv.Assert(len(e) == want, "range query returns a wrong number of elements")
	for i := range e {
		vv.Assert(vvlib.Same(e[i], w.els[first+i]), "range query returns a wrong element")
	}
	vvlib.ObserveElems("e", e)
}

// VH_C09_score: GetRankScoreDesc for an arbitrary score, 1 to 4 elements.
func VH_C09_score() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	score := vv.U64("score")
	n := 1 + vv.Choose("cnt", 4)
	e, err := w.l.GetRankScoreDesc(ctx, st, score, n)
	vv.Assert(err == nil, "score query failed")
	first := len(w.els)
	for i := range w.els {
		if w.els[i].Score <= score {
			first = i
			break
		}
	}
	want := len(w.els) - first
	if want > n {
		want = n
	}
	vv.Assert(len(e) == want, "score query returns a wrong number of elements")
	for i := range e {
		vv.Assert(vvlib.Same(e[i].Element, w.els[first+i]), "score query returns a wrong element")
		vv.Assert(e[i].FromTop == first+i, "score query: wrong rank from the top")
		vv.Assert(e[i].FromBottom == len(w.els)-first-i-1, "score query: wrong rank from the bottom")
	}
	vv.Cover("score")
	vv.Observe("n", uint64(len(e)))
}

// VH_C09_percentile: GetPercentile for selected percentiles on every layout.
func VH_C09_percentile() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	// products with the list sizes are exact or far from an integer
	ps := []float64{0, 0.1, 0.25, 0.4, 0.5, 0.75, 0.999999, 1, -1, 2, math.NaN()}
	p := ps[vv.Choose("p", len(ps))]
	radius := vv.Choose("radius", 2)
	e, err := w.l.GetPercentile(ctx, st, p, radius)
	vv.Cover("percentile")
	n := len(w.els)
	if n == 0 {
		vv.Assert(err != nil || e == nil, "percentile of an empty list returns an element")
		return
	}
	vv.Assert(err == nil && e != nil, "percentile query failed")
	if p < 0 || p != p {
		p = 0
	}
	want := int(p * float64(n))
	if want >= n {
		want = n - 1
	}
	k := checkRanked(w.els, *e, radius, "percentile")
	vv.Assert(k == want, "percentile query returns the wrong element")
}

// VH_C09_stats: length and stats agree with the content.
func VH_C09_stats() {
	st := newStore()
	w := build("a", st, queryLayout(), 2000, 500)
	n, err := w.l.Len(ctx, st)
	vv.Assert(err == nil && n == len(w.els), "Len is wrong")
	s, err := w.l.Stats(ctx, st, true)
	vv.Assert(err == nil && s != nil, "Stats failed")
	vv.Assert(s.Elements == n && s.Segments == len(w.segN), "Stats counts are wrong")
	if n == 0 {
		vv.Assert(s.Top == nil && s.Bottom == nil, "Stats of an empty list has elements")
	} else {
		vv.Assert(s.Top != nil && s.Bottom != nil, "Stats lacks top or bottom")
		vv.Assert(vvlib.Same(s.Top.Element, w.els[0]) && s.Top.FromTop == 0 && s.Top.FromBottom == n-1, "Stats top is wrong")
		vv.Assert(vvlib.Same(s.Bottom.Element, w.els[n-1]) && s.Bottom.FromTop == n-1 && s.Bottom.FromBottom == 0, "Stats bottom is wrong")
	}
	vv.Cover("stats")
}
