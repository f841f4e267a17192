package coll

import (
	"fmt"
	"math"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// sorted draws a valid collection of n elements with payload tags 1..n.
func sorted(name string, n int) rankdb.Elements {
	r := make(rankdb.Elements, n)
	for i := range r {
		r[i] = vvlib.ElemP(fmt.Sprintf("%s%d", name, i), byte(i+1))
	}
	vv.Assume(vv.And(vvlib.Strict(r), vvlib.Distinct(r)))
	return r
}

func disjoint(a, b []rankdb.Element) bool {
	r := true
	for i := range a {
		r = vv.And(r, vv.Not(vvlib.HasID(b, a[i].ID)))
	}
	return r
}

// posOf is the number of elements of l ranking above e.
func posOf(l []rankdb.Element, e rankdb.Element) int {
	n := 0
	for i := range l {
		n += vv.B2I(vvlib.Above(l[i], e))
	}
	return n
}

// without is the specification of removing an id (order kept); the id position is forked on.
func without(l []rankdb.Element, id rankdb.ElementID) []rankdb.Element {
	r := make([]rankdb.Element, 0, len(l))
	for i := range l {
		if l[i].ID != id {
			r = append(r, l[i])
		}
	}
	return r
}

// VH_C02_new: NewElements of up to 4 (thorough 5) arbitrary elements.
func VH_C02_new() {
	n := vv.Choose("n", sz(4, 5))
	in := vvlib.Elems("e", n)
	orig := vvlib.Copy(in)
	l := rankdb.NewElements(in)
	vv.Assert(vvlib.Strict(l), "collection is not in rank order")
	vv.Assert(vvlib.Distinct(l), "collection has a duplicate id")
	for i := range l {
		vv.Assert(vvlib.Count(orig, l[i]) > 0, "collection holds an element that was not supplied")
	}
	for i := range orig {
		o := orig[i]
		ok := false
		for j := range l {
			ok = vv.Or(ok, vv.And(l[j].ID == o.ID, vv.Or(l[j].Updated > o.Updated, vv.And(l[j].Updated == o.Updated, l[j].Score >= o.Score))))
		}
		vv.Assert(ok, "an older or lower duplicate was kept, or an id was lost")
	}
	vv.Assert(l.HasDuplicates() == nil, "HasDuplicates reports a duplicate free collection")
	vv.Cover("new")
	vvlib.ObserveElems("out", l)
}

// VH_C02_hasDuplicates: HasDuplicates for up to 3 arbitrary elements.
func VH_C02_hasDuplicates() {
	n := vv.Choose("n", 4)
	in := vvlib.Elems("e", n)
	l := rankdb.Elements(in)
	vv.Assert((l.HasDuplicates() == nil) == vvlib.Distinct(in), "HasDuplicates is wrong")
	vv.Cover("dups")
}

// VH_C02_insert: Insert and Add of a new id into a sorted collection of up to 3 (thorough 5).
func VH_C02_insert() {
	n := vv.Choose("n", sz(4, 6))
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	e := vvlib.ElemP("x", 100)
	vv.Assume(vv.Not(vvlib.HasID(l, e.ID)))
	add := vv.Choose("add", 2)
	var idx int
	if add == 1 {
		vv.Assume(e.Updated != 0)
		r, err := l.Add(e)
		vv.Assert(err == nil && r != nil, "Add failed")
		idx = r.FromTop
		vv.Assert(r.FromBottom == len(orig)-idx, "Add reports a wrong rank from the bottom")
	} else {
		idx = l.Insert(e)
	}
	want := posOf(orig, e)
	vv.Assert(idx == want, "reported rank is not the number of elements above")
	vv.Assert(len(l) == n+1, "wrong number of elements")
	vv.Assert(vvlib.Strict(l), "not in rank order after insert")
	vv.Assert(vvlib.Permutation(append(orig, e), l), "insert lost, changed or duplicated an element")
	vv.Cover("insert")
	vvlib.ObserveElems("out", l)
}

// VH_C02_update: Add/Update of a possibly existing id in a sorted collection of up to 3 (thorough 4).
func VH_C02_update() {
	n := vv.Choose("n", sz(4, 5))
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	e := vvlib.ElemP("x", 100)
	add := vv.Choose("add", 2)
	var r *rankdb.Rank
	var err error
	before := time.Now().Unix()
	if add == 1 {
		r, err = l.Add(e)
	} else {
		r, err = l.Update(e)
	}
	exists := vvlib.HasID(orig, e.ID)
	if add == 0 && vv.Not(exists) {
		vv.Assert(err == rankdb.ErrNotFound, "Update of an unknown id does not report not-found")
		vv.Assert(vvlib.Permutation(orig, l) && vvlib.Strict(l), "failed Update changed the collection")
		vv.Cover("notfound")
		return
	}
	vv.Assert(err == nil && r != nil, "update of an existing id failed")
	rest := without(orig, e.ID)
	if e.Updated == 0 {
		got, ferr := l.Find(e.ID)
		vv.Assert(ferr == nil && int64(got.Updated) >= before, "update time not filled in")
		e.Updated = got.Updated
	}
	vv.Assert(r.FromTop == posOf(rest, e), "reported rank is wrong")
	vv.Assert(r.FromTop+r.FromBottom+1 == len(rest)+1, "reported bottom rank is wrong")
	vv.Assert(vvlib.Strict(l), "not in rank order after update")
	vv.Assert(vvlib.Permutation(append(rest, e), l), "update lost, changed or duplicated an element")
	vv.Cover("updated")
}

// VH_C02_delete: Delete from a sorted collection of up to 4 (thorough 6); lookups by id.
func VH_C02_delete() {
	n := vv.Choose("n", sz(5, 7))
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	id := rankdb.ElementID(vv.U64("id"))
	exists := vvlib.HasID(orig, id)
	f, ferr := l.Find(id)
	fi, fierr := l.FindIdx(id)
	vv.Assert((ferr == nil) == exists && (fierr == nil) == exists, "lookup found-ness is wrong")
	if ferr == nil {
		vv.Assert(f.ID == id && vvlib.Same(*f, orig[fi]), "lookup returns a wrong element")
	}
	err := l.Delete(id)
	vv.Assert((err == nil) == exists, "Delete reports the wrong outcome")
	if err != nil {
		vv.Assert(err == rankdb.ErrNotFound, "Delete of unknown id is not not-found")
	}
	want := without(orig, id)
	vv.Assert(len(l) == len(want), "Delete leaves a wrong number of elements")
	for i := range l {
		vv.Assert(vvlib.Same(l[i], want[i]), "Delete changed another element or the order")
	}
	vv.Cover("delete")
	vvlib.ObserveElems("out", l)
}

// VH_C02_merge: Merge of two sorted collections (up to 2+2, thorough 3+3) with disjoint ids, with every sharing
// and capacity situation.
func VH_C02_merge() {
	n, m := vv.Choose("n", sz(3, 4)), vv.Choose("m", sz(3, 4))
	extra := vv.Choose("cap", 3)
	all := make(rankdb.Elements, 0, n+m+2)
	all = append(all, sorted("l", n)...)
	ins := sorted("i", m)
	for i := range ins {
		ins[i].Payload = []byte{byte(50 + i)}
	}
	vv.Assume(disjoint(all, ins))
	orig, oins := vvlib.Copy(all), vvlib.Copy(ins)
	sliced := vv.Choose("sliced", 2) == 1
	var l rankdb.Elements
	switch extra {
	case 0: // no spare capacity
		l = all[:n:n]
	case 1: // enough spare capacity, owned
		l = all[:n:cap(all)]
	case 2: // spare capacity is somebody else's data
		tail := rankdb.Element{ID: 12345, Score: 77, Payload: []byte{200}}
		for i := n; i < n+m; i++ {
			all = append(all, tail)
		}
		l = all[:n]
		if !sliced {
			return
		}
	}
	l.Merge(ins, sliced)
	vv.Assert(vvlib.Strict(l), "not in rank order after Merge")
	vv.Assert(vvlib.Permutation(append(vvlib.Copy(orig), oins...), l), "Merge lost, changed or duplicated an element")
	for i := range ins {
		vv.Assert(vvlib.Same(ins[i], oins[i]), "Merge changed the inserted slice")
	}
	if sliced {
		for i := range orig {
			vv.Assert(vvlib.Same(all[i], orig[i]), "Merge changed a slice it was told is shared")
		}
		for i := n; i < len(all); i++ {
			vv.Assert(all[i].ID == 12345, "Merge overwrote data behind a shared slice")
		}
	}
	vv.Cover("merge")
	vvlib.ObserveElems("out", l)
}

// VH_C02_mergeLarge: Merge of more than 10 elements takes the copying path: 11 inserted into 2; the inserted elements
// have fixed distinct scores, the existing are arbitrary.
func VH_C02_mergeLarge() {
	n := vv.Choose("n", 3)
	l := sorted("l", n)
	ins := make(rankdb.Elements, 11)
	for i := range ins {
		ins[i] = rankdb.Element{Score: uint64(1000 - i*10), ID: rankdb.ElementID(1000 + i), Updated: 7, TieBreaker: 3}
	}
	vv.Assume(disjoint(l, ins))
	orig, oins := vvlib.Copy(l), vvlib.Copy(ins)
	l.Merge(ins, false)
	vv.Assert(vvlib.Strict(l), "not in rank order after Merge")
	vv.Assert(vvlib.Permutation(append(vvlib.Copy(orig), oins...), l), "Merge lost, changed or duplicated an element")
	vv.Cover("merge")
	vvlib.ObserveElems("out", l)
}

// VH_C02_mergeDedup: MergeDeduplicate of up to 2+2 (thorough 3+2) elements with arbitrary id overlap, order of the
// inserted ones arbitrary.
func VH_C02_mergeDedup() {
	n, m := vv.Choose("n", sz(3, 4)), vv.Choose("m", 3)
	l := sorted("l", n)
	ins := make(rankdb.Elements, m)
	for i := range ins {
		ins[i] = vvlib.ElemP(fmt.Sprintf("i%d", i), byte(50+i))
	}
	vv.Assume(vvlib.Distinct(ins))
	orig, oins := vvlib.Copy(l), vvlib.Copy(ins)
	l.MergeDeduplicate(ins)
	want := vvlib.Copy(oins)
	for i := range orig {
		if vv.Not(vvlib.HasID(oins, orig[i].ID)) {
			want = append(want, orig[i])
		}
	}
	vv.Assert(vvlib.Strict(l), "not in rank order after MergeDeduplicate")
	vv.Assert(vvlib.Permutation(want, l), "MergeDeduplicate is not old plus overwriting new")
	vv.Cover("merge")
	vvlib.ObserveElems("out", l)
}

// VH_C02_clone: a clone is equal and independent; Ranked numbers positions; ids and min/max match.
func VH_C02_clone() {
	n := vv.Choose("n", 4)
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	pay := vv.Choose("pay", 2) == 1
	c := l.Clone(pay)
	vv.Assert(len(c) == n, "clone has a different length")
	for i := range c {
		vv.Assert(vvlib.Same(c[i], orig[i]), "clone differs")
	}
	for i := range l {
		if pay {
			l[i].Payload[0] = 99
		}
		l[i].Score, l[i].ID, l[i].Payload = 1, 2, nil
	}
	for i := range c {
		vv.Assert(vvlib.SameBut(c[i], rankdb.Element{Score: orig[i].Score, ID: orig[i].ID, TieBreaker: orig[i].TieBreaker, Payload: []byte{byte(i + 1)}}), "clone shares memory with the original")
	}
	off, total := vv.Int("off", 0, 1<<40), vv.Int("total", 0, 1<<41)
	r := c.Ranked(off, total)
	vv.Assert(len(r) == n, "Ranked has a different length")
	for i := range r {
		vv.Assert(vvlib.Same(r[i].Element, c[i]), "Ranked changes elements")
		vv.Assert(r[i].FromTop == off+i && r[i].FromBottom == total-off-i-1, "Ranked positions wrong")
	}
	k := vv.Int("k", -1<<40, 1<<40)
	r.Offset(k)
	for i := range r {
		vv.Assert(r[i].FromTop == off+i+k && r[i].FromBottom == total-off-i-1-k, "Offset wrong")
	}
	r.CalculateFromBottom(total)
	for i := range r {
		vv.Assert(r[i].FromBottom == total-r[i].FromTop-1, "CalculateFromBottom wrong")
	}
	min, max, minT, maxT := c.MinMax()
	if n == 0 {
		vv.Assert(min == 0 && max == math.MaxUint64 && minT == 0 && maxT == math.MaxUint32, "MinMax of nothing is not everything")
	} else {
		for i := range c {
			s, t := c[i].Score, c[i].TieBreaker
			vv.Assert(vv.Or(s < max, vv.And(s == max, t <= maxT)), "MinMax maximum too low")
			vv.Assert(vv.Or(s > min, vv.And(s == min, t >= minT)), "MinMax minimum too high")
		}
		vv.Assert(vv.And(c[0].Score == max, c[0].TieBreaker == maxT, c[n-1].Score == min, c[n-1].TieBreaker == minT), "MinMax is not an element")
	}
	vv.Cover("clone")
}

// VH_C02_ids: id sets: deduplication, difference and overlap for up to 3 (thorough 4) ids each.
func VH_C02_ids() {
	draw := func(name string, n int) rankdb.ElementIDs {
		r := make(rankdb.ElementIDs, n)
		for i := range r {
			r[i] = rankdb.ElementID(vv.U64(fmt.Sprintf("%s%d", name, i)))
		}
		return r
	}
	has := func(s rankdb.ElementIDs, id rankdb.ElementID) bool {
		r := false
		for i := range s {
			r = vv.Or(r, s[i] == id)
		}
		return r
	}
	a, b := draw("a", vv.Choose("n", sz(3, 4))), draw("b", vv.Choose("m", 3))
	orig := append(rankdb.ElementIDs(nil), a...)
	probe := rankdb.ElementID(vv.U64("probe"))
	not := a.NotIn(b)
	vv.Assert(has(not, probe) == vv.And(has(orig, probe), vv.Not(has(b, probe))), "NotIn is not the difference")
	ov := a.Overlap(b)
	vv.Assert(has(ov, probe) == vv.And(has(orig, probe), has(b, probe)), "Overlap is not the intersection")
	a.Deduplicate()
	vv.Assert(has(a, probe) == has(orig, probe), "Deduplicate loses or invents ids")
	for i := 1; i < len(a); i++ {
		vv.Assert(a[i-1] > a[i], "deduplicated ids are not strictly descending")
	}
	vv.Cover("ids")
}

// VH_C02_index: index entries of up to 3 elements refer to the segment and are sorted by id.
func VH_C02_index() {
	n := vv.Choose("n", 4)
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	seg := rankdb.SegmentID(vv.U32("seg"))
	ix := l.ElementIDs(seg)
	vv.Assert(len(ix.Elements) == n, "index has a wrong number of entries")
	for i := range ix.Elements {
		e := ix.Elements[i]
		vv.Assert(vv.And(uint64(e.ID) == e.Score, e.TieBreaker == uint32(seg)), "index entry does not name id and segment")
		if i > 0 {
			vv.Assert(ix.Elements[i-1].Score > e.Score, "index entries are not in descending id order")
		}
		vv.Assert(vvlib.HasID(orig, e.ID), "index entry for an unknown id")
	}
	vv.Cover("index")
}

// VH_C03_split: SplitSize of a sorted collection of up to 5 (thorough 7) into chunks of 1 to 6.
func VH_C03_split() {
	n := vv.Choose("n", sz(6, 8))
	l := sorted("l", n)
	orig := vvlib.Copy(l)
	size := 1 + vv.Choose("size", 6)
	parts := l.SplitSize(size)
	k := 0
	ties := false
	for i := 1; i < n; i++ {
		ties = vv.Or(ties, vv.And(l[i].Score == l[i-1].Score, l[i].TieBreaker == l[i-1].TieBreaker))
	}
	for pi, p := range parts {
		vv.Assert(len(p) > 0 || n == 0, "empty chunk")
		vv.Assert(vv.Or(ties, len(p) <= size), "chunk larger than requested without ties")
		for _, e := range p {
			vv.Assert(k < n, "chunks hold more than the collection")
			vv.Assert(vvlib.Same(e, orig[k]), "chunks are not the collection in order")
			k++
		}
		if pi > 0 {
			a, b := parts[pi-1][len(parts[pi-1])-1], p[0]
			vv.Assert(vv.Not(vv.And(a.Score == b.Score, a.TieBreaker == b.TieBreaker)), "a tie was separated")
		}
	}
	vv.Assert(k == n, "chunks do not hold the whole collection")
	vv.Cover("split")
	vv.Observe("parts", uint64(len(parts)))
}

// VH_C03_filter: Segment.Filter selects exactly the elements in range, for up to 4 (thorough 6) sorted elements with
// update times before 2106.
func VH_C03_filter() {
	n := vv.Choose("n", sz(5, 7))
	l := sorted("l", n)
	for i := range l {
		vv.Assume(l[i].Updated != math.MaxUint32)
	}
	s := rankdb.Segment{Min: vv.U64("min"), Max: vv.U64("max"), MinTie: vv.U32("mintie"), MaxTie: vv.U32("maxtie")}
	vv.Assume(vv.Or(s.Min < s.Max, vv.And(s.Min == s.Max, s.MinTie <= s.MaxTie)))
	got := s.Filter(l)
	start, end := s.FilterIdx(l)
	vv.Assert(len(got) == end-start, "Filter and FilterIdx differ")
	inside := 0
	for i := range l {
		sc, t := l[i].Score, l[i].TieBreaker
		in := vv.And(vv.Or(sc < s.Max, vv.And(sc == s.Max, t <= s.MaxTie)), vv.Or(sc > s.Min, vv.And(sc == s.Min, t >= s.MinTie)))
		inside += vv.B2I(in)
	}
	vv.Assert(inside == len(got), "Filter selects a wrong number of elements")
	for i := range got {
		sc, t := got[i].Score, got[i].TieBreaker
		vv.Assert(vv.And(vv.Or(sc < s.Max, vv.And(sc == s.Max, t <= s.MaxTie)), vv.Or(sc > s.Min, vv.And(sc == s.Min, t >= s.MinTie))), "Filter selects an element out of range")
		vv.Assert(vvlib.Same(got[i], l[start+i]), "Filter is not a sub-slice")
	}
	vv.Cover("filter")
	vvlib.ObserveElems("got", got)
}

// VH_C03_splitIndexed: splitting works for index collections too (descending ids).
func VH_C03_firstWithScore() {
	n := vv.Choose("n", 4)
	l := sorted("l", n)
	m := 1 + vv.Choose("m", 2)
	scores := make([]uint64, m)
	for i := range scores {
		scores[i] = vv.U64(fmt.Sprintf("s%d", i))
		if i > 0 {
			vv.Assume(scores[i-1] > scores[i])
		}
	}
	want := append([]uint64(nil), scores...)
	got := l.FirstElementsWithScore(scores)
	for _, s := range want {
		for i := range l {
			if i > 0 && l[i-1].Score == s {
				continue
			}
			if l[i].Score == s {
				vv.Assert(vvlib.HasID(got, l[i].ID), "first element with a requested score is missing")
			}
		}
	}
	for i := range got {
		vv.Assert(vvlib.HasID(l, got[i].ID), "result element not in collection")
	}
	vv.Cover("first")
}
