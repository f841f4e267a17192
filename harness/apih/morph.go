package apih

import (
	"context"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/api/morph"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// rankOf is the number of elements ranked above the one with the id.
func rankOf(all []rankdb.Element, id uint64) (rank int, e rankdb.Element, found bool) {
	for i := range all {
		if uint64(all[i].ID) == id {
			n := 0
			for j := range all {
				n += vv.B2I(vvlib.Above(all[j], all[i]))
			}
			return n, all[i], true
		}
	}
	return 0, e, false
}

const listName = "some-list"

// entry checks one element of a response against the list.
func entry(all []rankdb.Element, id uint64, listID string, payload []byte, top, bottom int, score uint64, tie uint32, unix int64, what string) int {
	rank, e, ok := rankOf(all, id)
	vv.Assert(ok, "C26: response names an element that is not in the list ("+what+")")
	vv.Assert(vv.And(score == e.Score, tie == e.TieBreaker, listID == listName), "C26: wrong score, tie-breaker or list ("+what+")")
	vv.Assert(unix == int64(e.Updated), "C26: wrong update time ("+what+")")
	vv.Assert(vvlib.SamePayload(payload, e.Payload), "C26: wrong payload ("+what+")")
	vv.Assert(top == rank, "C26: wrong from_top ("+what+")")
	vv.Assert(bottom == len(all)-1-rank, "C26: wrong from_bottom ("+what+")")
	return rank
}

func neighbours(all []rankdb.Element, center, radius int, above, below []*app.RankdbElement) {
	for i, n := range above {
		r := entry(all, n.ID, n.ListID, n.Payload, n.FromTop, n.FromBottom, n.Score, n.TieBreaker, n.UpdatedAt.Unix(), "neighbour above")
		vv.Assert(r == center-len(above)+i, "C26: neighbours above are not those just above, ending with the nearest")
	}
	for i, n := range below {
		r := entry(all, n.ID, n.ListID, n.Payload, n.FromTop, n.FromBottom, n.Score, n.TieBreaker, n.UpdatedAt.Unix(), "neighbour below")
		vv.Assert(r == center+1+i, "C26: neighbours below are not those just below, starting with the nearest")
	}
	want := func(have int) int { return vv.IteInt(have < radius, have, radius) }
	vv.Assert(len(above) == want(center), "C26: wrong number of neighbours above")
	vv.Assert(len(below) == want(len(all)-1-center), "C26: wrong number of neighbours below")
}

// ranking is a list of n arbitrary elements with the ids 10, 20, ... in an
// arbitrary (solver chosen) rank order.
func ranking(n int) (*rankdb.List, *memstore.MemBlobStore, []rankdb.Element) {
	bs := memstore.NewMemStore()
	var all []rankdb.Element
	for i := 0; i < n; i++ {
		e := vvlib.ElemP("e", byte('a'+i))
		e.ID = rankdb.ElementID(10 * (i + 1))
		all = append(all, e)
	}
	lst, err := rankdb.NewList(context.Background(), listName, "set", bs, rankdb.WithListOption.MergeSplitSize(10, 100), rankdb.WithListOption.Populate(vvlib.Copy(all)))
	vv.Assert(err == nil, "C26: creating the list failed")
	got, err := lst.GetRankTop(context.Background(), bs, 0, n)
	vv.Assert(err == nil && len(got) == n, "C26: reading the list failed")
	for i := range all {
		for j := range got {
			if got[j].ID == all[i].ID {
				all[i].Updated = got[j].Updated
			}
		}
	}
	return lst, bs, all
}

// A list of 3-4 arbitrary elements, any of them looked up with radius 0-3 and
// converted in every form.
func VH_C26_lookup() {
	n := 3 + vv.Choose("n", sz(2, 3))
	lst, bs, all := ranking(n)
	c := vv.Choose("which", n)
	radius := vv.Choose("radius", 4)
	re, err := lst.GetElements(context.Background(), bs, []rankdb.ElementID{all[c].ID}, radius)
	vv.Assert(err == nil && len(re) == 1, "C26: lookup failed")
	in := re[0]
	f := morph.RankedElement{In: &in}.Full(listName)
	r := entry(all, f.ID, f.ListID, f.Payload, f.FromTop, f.FromBottom, f.Score, f.TieBreaker, f.UpdatedAt.Unix(), "element")
	neighbours(all, r, radius, f.Neighbors.Above, f.Neighbors.Below)
	fs := morph.RankedElements{In: re}.Full(listName)
	vv.Assert(len(fs) == 1 && fs[0].ID == f.ID, "C26: wrong full conversion of a collection")
	neighbours(all, r, radius, fs[0].Neighbors.Above, fs[0].Neighbors.Below)
	d := morph.RankedElement{In: &in}.Default(listName)
	entry(all, d.ID, d.ListID, d.Payload, d.FromTop, d.FromBottom, d.Score, d.TieBreaker, d.UpdatedAt.Unix(), "default form")
	t := morph.RankedElement{In: &in}.Tiny()
	entry(all, t.ID, listName, t.Payload, t.FromTop, t.FromBottom, t.Score, all[c].TieBreaker, int64(all[c].Updated), "tiny form")
	vv.Cover("looked up")
	if len(f.Neighbors.Above) > 1 {
		vv.Cover("two above")
	}
}

// All elements of a list of 3 arbitrary elements converted as a collection,
// with the others given as neighbours.
func VH_C26_collection() {
	n := 3
	lst, bs, all := ranking(n)
	ids := []rankdb.ElementID{10, 20, 30}
	re, err := lst.GetElements(context.Background(), bs, ids, 0)
	vv.Assert(err == nil && len(re) == n, "C26: lookup failed")
	re.Sort()
	ds := morph.RankedElements{In: re}.Default(listName)
	ts := morph.RankedElements{In: re}.Tiny()
	vv.Assert(len(ds) == n && len(ts) == n, "C26: elements lost in conversion")
	for i := range ds {
		d, t := ds[i], ts[i]
		r := entry(all, d.ID, d.ListID, d.Payload, d.FromTop, d.FromBottom, d.Score, d.TieBreaker, d.UpdatedAt.Unix(), "default form")
		vv.Assert(r == i, "C26: conversion changed the order")
		vv.Assert(vv.And(t.ID == d.ID, t.FromTop == d.FromTop, t.FromBottom == d.FromBottom, t.Score == d.Score), "C26: wrong tiny form")
	}
	c := vv.Choose("which", n)
	x := morph.RankedElement{In: &re[c]}.FullExt(listName, re[c+1:], re[:c])
	r := entry(all, x.ID, x.ListID, x.Payload, x.FromTop, x.FromBottom, x.Score, x.TieBreaker, x.UpdatedAt.Unix(), "element")
	neighbours(all, r, n, x.Neighbors.Above, x.Neighbors.Below)
	vv.Cover("converted")
}

// One element of a list of 3 arbitrary elements is updated (or a new one
// added) with radius 0-3; the response carries the new placement and the one
// before.
func VH_C26_update() {
	lst, bs, all := ranking(3)
	old := vvlib.Copy(all)
	up := vvlib.ElemP("u", 'u')
	up.ID = []rankdb.ElementID{10, 20, 30, 40}[vv.Choose("which", 4)]
	vv.Assume(vv.And(up.Updated != 0, up.Updated != math.MaxUint32)) // 0 means now, the other one is reserved
	radius := vv.Choose("radius", sz(3, 4))
	re, err := lst.UpdateElements(context.Background(), bs, rankdb.Elements{up}, radius, true)
	vv.Assert(err == nil && len(re) == 1, "C26: update failed")
	if up.ID == 40 {
		all = append(all, up)
	} else {
		all[int(up.ID)/10-1] = up
	}
	in := re[0]
	f := morph.RankedElement{In: &in}.FullUpdate(listName)
	r := entry(all, f.ID, f.ListID, f.Payload, f.FromTop, f.FromBottom, f.Score, f.TieBreaker, f.UpdatedAt.Unix(), "element")
	neighbours(all, r, radius, f.Neighbors.Above, f.Neighbors.Below)
	g := morph.RankedElement{In: &in}.Full(listName)
	entry(all, g.ID, g.ListID, g.Payload, g.FromTop, g.FromBottom, g.Score, g.TieBreaker, g.UpdatedAt.Unix(), "element")
	neighbours(all, r, radius, g.Neighbors.Above, g.Neighbors.Below)
	d := morph.RankedElement{In: &in}.Default(listName)
	entry(all, d.ID, d.ListID, d.Payload, d.FromTop, d.FromBottom, d.Score, d.TieBreaker, d.UpdatedAt.Unix(), "default form")
	p := f.PreviousRank
	if up.ID == 40 {
		vv.Assert(p == nil, "C26: a new element has a previous rank")
		vv.Cover("added")
		return
	}
	vv.Assert(p != nil && p.ID == uint64(up.ID), "C26: the previous rank of an updated element is missing")
	entry(old, p.ID, p.ListID, p.Payload, p.FromTop, p.FromBottom, p.Score, p.TieBreaker, p.UpdatedAt.Unix(), "previous rank")
	vv.Cover("updated")
}

// A missing element converts to nothing; request elements keep every field.
func VH_C26_requests() {
	vv.Assert(morph.RankedElement{}.Full("x") == nil && morph.RankedElement{}.Default("x") == nil && morph.RankedElement{}.Tiny() == nil && morph.RankedElement{}.FullUpdate("x") == nil, "C26: conversion of nothing gives something")
	tie := vv.U32("tie")
	id, score := vv.U64("id"), vv.U64("score")
	p := vv.Bytes("p", vv.Choose("plen", 3))
	a := &app.Element{ID: id, Score: score, Payload: p}
	want := rankdb.Element{ID: rankdb.ElementID(id), Score: score, Payload: p}
	if vv.Choose("hastie", 2) == 1 {
		a.TieBreaker = &tie
		want.TieBreaker = tie
	}
	b := &app.Element{ID: vv.U64("id"), Score: vv.U64("score")}
	es := morph.NewApiElements(a, nil, b).Elements()
	vv.Assert(len(es) == 2, "C26: request elements lost")
	vv.Assert(vvlib.Same(es[0], want), "C26: a request element was changed")
	vv.Assert(vvlib.Same(es[1], rankdb.Element{ID: rankdb.ElementID(b.ID), Score: b.Score}), "C26: a request element was changed")
	ids := morph.NewApiElementIDs(id, b.ID).ElementIDs()
	vv.Assert(len(ids) == 2 && vv.And(uint64(ids[0]) == id, uint64(ids[1]) == b.ID), "C26: request ids changed")
	arr := morph.ElementIDs{In: ids}.Array()
	vv.Assert(len(arr) == 2 && vv.And(arr[0] == id, arr[1] == b.ID), "C26: response ids changed")
	vv.Cover("requests")
}
