package lists

import (
	"fmt"
	"math"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// deep copies elements with their payloads.
func deep(e []rankdb.Element) []rankdb.Element {
	r := vvlib.Copy(e)
	for i := range r {
		r[i].Payload = append([]byte(nil), r[i].Payload...)
	}
	return r
}

func sameAll(a, b []rankdb.Element) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vv.And(r, vvlib.Same(a[i], b[i]))
	}
	return r
}

// result is what an operation returned: plain elements, or ranked ones with neighbours.
type result struct {
	plain  rankdb.Elements
	ranked rankdb.RankedElements
}

// parts are all slices of elements in a result.
func (r *result) parts() (p []rankdb.Elements) {
	p = append(p, r.plain)
	for i := range r.ranked {
		p = append(p, r.ranked[i].Above, r.ranked[i].Below)
		if r.ranked[i].Before != nil {
			p = append(p, rankdb.Elements{r.ranked[i].Before.Element})
		}
	}
	var own rankdb.Elements
	for i := range r.ranked {
		own = append(own, r.ranked[i].Element)
	}
	return append(p, own)
}

// scribble overwrites the elements in a result, but not the bytes of their payloads.
func scribble(e rankdb.Elements) {
	for i := range e {
		e[i].Score, e[i].ID, e[i].TieBreaker, e[i].Updated, e[i].Payload = 7, 7, 7, 7, []byte("scribble")
	}
	// results may be extended as well
	_ = append(e, rankdb.Element{Score: 8, ID: 8, TieBreaker: 8, Updated: 8})
}

func (r *result) scribble() {
	scribble(r.plain)
	for i := range r.ranked {
		scribble(r.ranked[i].Above)
		scribble(r.ranked[i].Below)
		r.ranked[i].Score, r.ranked[i].ID = 7, 7
	}
	_ = append(r.ranked, rankdb.RankedElement{})
}

func isPlain(op int) bool { return op <= 1 }

// query runs one of the operations that return elements.
func (w *world) query(op int) (r result) {
	var err error
	switch op {
	case 0:
		r.plain, err = w.l.GetRankTop(ctx, w.st, vv.Choose("off", 2), 2)
	case 1:
		r.plain, err = w.l.GetRankBottom(ctx, w.st, 1, 2)
	case 2:
		r.ranked, err = w.l.GetElements(ctx, w.st, []rankdb.ElementID{w.els[0].ID, w.els[1].ID}, 1)
	case 3:
		r.ranked, err = w.l.GetRankScoreDesc(ctx, w.st, math.MaxUint64, 2)
	case 4:
		var p *rankdb.RankedElement
		p, err = w.l.GetPercentile(ctx, w.st, 0.5, 2)
		if err == nil {
			r.ranked = rankdb.RankedElements{*p}
		}
	case 5:
		var s *rankdb.ListStats
		s, err = w.l.Stats(ctx, w.st, true)
		if err == nil {
			r.ranked = rankdb.RankedElements{*s.Top, *s.Bottom}
		}
	case 6:
		// the results of an update are compared with what it found
		e := w.els[1]
		e.Payload = []byte{77}
		r.ranked, err = w.l.UpdateElements(ctx, w.st, rankdb.Elements{e}, 1, true)
		w.els[1] = e
	}
	vv.Assert(err == nil, "C31: query failed without a storage failure")
	return r
}

func aliasWorld() *world {
	st := newStore()
	w := build("a", st, pick(lay([]int{3}, 3), lay([]int{2, 1}, 1, 2)), 2000, 500)
	if vv.Choose("cached", 2) == 1 {
		w.warm()
	}
	return w
}

// VH_C31_results: what one of 7 operations returned for a list of 3 arbitrary elements in 1-2 segments, with and without
// cache, stays what it was when the list is then updated, gets elements inserted or deleted.
func VH_C31_results() {
	plainShape = true
	w := aliasWorld()
	r := w.query(vv.Choose("query", 7))
	var was [][]rankdb.Element
	for _, p := range r.parts() {
		was = append(was, deep(p))
	}
	var err error
	want := vvlib.Copy(w.els)
	switch vv.Choose("change", 3) {
	case 0:
		e := newElems("e", 1)
		e[0].ID = w.els[vv.Choose("which", 3)].ID
		want = merged(want, e)
		_, err = w.l.UpdateElements(ctx, w.st, vvlib.Copy(e), 0, false)
	case 1:
		e := newElems("e", 1)
		vv.Assume(vv.Not(vvlib.HasID(w.els, e[0].ID)))
		want = append(want, e...)
		err = w.l.Insert(ctx, w.st, vvlib.Copy(e))
	case 2:
		k := vv.Choose("which", 3)
		err = w.l.DeleteElements(ctx, w.st, []rankdb.ElementID{w.els[k].ID})
		want = append(want[:k:k], want[k+1:]...)
	}
	vv.Assert(err == nil, "C31: change failed without a storage failure")
	for i, p := range r.parts() {
		vv.Assert(sameAll(p, was[i]), "C31: a result changed when the list was changed later")
	}
	expect(w.st, w.l, want, "C31")
	vv.Cover("kept")
}

// VH_C31_scribble: the receiver of a result overwrites and extends it; the list, its cache included, is unaffected.
func VH_C31_scribble() {
	plainShape = true
	w := aliasWorld()
	r := w.query(vv.Choose("query", 7))
	r.scribble()
	agree(w.l, w.st, read(w.st, w.l).els, "C31: after changing a result")
	e := newElems("e", 1)
	want := merged(w.els, e)
	_, err := w.l.UpdateElements(ctx, w.st, vvlib.Copy(e), 0, false)
	vv.Assert(err == nil, "C31: change failed without a storage failure")
	s := expect(w.st, w.l, want, "C31: after changing a result")
	agree(w.l, w.st, s.els, "C31: after changing a result")
	vv.Cover("scribbled")
}

// VH_C31_arguments: the elements given to an update, an insert or a population of one list, and then of a second list with
// the same cache, are overwritten by their owner; both lists keep what they were given.
func VH_C31_arguments() {
	plainShape = true
	st := newStore()
	lo := lay([]int{vv.Choose("n", sz(1, 2))}, 0)
	lo.index[0] = lo.scores[0]
	a := build("a", st, lo, 2000, 500)
	b := build("b", st, lo, 2000, 500)
	cached := vv.Choose("cached", 2) == 1
	if cached {
		a.withCache()
		b.cache = a.cache
		l, err := rankdb.NewList(ctx, b.l.ID, set, newStore(), rankdb.WithListOption.Cache(b.cache), rankdb.WithListOption.MergeSplitSize(500, 2000))
		vv.Assert(err == nil, "harness: NewList")
		l.ReleaseSegments(ctx)
		l.Scores, l.Index = b.l.Scores, b.l.Index
		b.l = l
	}
	els := newElems("e", 2)
	for _, w := range []*world{a, b} {
		for i := range els {
			vv.Assume(vv.Not(vvlib.HasID(w.els, els[i].ID)))
		}
	}
	vv.Assume(els[0].ID < els[1].ID)
	vv.Assume(vvlib.Strict(els))
	in := vvlib.Copy(els)
	var err error
	op := vv.Choose("op", 3)
	var want [2][]rankdb.Element
	for i, w := range []*world{a, b} {
		switch op {
		case 0:
			_, err = w.l.UpdateElements(ctx, st, in, 0, false)
		case 1:
			err = w.l.Insert(ctx, st, in)
		case 2:
			opts := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(500, 2000), rankdb.WithListOption.Populate(in)}
			if cached {
				opts = append(opts, rankdb.WithListOption.Cache(w.cache))
			}
			w.els = nil
			w.l, err = rankdb.NewList(ctx, w.l.ID, set, st, opts...)
		}
		vv.Assert(err == nil, "C31: change failed without a storage failure")
		// population sets the update time
		want[i] = append(vvlib.Copy(w.els), in...)
	}
	if vv.Choose("owner", 2) == 1 {
		scribble(in)
	}
	// one of the lists is changed
	k := vv.Choose("which", 2)
	w := []*world{a, b}[k]
	switch vv.Choose("change", 2) {
	case 0:
		u := newElems("u", 1)
		u[0].ID = els[0].ID
		_, err = w.l.UpdateElements(ctx, st, vvlib.Copy(u), 0, false)
		want[k] = merged(want[k], u)
	case 1:
		err = w.l.DeleteElements(ctx, st, []rankdb.ElementID{els[1].ID})
		n := len(want[k])
		want[k] = want[k][: n-1 : n-1]
	}
	vv.Assert(err == nil, "C31: change failed without a storage failure")
	for i, w := range []*world{a, b} {
		s := expect(st, w.l, want[i], fmt.Sprint("C31: list ", i))
		agree(w.l, st, s.els, fmt.Sprint("C31: list ", i))
	}
	vv.Cover("independent")
}
