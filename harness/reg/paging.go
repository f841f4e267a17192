// Package reg holds the harnesses of the list registry and its manager.
package reg

import (
	"context"
	"fmt"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/Vivino/rankdb/vv"
)

var ctx = context.Background()

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

// again repeats f natively: the registry's iteration order is random there,
// while the engine explores every order.
func again(f func(k int)) {
	n := 1
	if !vv.Symbolic() {
		n = 400
	}
	for k := 0; k < n; k++ {
		f(k)
	}
}

func manager() (*rankdb.Manager, *memstore.MemBlobStore) {
	bs := memstore.NewMemStore()
	m, err := rankdb.NewManager(bs, "set")
	vv.Assert(err == nil && m.NewLists(nil) == nil, "creating the manager failed")
	return m, bs
}

func mkList(bs *memstore.MemBlobStore, id, set string, meta map[string]string) *rankdb.List {
	var o []rankdb.ListOption
	_ = o
	l, err := rankdb.NewList(ctx, rankdb.ListID(id), set, bs, rankdb.WithListOption.Metadata(meta))
	vv.Assert(err == nil, "creating a list failed")
	return l
}

// ids draws n distinct ids of 1-2 bytes; because they are unconstrained, adding
// them in this order stands for adding any ids in any order.
func ids(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		id := vv.Str(fmt.Sprint("id", i), 1)
		if vv.Tier() == 1 && i == 0 && vv.Choose("long", 2) == 1 {
			id += vv.Str("id-tail", 1)
		}
		for j := range r {
			vv.Assume(vv.Not(eq(r[j], id)))
		}
		r = append(r, id)
	}
	return r
}

func eq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	return a == b
}

// Registry of 0-5 lists with arbitrary distinct ids added in any order, any
// page origin (0-1 bytes) and page size -1..5, both directions.
func VH_C18_paging() {
	n := vv.Choose("lists", sz(5, 6))
	all := ids(n)
	from := vv.Str("from", vv.Choose("fromlen", 2))
	size := vv.Choose("size", sz(6, 7)) - 1
	after := vv.Choose("dir", 2) == 0
	wantTotal := 0
	for _, id := range all {
		if after {
			wantTotal += vv.B2I(id > from)
		} else {
			wantTotal += vv.B2I(id < from)
		}
	}
	again(func(int) {
		m, bs := manager()
		for _, id := range all {
			m.Lists.Add(mkList(bs, id, "set", nil))
		}
		var got []*rankdb.List
		var page rankdb.PageInfo
		if after {
			got, page = m.Lists.SortedIDsAfter(rankdb.ListID(from), size)
		} else {
			got, page = m.Lists.SortedIDsBefore(rankdb.ListID(from), size)
		}
		if size <= 0 {
			vv.Assert(len(got) == 0 && page.Before == 0 && page.After == 0, "C18: a page of no lists is not empty")
			vv.Cover("empty")
			return
		}
		vv.Assert(len(got) == vv.IteInt(wantTotal < size, wantTotal, size), "C18: wrong number of lists in a page")
		if after {
			vv.Assert(page.Before == n-wantTotal, "C18: wrong number of lists before a page")
			vv.Assert(page.After == wantTotal-len(got), "C18: wrong number of lists after a page")
		} else {
			vv.Assert(page.After == n-wantTotal, "C18: wrong number of lists after a page")
			vv.Assert(page.Before == wantTotal-len(got), "C18: wrong number of lists before a page")
		}
		for i, l := range got {
			id := string(l.ID)
			nearer := 0 // lists between this one and the origin
			known := false
			for _, o := range all {
				if after {
					nearer += vv.B2I(vv.And(o > from, o < id))
				} else {
					nearer += vv.B2I(vv.And(o < from, o > id))
				}
				known = vv.Or(known, eq(o, id))
			}
			vv.Assert(known, "C18: a page holds an unknown list")
			if after {
				vv.Assert(vv.And(id > from, nearer == i), "C18: a page does not hold the nearest lists in order")
			} else {
				vv.Assert(vv.And(id < from, nearer == len(got)-1-i), "C18: a page does not hold the nearest lists in order")
			}
		}
		vv.Cover("page")
		if page.Before > 0 && page.After > 0 {
			vv.Cover("middle")
		}
	})
}

// Three lists with arbitrary, possibly equal ids are added, one arbitrary id is
// deleted; then arbitrary ids are looked up in every way.
func VH_C18_lookup() {
	m, bs := manager()
	names := []string{vv.Str("a", 1), vv.Str("b", 1), vv.Str("c", 1)}
	var ls []*rankdb.List
	for _, n := range names {
		l := mkList(bs, n, "set", nil)
		ls = append(ls, l)
	}
	m.Lists.Add(ls[0], ls[1])
	m.Lists.Add(ls[2])
	del := vv.Str("del", vv.Choose("dellen", 2))
	m.Lists.Delete(rankdb.ListID(del))
	want := func(id string) *rankdb.List {
		if eq(id, del) {
			return nil
		}
		for i := 2; i >= 0; i-- {
			if eq(names[i], id) {
				return ls[i]
			}
		}
		return nil
	}
	q := []rankdb.ListID{rankdb.ListID(vv.Str("q", 1)), rankdb.ListID(names[0]), rankdb.ListID(names[2]), ""}
	res := m.Lists.ByIDs(q...)
	vv.Assert(len(res) == len(q), "C18: bulk lookup does not answer position by position")
	var exist []rankdb.ListID
	for i := range q {
		w := want(string(q[i]))
		vv.Assert(res[i] == w, "C18: bulk lookup gives a wrong list")
		l, ok := m.Lists.ByID(q[i])
		vv.Assert(ok == (w != nil) && (!ok || l == w), "C18: lookup by id gives a wrong list")
		if w != nil {
			exist = append(exist, q[i])
		}
	}
	ex := m.Lists.Exists(q...)
	vv.Assert(len(ex) == len(exist), "C18: wrong set of existing ids")
	for i := range ex {
		vv.Assert(ex[i] == exist[i], "C18: wrong existing id")
	}
	all := m.Lists.All()
	distinct := 0
	for i, n := range names {
		if want(n) != ls[i] {
			continue // deleted or replaced
		}
		distinct++
		seen := 0
		for _, id := range all {
			seen += vv.B2I(id == rankdb.ListID(n))
		}
		vv.Assert(seen == 1, "C18: a registered list is not listed exactly once")
	}
	vv.Assert(len(all) == distinct, "C18: wrong number of registered lists")
	vv.Cover("looked up")
}

// Two lists with or without metadata (keys a and b, arbitrary one byte values)
// in arbitrary sets; any query over up to two keys and up to two sets.
func VH_C18_match() {
	m, bs := manager()
	type ent struct {
		id, set string
		meta    map[string]string
	}
	var es []ent
	for i := 0; i < 2; i++ {
		n := fmt.Sprint("l", i)
		e := ent{id: n, set: vv.Str(n+"set", 1)}
		for _, k := range []string{"a", "b"} {
			switch vv.Choose(n+k, 3) {
			case 1:
				if e.meta == nil {
					e.meta = map[string]string{}
				}
				e.meta[k] = vv.Str(n+"val"+k, 1)
			case 2:
				if vv.Tier() == 0 && k == "b" {
					vv.Assume(false)
				}
				if e.meta == nil {
					e.meta = map[string]string{}
				}
				e.meta[k] = ""
			}
		}
		es = append(es, e)
		m.Lists.Add(mkList(bs, e.id, e.set, e.meta))
	}
	var q map[string]string
	for _, k := range []string{"a", "b"} {
		if vv.Choose("q"+k, 2) == 1 {
			if q == nil {
				q = map[string]string{}
			}
			q[k] = vv.Str("qval"+k, 1)
		}
	}
	var sets []string
	for i := 0; i < vv.Choose("sets", 3); i++ {
		sets = append(sets, vv.Str("qset", 1))
	}
	got := m.Lists.MatchAll(q, sets)
	total := 0
	for _, e := range es {
		w := false
		for _, s := range sets {
			w = vv.Or(w, eq(s, e.set))
		}
		if len(q) > 0 {
			all := true
			for k, v := range q {
				x, has := e.meta[k]
				if !has {
					all = false
					continue
				}
				all = vv.And(all, eq(x, v))
			}
			w = vv.Or(w, all)
		}
		seen := 0
		for _, id := range got {
			seen += vv.B2I(id == rankdb.ListID(e.id))
		}
		vv.Assert(seen == vv.B2I(w), "C18: metadata or set query gives a wrong list or misses one")
		total += seen
	}
	vv.Assert(total == len(got), "C18: metadata or set query gives an unknown list")
	vv.Cover("matched")
}

// Up to 4 arbitrary list ids are deduplicated and sorted.
func VH_C18_ids() {
	n := vv.Choose("n", 5)
	var in rankdb.ListIDs
	for i := 0; i < n; i++ {
		in = append(in, rankdb.ListID(vv.Str("id", vv.Choose("len", 2))))
	}
	orig := append(rankdb.ListIDs{}, in...)
	changed := in.Deduplicate()
	for i := range in {
		if i > 0 {
			vv.Assert(in[i-1] < in[i], "C18: deduplicated ids are not strictly increasing")
		}
		known := false
		for _, o := range orig {
			known = vv.Or(known, eq(string(o), string(in[i])))
		}
		vv.Assert(known, "C18: deduplication made up an id")
	}
	for _, o := range orig {
		known := false
		for i := range in {
			known = vv.Or(known, eq(string(o), string(in[i])))
		}
		vv.Assert(known, "C18: deduplication lost an id")
	}
	vv.Assert(changed == (len(in) != len(orig)), "C18: deduplication reports wrongly whether something changed")
	vv.Cover("ids")
}
