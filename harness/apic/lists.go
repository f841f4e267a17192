package apic

import (
	"context"
	"strconv"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/vv"
)

// Get of a list, of a range from the top or bottom and of a percentile: any token and list,
// lists of 3 elements with arbitrary scores.
func VH_C27_readlist() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	op := vv.Choose("op", 4)
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	c := &api.ListsController{}
	var err error
	what := []string{"get of a list", "range from top", "range from bottom", "percentile"}[op]
	valid := true
	off, limit, pct := 0, 1, "50.0"
	both := vv.Choose("variant", 3)
	topBottom := both == 1
	switch op {
	case 0:
		err = c.Get(&app.GetListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, TopBottom: topBottom})
	case 1, 2:
		off, limit = vv.Choose("offset", 5), 1+vv.Choose("limit", 4)
		rc := &app.GetRangeListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Limit: limit}
		if op == 1 {
			rc.FromTop = &off
		} else {
			rc.FromBottom = &off
		}
		switch both {
		case 1:
			rc.FromTop, rc.FromBottom = &off, &off
			valid = false
		case 2:
			rc.FromTop, rc.FromBottom = nil, nil
			valid = false
		}
		err = c.GetRange(rc)
	case 3:
		pct = []string{"0", "34", "66.7", "100", "50.0", "-1", "100.1", "x"}[vv.Choose("percentile", 8)]
		f, e := strconv.ParseFloat(pct, 64)
		valid = e == nil && f >= 0 && f <= 100
		err = c.GetPercentile(&app.GetPercentileListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Range: both, FromTop: pct})
	}
	code := s.status(err)
	vv.Assert(s.st.mods == mods, "C27: "+what+" wrote to the storage")
	if !s.allowed([]string{id}, nil) {
		s.refused(code, gets, mods, what)
		vv.Cover("refused")
		return
	}
	if l == nil && !valid {
		vv.Assert(code == 404 || code == 400, "C27: malformed "+what+" of an unknown list is not answered with 404 or 400")
		return
	}
	if l == nil {
		vv.Assert(code == 404, "C27: "+what+" of an unknown list is not answered with 404")
		vv.Cover("no list")
		return
	}
	if !valid {
		vv.Assert(code == 400, "C27: malformed "+what+" is not answered with 400")
		vv.Cover("malformed")
		return
	}
	n := len(l.want)
	if (op == 1 || op == 2) && off >= n {
		vv.Assert(code == 404, "C27: "+what+" outside the list is not answered with 404")
		vv.Cover("outside")
		return
	}
	vv.Assert(code == 200, "C27: "+what+" is not answered with 200")
	switch r := s.resp.body.(type) {
	case *app.RankdbRanklistFull:
		vv.Assert(op == 0, "C27: wrong kind of response to "+what)
		vv.Assert(r.ID == l.id && r.Set == l.set && r.Elements == n && r.Metadata["k"] == l.meta["k"] && r.MergeSize == 10 && r.SplitSize == 20, "C27: wrong list data in the response to "+what)
		if topBottom {
			vv.Assert(r.TopElement != nil && r.BottomElement != nil, "C27: no top or bottom element in the response to "+what)
			l.one(r.TopElement, what)
			l.one(r.BottomElement, what)
			vv.Assert(vv.And(r.TopElement.FromTop == 0, r.BottomElement.FromBottom == 0), "C27: wrong top or bottom element in the response to "+what)
		}
	case app.RankdbElementCollection:
		vv.Assert(op == 1 || op == 2, "C27: wrong kind of response to "+what)
		first, cnt := off, n-off
		if op == 2 {
			first, cnt = n-1-off, off+1
		}
		if cnt > limit {
			cnt = limit
		}
		vv.Assert(len(r) == cnt, "C27: wrong number of elements in the response to "+what)
		for i, e := range r {
			l.one(e, what)
			vv.Assert(e.FromTop == first+i, "C27: wrong element in the response to "+what)
		}
	case *app.RankdbElementFull:
		vv.Assert(op == 3, "C27: wrong kind of response to "+what)
		vv.Assert(l.has(r.ID) >= 0, "C27: unknown element in the response to "+what)
		l.full(r, r.ID, what)
		f, _ := strconv.ParseFloat(pct, 64)
		at := int(f / 100 * float64(n))
		if at == n {
			at--
		}
		vv.Assert(r.FromTop == at, "C27: wrong element in the response to "+what)
	default:
		vv.Fail("C27: wrong kind of response to " + what)
	}
	vv.Cover(what)
}

// elements of a response body that reports a list.
func (s *server) fullList(what string) *app.RankdbRanklistFull {
	r, ok := s.resp.body.(*app.RankdbRanklistFull)
	if !ok {
		vv.Fail("C27: wrong kind of response to " + what)
		return nil
	}
	return r
}

// Creating (with and without replacement), cloning and deleting lists with elements of arbitrary scores,
// also with two elements of the same id.
func VH_C27_makelist() {
	s := newServer(2)
	op := vv.Choose("op", 3)
	id := []string{"la", "lb", "lc"}[vv.Choose("list", 3)]
	ctx, rd, rq := s.request()
	c := &api.ListsController{}
	before := len(s.st.b)
	mods := s.st.mods
	old := s.list(id)
	switch op {
	case 0:
		dup := vv.Choose("same id", 2) == 1
		a, b := newEl("scorea", 4, 50), newEl("scoreb", 5, 51)
		if dup {
			b.id = 4
			vv.Assume(a.score != b.score)
		}
		replace := vv.Choose("replace", 2) == 1
		err := c.Create(&app.CreateListsContext{Context: ctx, ResponseData: rd, RequestData: rq, Replace: replace, Payload: &app.RankList{
			ID: id, Set: "s3", MergeSize: 10, SplitSize: 20, Metadata: map[string]string{"k": "3"}, Populate: []*app.Element{payload(a.id, a), payload(b.id, b)}}})
		code := s.status(err)
		if old != nil && !replace {
			vv.Assert(code == 409, "C27: creating a list that exists is not answered with 409")
			vv.Assert(s.st.mods == mods, "C27: creating a list that exists wrote to the storage")
			s.check("after a conflict")
			vv.Cover("conflict")
			return
		}
		vv.Assert(code == 200, "C27: creating a list is not answered with 200")
		if old == nil {
			old = &list{id: id}
			s.lists = append(s.lists, old)
		} else {
			vv.Assert(len(s.st.b) <= before, "C27: replacing a list left data of the replaced list behind")
			vv.Cover("replaced")
		}
		old.set, old.meta = "s3", map[string]string{"k": "3"}
		old.want = []el{a, b}
		if dup {
			// One of them, the better one
			old.want = []el{a}
			if b.score > a.score {
				old.want = []el{b}
			}
		}
		s.check("after creating a list")
		if r := s.fullList("creating a list"); r != nil {
			vv.Assert(r.ID == id && r.Set == "s3" && r.Elements == len(old.want), "C27: wrong list data in the response to creating a list")
		}
		vv.Cover("created")
	case 1:
		to := []string{"lb", "ld"}[vv.Choose("to", 2)]
		err := c.Clone(&app.CloneListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Payload: &app.RankList{ID: to, Set: "s3", MergeSize: 10, SplitSize: 20}})
		code := s.status(err)
		switch {
		case old == nil:
			vv.Assert(code == 404, "C27: cloning an unknown list is not answered with 404")
		case to == "lb":
			vv.Assert(code == 409, "C27: cloning to a list that exists is not answered with 409")
		default:
			vv.Assert(code == 200, "C27: cloning a list is not answered with 200")
			s.lists = append(s.lists, &list{id: to, set: "s3", want: append([]el{}, old.want...)})
			if r := s.fullList("cloning a list"); r != nil {
				vv.Assert(r.ID == to && r.Set == "s3" && r.Elements == len(old.want), "C27: wrong list data in the response to cloning a list")
			}
			vv.Cover("cloned")
		}
		s.check("after cloning a list")
	case 2:
		code := s.status(c.Delete(&app.DeleteListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id}))
		vv.Assert(code == 204, "C27: deleting a list is not answered with 204")
		if old == nil {
			s.check("after deleting an unknown list")
			return
		}
		_, ok := s.m.Lists.ByID(rankdb.ListID(id))
		vv.Assert(!ok, "C27: list is there after deleting it")
		var rest []*list
		for _, l := range s.lists {
			if l != old {
				rest = append(rest, l)
			}
		}
		s.lists = rest
		s.check("after deleting a list")
		for _, b := range s.st.b {
			vv.Assert(b.set != old.set, "C27: deleting a list left data behind")
		}
		vv.Cover("deleted")
	}
}

// Verify, repair and reindex of a list whose index lost an element or not, and listing all lists.
func VH_C27_carelist() {
	s := newServer(2)
	id, l := s.listArg()
	damaged := vv.Choose("damaged", 2) == 1
	if damaged {
		for i := range s.st.b {
			if s.st.b[i].set != "s1" {
				continue
			}
			// An index segment that has no elements any more.
			if k := s.st.b[i].key; k[len(k)-7] == '-' && s.indexBlob(i) {
				s.st.b = append(s.st.b[:i], s.st.b[i+1:]...)
				break
			}
		}
	}
	op := vv.Choose("op", 4)
	repair := vv.Choose("repair", 2) == 1
	ctx, rd, rq := s.request()
	c := &api.ListsController{}
	var err error
	switch op {
	case 0:
		err = c.Verify(&app.VerifyListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Repair: repair})
	case 1:
		err = c.Repair(&app.RepairListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id})
	case 2:
		err = c.Reindex(&app.ReindexListsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id})
	case 3:
		err = c.GetAll(&app.GetAllListsContext{Context: ctx, ResponseData: rd, RequestData: rq, Limit: 10})
		code := s.status(err)
		r, ok := s.resp.body.(*app.RankdbListsresult)
		vv.Assert(code == 200 && ok && len(r.Lists) == 2 && r.Lists[0].ID == "la" && r.Lists[1].ID == "lb" && r.ListsBefore == 0 && r.ListsAfter == 0, "C27: listing all lists is wrong")
		vv.Cover("listed")
		return
	}
	code := s.status(err)
	if l == nil {
		vv.Assert(code == 404, "C27: verify, repair or reindex of an unknown list is not answered with 404")
		s.check2(damaged, "after the request")
		return
	}
	vv.Assert(code == 200, "C27: verify, repair or reindex is not answered with 200")
	if op == 2 {
		s.check("after reindex")
		vv.Cover("reindexed")
		return
	}
	r, ok := s.resp.body.(*app.RankdbListopresult)
	if !ok {
		vv.Fail("C27: wrong kind of response to verify or repair")
		return
	}
	fixes := op == 1 || repair
	if damaged && !fixes {
		vv.Assert(r.Error != nil, "C27: verify of a damaged list reports no error")
		vv.Cover("damage reported")
		return
	}
	vv.Assert(r.Error == nil && r.List != nil && r.List.ID == id, "C27: verify or repair of a list that is or can be made sound reports an error")
	s.check("after verify or repair")
	vv.Assert(l.l.Verify(context.Background(), s.st) == nil && l.l.VerifyElements(context.Background(), s.st) == nil, "C27: list is not sound after verify or repair")
	if damaged {
		vv.Cover("repaired")
	}
}

// check2 is check unless the list is still damaged.
func (s *server) check2(damaged bool, what string) {
	if !damaged {
		s.check(what)
	}
}

// indexBlob: the blob holds elements of the index segments of la.
func (s *server) indexBlob(i int) bool {
	k := s.st.b[i].key
	l := s.lists[0].l
	l.RLock()
	defer l.RUnlock()
	p := string(l.Index) + "-"
	return len(k) > len(p) && k[:len(p)] == p
}
