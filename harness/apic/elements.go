package apic

import (
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/vv"
)

// outcome: what kind of answer a request must get. 0: it is carried out.
func (s *server) outcome(id string, l *list, elems []uint64, valid bool, code, gets, mods int, what string) bool {
	switch {
	case !s.allowed([]string{id}, nil):
		s.refused(code, gets, mods, what)
		vv.Cover("refused list")
	case l == nil:
		vv.Assert(code == 404, "C27: "+what+" in an unknown list is not answered with 404")
		vv.Cover("no list")
	case !valid:
		vv.Assert(code == 400, "C27: "+what+" with a malformed element id is not answered with 400")
		vv.Cover("bad id")
	case !s.allowed(nil, elems):
		s.refused(code, gets, mods, what)
		vv.Cover("refused element")
	default:
		return true
	}
	vv.Assert(s.st.mods == mods, "C27: rejected "+what+" wrote to the storage")
	s.check("after a rejected " + what)
	return false
}

// Get of an element of a list of 3 elements with arbitrary scores: any token, list and element id.
func VH_C27_get() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	arg, eid, valid := idArg("element")
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	err := (&api.ElementsController{}).Get(&app.GetElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ElementID: arg, ListID: id, Range: vv.Choose("range", 2)})
	code := s.status(err)
	if !s.outcome(id, l, []uint64{eid}, valid, code, gets, mods, "get") {
		return
	}
	vv.Assert(s.st.mods == mods, "C27: get wrote to the storage")
	if l.has(eid) < 0 {
		vv.Assert(code == 404, "C27: get of an unknown element is not answered with 404")
		return
	}
	vv.Assert(code == 200, "C27: get of an element is not answered with 200")
	r, ok := s.resp.body.(*app.RankdbElementFull)
	if !ok {
		vv.Fail("C27: get does not return an element")
		return
	}
	l.full(r, eid, "get")
	vv.Cover("got")
}

// Delete of an element, or of two: any token, list and element ids.
func VH_C27_delete() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	arg, eid, valid := idArg("element")
	ids, args := []uint64{eid}, []string{arg}
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	var err error
	if vv.Choose("multi", 2) == 0 {
		err = (&api.ElementsController{}).Delete(&app.DeleteElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ElementID: arg, ListID: id})
	} else {
		arg2, eid2, valid2 := idArg("element2")
		args, ids, valid = append(args, arg2), append(ids, eid2), valid && valid2
		err = (&api.ElementsController{}).DeleteMulti(&app.DeleteMultiElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ElementIds: args, ListID: id})
	}
	code := s.status(err)
	if !s.outcome(id, l, ids, valid, code, gets, mods, "delete") {
		return
	}
	vv.Assert(code == 204, "C27: delete is not answered with 204")
	for _, e := range ids {
		if i := l.has(e); i >= 0 {
			l.want = append(append([]el{}, l.want[:i]...), l.want[i+1:]...)
		}
	}
	s.check("after delete")
	vv.Cover("deleted")
}

func payload(id uint64, e el) *app.Element {
	return &app.Element{ID: id, Score: e.score, TieBreaker: &e.tie, Payload: []byte{e.pay}}
}

func newEl(name string, id uint64, tag byte) el {
	return el{id: id, score: vv.U64(name), tie: 100 + uint32(id), pay: tag}
}

func (l *list) put(e el) {
	if i := l.has(e.id); i >= 0 {
		l.want[i] = e
	} else {
		l.want = append(l.want, e)
	}
}

// Create of an element with an arbitrary score: any token, list and element id.
func VH_C27_create() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	eid := uint64(1 + vv.Choose("element", 5))
	e := newEl("newscore", eid, 77)
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	err := (&api.ElementsController{}).Create(&app.CreateElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Range: 0, Payload: payload(eid, e)})
	code := s.status(err)
	if !s.outcome(id, l, []uint64{eid}, true, code, gets, mods, "create") {
		return
	}
	if l.has(eid) >= 0 {
		vv.Assert(code == 409, "C27: create of an element that exists is not answered with 409")
		vv.Assert(s.st.mods == mods, "C27: create of an element that exists wrote to the storage")
		s.check("after a conflict")
		vv.Cover("conflict")
		return
	}
	vv.Assert(code == 200, "C27: create is not answered with 200")
	l.put(e)
	s.check("after create")
	r, ok := s.resp.body.(*app.RankdbElementFull)
	if !ok {
		vv.Fail("C27: create does not return an element")
		return
	}
	l.full(r, eid, "create")
	vv.Cover("created")
}

// Put of an element with an arbitrary score: any token, list and element id, the id in the URL
// and in the payload may differ.
func VH_C27_put() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	arg, eid, valid := idArg("element")
	pid := eid
	if vv.Choose("mismatch", 2) == 1 {
		pid = eid%3 + 1
		valid = valid && pid == eid
	}
	e := newEl("newscore", pid, 77)
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	err := (&api.ElementsController{}).Put(&app.PutElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ElementID: arg, ListID: id, Range: 0, Payload: payload(pid, e)})
	code := s.status(err)
	if !s.outcome(id, l, []uint64{eid}, valid, code, gets, mods, "put") {
		return
	}
	vv.Assert(code == 200, "C27: put is not answered with 200")
	var old *el
	oldRank := 0
	if i := l.has(eid); i >= 0 {
		o := l.want[i]
		old, oldRank = &o, l.rank(o)
	}
	l.put(e)
	s.check("after put")
	r, ok := s.resp.body.(*app.RankdbElementFullUpdate)
	if !ok {
		vv.Fail("C27: put does not return an element")
		return
	}
	vv.Assert(vv.And(r.ID == eid, r.ListID == l.id), "C27: another element in the response to put")
	vv.Assert(l.matches(e, r.FromTop, r.FromBottom, r.Score, r.TieBreaker, r.Payload), "C27: wrong element data in the response to put")
	if old == nil {
		vv.Assert(r.PreviousRank == nil, "C27: previous rank of a new element in the response to put")
		vv.Cover("put new")
		return
	}
	vv.Assert(r.PreviousRank != nil, "C27: no previous rank in the response to put")
	p := r.PreviousRank
	vv.Assert(vv.And(p.ID == eid, p.FromTop == oldRank, p.Score == old.score), "C27: wrong previous rank in the response to put")
	vv.Cover("put")
}

// Put of two elements with arbitrary scores: any token, list and element ids.
func VH_C27_putmulti() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	a := uint64(1 + vv.Choose("element", 4))
	b := a%4 + 1
	ea, eb := newEl("scorea", a, 77), newEl("scoreb", b, 78)
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	results := vv.Choose("results", 2) == 1
	err := (&api.ElementsController{}).PutMulti(&app.PutMultiElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Results: results, Payload: app.PutMultiElementsPayload{payload(a, ea), payload(b, eb)}})
	code := s.status(err)
	if !s.outcome(id, l, []uint64{a, b}, true, code, gets, mods, "put of several") {
		return
	}
	vv.Assert(code == 200, "C27: put of several is not answered with 200")
	l.put(ea)
	l.put(eb)
	s.check("after put of several")
	r, ok := s.resp.body.(*app.RankdbMultielement)
	if !ok {
		vv.Fail("C27: put of several does not return elements")
		return
	}
	if results {
		vv.Assert(len(r.Found) == 2, "C27: not all elements in the response to put of several")
		for _, f := range r.Found {
			l.one(f, "put of several")
			vv.Assert(f.ID == a || f.ID == b, "C27: another element in the response to put of several")
		}
	}
	vv.Cover("put")
}

// Get of several elements, and of the ranking among several: any token, list and two or three ids.
func VH_C27_getmulti() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	a := uint64(1 + vv.Choose("a", 4))
	b := uint64(1 + vv.Choose("b", 4))
	ids := []uint64{a, b}
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	err := (&api.ElementsController{}).GetMulti(&app.GetMultiElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: id, Payload: &app.MultiElement{ElementIds: ids}})
	code := s.status(err)
	if !s.outcome(id, l, ids, true, code, gets, mods, "get of several") {
		return
	}
	vv.Assert(s.st.mods == mods, "C27: get of several wrote to the storage")
	vv.Assert(code == 200, "C27: get of several is not answered with 200")
	r, ok := s.resp.body.(*app.RankdbMultielement)
	if !ok {
		vv.Fail("C27: get of several does not return elements")
		return
	}
	found, missing := 0, 0
	for i, e := range ids {
		if i > 0 && e == ids[0] {
			continue
		}
		if l.has(e) >= 0 {
			found++
		} else {
			missing++
		}
	}
	vv.Assert(len(r.Found) == found, "C27: wrong number of elements in the response to get of several")
	vv.Assert(len(r.NotFound) == missing, "C27: wrong number of missing elements in the response to get of several")
	for i, f := range r.Found {
		l.one(f, "get of several")
		vv.Assert(f.ID == a || f.ID == b, "C27: another element in the response to get of several")
		if i > 0 {
			vv.Assert(r.Found[i-1].FromTop < f.FromTop, "C27: elements in the response to get of several are not in ranking order")
		}
	}
	for _, f := range r.NotFound {
		vv.Assert(l.has(f) < 0 && (f == a || f == b), "C27: wrong missing element in the response to get of several")
	}
	vv.Cover("got")
}

// The ranking of an element among one or two others: any token, list and ids.
func VH_C27_around() {
	s := newServer(3)
	s.drawToken()
	id, l := s.listArg()
	arg, eid, valid := idArg("element")
	a := uint64(1 + vv.Choose("a", 4))
	b := uint64(1 + vv.Choose("b", 3))
	rng := 2 - vv.Choose("range", sz(2, 3))
	ids := []uint64{a, b}
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	err := (&api.ElementsController{}).GetAround(&app.GetAroundElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ElementID: arg, ListID: id, Range: rng, Payload: &app.MultiElement{ElementIds: ids}})
	code := s.status(err)
	if !s.outcome(id, l, []uint64{eid, a, b}, valid, code, gets, mods, "get around") {
		return
	}
	vv.Assert(s.st.mods == mods, "C27: get around wrote to the storage")
	if l.has(eid) < 0 {
		vv.Assert(code == 404, "C27: get around of an unknown element is not answered with 404")
		return
	}
	vv.Assert(code == 200, "C27: get around is not answered with 200")
	r, ok := s.resp.body.(*app.RankdbElementFull)
	if !ok {
		vv.Fail("C27: get around does not return an element")
		return
	}
	l.full(r, eid, "get around")
	// the others, by rank
	me := l.rank(l.want[l.has(eid)])
	above, below := 0, 0
	for i, o := range ids {
		if o == eid || (i == 1 && o == ids[0]) || l.has(o) < 0 {
			continue
		}
		or := l.rank(l.want[l.has(o)])
		above += vv.B2I(or < me)
		below += vv.B2I(or > me)
	}
	vv.Assert(r.LocalFromTop != nil && r.LocalFromBottom != nil, "C27: no local rank in the response to get around")
	vv.Assert(vv.And(*r.LocalFromTop == above, *r.LocalFromBottom == below), "C27: wrong local rank in the response to get around")
	vv.Assert(vv.And(len(r.Neighbors.Above) == vv.IteInt(above > rng, rng, above), len(r.Neighbors.Below) == vv.IteInt(below > rng, rng, below)), "C27: wrong number of neighbors in the response to get around")
	last := -1
	for _, o := range append(append([]*app.RankdbElement{}, r.Neighbors.Above...), r.Neighbors.Below...) {
		l.one(o, "get around")
		vv.Assert(o.ID != eid && (o.ID == a || o.ID == b), "C27: another neighbor in the response to get around")
		vv.Assert(o.FromTop > last, "C27: neighbors in the response to get around are not in ranking order")
		last = o.FromTop
	}
	for _, o := range r.Neighbors.Above {
		vv.Assert(o.FromTop < me, "C27: neighbor on the wrong side in the response to get around")
	}
	for _, o := range r.Neighbors.Below {
		vv.Assert(o.FromTop > me, "C27: neighbor on the wrong side in the response to get around")
	}
	vv.Cover("got")
}
