package apic

import (
	"context"

	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/vv"
)

// query is the part of a request that says which lists it is about.
type query struct {
	lists []string
	match map[string]string
	json  *string
	sets  []string
	want  []string // the lists it selects
}

func drawQuery() query {
	var q query
	q.lists = [][]string{nil, {"la"}, {"lb", "lx"}, {"la", "la"}}[vv.Choose("names", 4)]
	var bad string
	switch vv.Choose("metadata", 4) {
	case 1:
		q.match = map[string]string{"k": "1"}
		bad = `{"k": "1"}`
	case 2:
		q.match = map[string]string{"k": "2"}
		bad = `{"k": "2"}`
	case 3:
		q.match = map[string]string{"k": "1", "j": "2"}
		bad = `{"k": "1", "j": "2"}`
	}
	if q.match != nil {
		q.json = &bad
	}
	q.sets = [][]string{nil, {"s2"}, {"s1", "s3"}}[vv.Choose("sets", 3)]
	sel := map[string]bool{}
	for _, l := range q.lists {
		sel[l] = true
	}
	for _, s := range q.sets {
		if s == "s1" {
			sel["la"] = true
		}
		if s == "s2" {
			sel["lb"] = true
		}
	}
	if len(q.match) == 1 {
		sel["l"+map[string]string{"1": "a", "2": "b"}[q.match["k"]]] = true
	}
	for _, l := range []string{"la", "lb", "lx"} {
		if sel[l] {
			q.want = append(q.want, l)
		}
	}
	return q
}

func (q query) has(id string) bool {
	for _, l := range q.want {
		if l == id {
			return true
		}
	}
	return false
}

// results checks that the response reports exactly the given lists, f is called for those that succeeded.
func (s *server) results(code int, want []string, fails func(l *list) bool, errorsOnly bool, what string, f func(l *list, r *app.RankdbOperationSuccess)) {
	vv.Assert(code == 200, "C27: "+what+" is not answered with 200")
	r, ok := s.resp.body.(*app.RankdbResultlist)
	if !ok || r == nil {
		vv.Fail("C27: wrong kind of response to " + what)
		return
	}
	good, bad := 0, 0
	for _, id := range want {
		l := s.list(id)
		if l == nil || fails(l) {
			bad++
			_, ok := r.Errors[id]
			vv.Assert(ok, "C27: no error for a list that failed in the response to "+what)
			continue
		}
		good++
		if errorsOnly {
			continue
		}
		o, ok := r.Success[id]
		vv.Assert(ok && o != nil, "C27: no result for a list in the response to "+what)
		f(l, o)
	}
	if errorsOnly {
		vv.Assert(r.Success == nil, "C27: results in the response to "+what+" that asked for errors only")
		good = 0
	}
	vv.Assert(len(r.Success) == good && len(r.Errors) == bad, "C27: the response to "+what+" reports lists that the request does not name")
}

// tiny: the element as reported for list l.
func (l *list) tiny(r *app.RankdbElementTiny, what string) {
	i := l.has(r.ID)
	if i < 0 {
		vv.Fail("C27: element that is not in the list in the response to " + what)
		return
	}
	w := l.want[i]
	vv.Assert(vv.And(r.Score == w.score, samePay(r.Payload, w.pay), r.FromTop == l.rank(w), r.FromBottom == len(l.want)-1-l.rank(w)), "C27: wrong element data in the response to "+what)
}

// The element operations on several lists: any token, any choice of lists by name, metadata and set, an
// element in both lists or in none, lists of 2 elements with arbitrary scores.
func VH_C27_multi() {
	s := newServer(2)
	q := drawQuery()
	s.drawToken()
	op := vv.Choose("op", 4)
	what := []string{"multi-list create", "multi-list put", "multi-list delete", "multi-list get"}[op]
	arg, eid := "2", uint64(2)
	if vv.Choose("element", 2) == 1 {
		arg, eid = "3", 3
	}
	e := newEl("newscore", eid, 99)
	results, errorsOnly := true, false
	if op < 3 {
		switch vv.Choose("report", 3) {
		case 1:
			results = false
		case 2:
			errorsOnly = true
		}
	}
	ctx, rd, rq := s.request()
	gets, mods := s.st.gets, s.st.mods
	c := &api.MultilistController{}
	ql := &app.ListPayloadQL{Lists: q.lists, MatchMetadata: q.match, AllInSets: q.sets, Payload: []*app.Element{payload(eid, e)}}
	var err error
	switch op {
	case 0:
		err = c.Create(&app.CreateMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Results: results, Payload: ql})
	case 1:
		err = c.Put(&app.PutMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Results: results, Payload: ql})
	case 2:
		err = c.Delete(&app.DeleteMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Lists: q.lists, MatchMetadata: q.json, AllInSets: q.sets, ElementID: arg})
	case 3:
		err = c.Get(&app.GetMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, Lists: q.lists, MatchMetadata: q.json, AllInSets: q.sets, ElementID: arg})
	}
	code := s.status(err)
	if !s.allowed(q.want, []uint64{eid}) {
		s.refused(code, gets, mods, what)
		s.check("after a refused " + what)
		vv.Cover("refused")
		return
	}
	none := func(*list) bool { return false }
	switch op {
	case 0:
		if eid == 3 {
			for _, l := range s.lists {
				if q.has(l.id) {
					l.put(e)
				}
			}
			s.results(code, q.want, none, errorsOnly, what, func(l *list, r *app.RankdbOperationSuccess) {
				if results {
					vv.Assert(len(r.Results) == 1, "C27: not all elements in the response to "+what)
					l.tiny(r.Results[0], what)
				}
			})
			vv.Cover("created")
		} else {
			s.results(code, q.want, func(*list) bool { return true }, errorsOnly, what, nil)
			vv.Cover("conflict")
		}
	case 1:
		for _, l := range s.lists {
			if q.has(l.id) {
				l.put(e)
			}
		}
		s.results(code, q.want, none, errorsOnly, what, func(l *list, r *app.RankdbOperationSuccess) {
			if results {
				vv.Assert(len(r.Results) == 1, "C27: not all elements in the response to "+what)
				l.tiny(r.Results[0], what)
			}
		})
		vv.Cover("put")
	case 2:
		for _, l := range s.lists {
			if i := l.has(eid); i >= 0 && q.has(l.id) {
				l.want = append(append([]el{}, l.want[:i]...), l.want[i+1:]...)
			}
		}
		s.results(code, q.want, none, errorsOnly, what, func(*list, *app.RankdbOperationSuccess) {})
		vv.Cover("deleted")
	case 3:
		vv.Assert(s.st.mods == mods, "C27: multi-list get wrote to the storage")
		s.results(code, q.want, none, false, what, func(l *list, r *app.RankdbOperationSuccess) {
			if l.has(eid) < 0 {
				vv.Assert(len(r.Results) == 0, "C27: unknown element in the response to "+what)
				return
			}
			vv.Assert(len(r.Results) == 1 && r.Results[0].ID == eid, "C27: not the element in the response to "+what)
			l.tiny(r.Results[0], what)
		})
		vv.Cover("got")
	}
	s.check("after " + what)
}

// Verify and reindex of several lists: any choice of lists by name, metadata and set; none means all.
func VH_C27_multicare() {
	s := newServer(2)
	q := drawQuery()
	op := vv.Choose("op", 2)
	what := []string{"multi-list verify", "multi-list reindex"}[op]
	errorsOnly := vv.Choose("errors only", 2) == 1
	ql := &app.ListQL{Lists: q.lists, MatchMetadata: q.match, AllInSets: q.sets}
	ctx, rd, rq := s.request()
	c := &api.MultilistController{}
	var err error
	if op == 0 {
		err = c.Verify(&app.VerifyMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, Elements: true, ErrorsOnly: errorsOnly, Repair: vv.Choose("repair", 2) == 1, Payload: ql})
	} else {
		err = c.Reindex(&app.ReindexMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Payload: ql})
	}
	code := s.status(err)
	want := q.want
	if len(q.lists)+len(q.match)+len(q.sets) == 0 {
		want = []string{"la", "lb"}
	}
	s.results(code, want, func(*list) bool { return false }, errorsOnly, what, func(*list, *app.RankdbOperationSuccess) {})
	s.check("after " + what)
	vv.Cover(what)
}

// A multi-list operation on two lists whose request ends before it or at any of its first storage
// accesses: every list is reported, and nothing runs on after the response.
func VH_C27_multicancel() {
	s := newServer(2)
	op := vv.Choose("op", 5)
	errorsOnly := vv.Choose("errors only", 2) == 1
	at := vv.Choose("ends at", 7)
	ctx, rd, rq := s.request()
	ctx, cancel := context.WithCancel(ctx)
	if at == 0 {
		cancel()
	}
	n, late, done := 0, false, false
	s.st.onOp = func() {
		n++
		if n == at {
			cancel()
		}
		late = late || done
	}
	live := vv.LiveGoroutines()
	names := []string{"la", "lb"}
	e := newEl("newscore", 3, 99)
	ql := &app.ListPayloadQL{Lists: names, Payload: []*app.Element{payload(3, e)}}
	c := &api.MultilistController{}
	if errorsOnly && at > 0 && at <= sz(2, 6) && op < sz(1, 5) {
		vv.Schedules(1)
	}
	var err error
	switch op {
	case 0:
		err = c.Create(&app.CreateMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Results: true, Payload: ql})
	case 1:
		err = c.Put(&app.PutMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Results: true, Payload: ql})
	case 2:
		err = c.Delete(&app.DeleteMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Lists: names, ElementID: "2"})
	case 3:
		err = c.Get(&app.GetMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, Lists: names, ElementID: "2"})
	case 4:
		err = c.Reindex(&app.ReindexMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq, ErrorsOnly: errorsOnly, Payload: &app.ListQL{Lists: names}})
	}
	done = true
	vv.Assert(len(s.bucket) == 2, "C27: a finished request still counts as a running update")
	vv.Drain()
	vv.Assert(!late && vv.LiveGoroutines() <= live, "C27: a multi-list request that ended runs on after the response")
	if err != nil {
		return
	}
	r, ok := s.resp.body.(*app.RankdbResultlist)
	if !ok || r == nil {
		vv.Fail("C27: no result of a multi-list request that ended")
		return
	}
	if !errorsOnly || op == 3 {
		for _, id := range names {
			_, good := r.Success[id]
			_, bad := r.Errors[id]
			vv.Assert(good != bad, "C27: a multi-list request that ended does not say what happened to a list")
		}
	}
	cancel()
	vv.Cover("ended")
}

// More update requests than the server accepts at a time, and a request that ends while it waits.
func VH_C27_waiting() {
	s := newServer(1)
	<-s.bucket
	<-s.bucket
	ctx, rd, rq := s.request()
	ctx, cancel := context.WithCancel(ctx)
	ends := vv.Choose("ends", 2) == 1
	mods := s.st.mods
	started := make(chan bool)
	e := newEl("newscore", 2, 99)
	var err error
	go func() {
		err = (&api.ElementsController{}).Create(&app.CreateElementsContext{Context: ctx, ResponseData: rd, RequestData: rq, ListID: "la", Payload: payload(2, e)})
		close(started)
	}()
	vv.Drain()
	vv.Assert(s.st.mods == mods, "C27: more updates run than the server may run at a time")
	if ends {
		cancel()
		<-started
		vv.Assert(err != nil && s.resp.sends == 0, "C27: an update that ended while waiting is carried out")
		s.check("after an update that ended while waiting")
		s.bucket <- struct{}{}
		s.bucket <- struct{}{}
		vv.Cover("ended")
		return
	}
	s.bucket <- struct{}{}
	<-started
	s.bucket <- struct{}{}
	vv.Assert(s.status(err) == 200, "C27: an update that waited is not carried out")
	s.list("la").put(e)
	s.check("after an update that waited")
	cancel()
	vv.Cover("waited")
}
