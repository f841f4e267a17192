package apic

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/vv"
	"github.com/goadesign/goa"
)

// body is what a client sends.
type body struct {
	io.Reader
	closed bool
}

func (b *body) Close() error { b.closed = true; return nil }

// backupReq asks for a backup.
func (s *server) backupReq(q query, room int, d app.BackupDestination) int {
	ctx, rd, rq := s.request()
	s.resp.room = room
	c := &api.MultilistController{}
	err := c.Backup(&app.BackupMultilistContext{Context: ctx, ResponseData: rd, RequestData: rq,
		Payload: &app.MultiListBackup{Destination: &d, Lists: &app.ListQL{Lists: q.lists, MatchMetadata: q.match, AllInSets: q.sets}}})
	if room >= 0 && err != nil {
		return 0
	}
	return s.status(err)
}

// job asks for the status of a backup until it is done.
func (s *server) job(id string) *app.RankdbBackupStatus {
	for i := 0; i < 2000; i++ {
		ctx, rd, rq := s.request()
		c := &api.BackupController{}
		code := s.status(c.Status(&app.StatusBackupContext{Context: ctx, ResponseData: rd, RequestData: rq, BackupID: id}))
		vv.Assert(code == 200, "C35: the status of a backup is not answered with 200")
		st, ok := s.resp.body.(*app.RankdbBackupStatus)
		vv.Assert(ok && st != nil, "C35: wrong kind of response to a status request")
		if st.Done {
			return st
		}
		time.Sleep(time.Millisecond)
	}
	vv.Fail("C35: a backup never ends")
	return nil
}

// restoreReq sends a backup to be restored.
func (s *server) restoreReq(b []byte, keep bool, pre, suf string) (int, *app.RankdbRestoreresult) {
	ctx, rd, _ := s.request()
	bd := &body{Reader: bytes.NewReader(b)}
	rc := &app.RestoreMultilistContext{Context: ctx, ResponseData: rd, RequestData: &goa.RequestData{Request: &http.Request{Body: bd}}, Keep: keep}
	if pre != "" {
		rc.ListIDPrefix = &pre
	}
	if suf != "" {
		rc.ListIDSuffix = &suf
	}
	c := &api.MultilistController{}
	code := s.status(c.Restore(rc))
	vv.Assert(bd.closed, "C35: the body of a restore is not closed")
	r, _ := s.resp.body.(*app.RankdbRestoreresult)
	return code, r
}

// all selects every list if the query is empty.
func (q query) all() query {
	if len(q.lists) == 0 && len(q.match) == 0 && len(q.sets) == 0 {
		q.want = []string{"la", "lb"}
	}
	return q
}

// another starts a second server.
func another() *server {
	s := &server{st: &store{}}
	var err error
	s.m, err = rankdb.NewManager(s.st, "main")
	vv.Assert(err == nil && s.m.NewLists(nil) == nil, "creating the manager failed")
	s.bucket = rankdb.NewBucket(2)
	api.VVServer(s.m, nil, s.bucket)
	return s
}

// put changes the score of an element of a list.
func (s *server) put(l *list, i int, score uint64) {
	w := &l.want[i]
	w.score = score
	_, err := l.l.UpdateElements(context.Background(), s.st, rankdb.Elements{{ID: rankdb.ElementID(w.id), Score: score, TieBreaker: w.tie, Payload: []byte{w.pay}}}, 0, false)
	vv.Assert(err == nil, "update failed")
}

func clone(e []el) []el { return append([]el(nil), e...) }

// A downloaded backup of lists selected by names, metadata and sets (or of all) that is restored on another server.
func VH_C35_download() {
	s := newServer(2)
	q := drawQuery().all()
	vv.Assert(s.backupReq(q, -1, app.BackupDestination{Type: "download"}) == 200, "C35: a download is not answered with 200")
	raw, id := s.resp.raw, s.resp.h.Get("X-Backup-ID")
	st := s.job(id)
	there := 0
	for _, w := range q.want {
		_, bad := st.Errors[w]
		vv.Assert(bad == (s.list(w) == nil), "C35: a backup reports an error for exactly the lists that are missing")
		if !bad {
			there++
		}
	}
	vv.Assert(len(st.Errors) == len(q.want)-there && st.Lists == len(q.want) && st.ListsDone == there, "C35: the status of a backup counts other lists than requested")
	vv.Assert(st.Finished != nil && !st.Cancelled && st.Size == int64(len(raw)), "C35: wrong status of a finished backup")
	s.check("after a backup")
	d := another()
	code, res := d.restoreReq(raw, vv.Choose("keep", 2) == 1, "", "")
	vv.Assert(code == 200 && res != nil, "C35: a downloaded backup cannot be restored")
	vv.Assert(res.Restored == there && res.Skipped == 0 && len(res.Errors) == 0, "C35: a restore on an empty server counts other lists than the backup has")
	for _, w := range q.want {
		if l := s.list(w); l != nil {
			d.lists = append(d.lists, l)
		}
	}
	vv.Assert(len(d.m.Lists.All()) == there, "C35: other lists than requested were restored")
	d.check("after restoring it on another server")
	for _, l := range d.lists {
		n, _ := d.m.Lists.ByID(rankdb.ListID(l.id))
		vv.Assert(n.Set == l.set && len(n.Metadata) == 1 && n.Metadata["k"] == l.meta["k"], "C35: restored list has another set or metadata")
	}
	vv.Cover("restored")
}

// A backup that is restored on its own server after the lists changed: over them, keeping them, or under new names.
func VH_C35_over() {
	s := newServer(2)
	q := query{lists: []string{"la"}, want: []string{"la"}}
	if vv.Choose("both", 2) == 1 {
		q = query{}.all()
	}
	vv.Assert(s.backupReq(q, -1, app.BackupDestination{Type: "download"}) == 200, "C35: a download is not answered with 200")
	raw := s.resp.raw
	s.job(s.resp.h.Get("X-Backup-ID"))
	orig := map[string]*list{}
	for _, l := range s.lists {
		orig[l.id] = &list{id: l.id, set: l.set, want: clone(l.want)}
		s.put(l, 0, vv.U64("changed"))
	}
	if vv.Choose("gone", 2) == 1 {
		vv.Assert(s.m.DeleteList(context.Background(), "la") == nil, "deleting a list failed")
		s.lists = s.lists[1:]
	}
	keep := vv.Choose("keep", 2) == 1
	pre, suf := affixes(true)
	code, res := s.restoreReq(raw, keep, pre, suf)
	vv.Assert(code == 200 && res != nil && len(res.Errors) == 0, "C35: a backup cannot be restored on the server that made it")
	skipped := 0
	for _, id := range q.want {
		name := pre + id + suf
		if l := s.list(name); l == nil {
			s.lists = append(s.lists, &list{id: name, set: orig[id].set, want: orig[id].want})
		} else if keep {
			skipped++
		} else {
			l.want = orig[id].want
		}
	}
	vv.Assert(res.Skipped == skipped && res.Restored == len(q.want)-skipped, "C35: a restore reports other numbers than it restored and skipped")
	s.check("after restoring a backup")
	vv.Assert(len(s.m.Lists.All()) == len(s.lists), "C35: lists added or lost by a restore")
	vv.Cover("over")
}

// The client of a download goes away after any of the first bytes; the job ends and nothing is left running.
func VH_C35_gone() {
	s := newServer(1)
	live := vv.LiveGoroutines()
	q := query{lists: []string{"la"}, want: []string{"la"}}
	s.backupReq(q, vv.Int("room", 0, sz(80, 120)), app.BackupDestination{Type: "download"})
	vv.Assert(len(s.bucket) == 2, "C35: a download that was left still counts as a running update")
	id := s.resp.h.Get("X-Backup-ID")
	s.job(id)
	vv.Drain()
	vv.Assert(vv.LiveGoroutines() <= live, "C35: a download that was left leaves something running")
	s.check("after a download that was left")
	vv.Cover("gone")
}

// Requests that cannot work are refused and start nothing.
func VH_C35_invalid() {
	s := newServer(1)
	live := vv.LiveGoroutines()
	gets, mods := s.st.gets, s.st.mods
	empty := ""
	bad := "://"
	var code, want int
	c := &api.BackupController{}
	ctx, rd, rq := s.request()
	switch op := vv.Choose("op", 12); op {
	case 0, 1, 2:
		code, want = s.backupReq(query{}, -1, app.BackupDestination{Type: []string{"file", "server", "tape"}[op]}), 400
	case 3, 4:
		code, want = s.backupReq(query{}, -1, app.BackupDestination{Type: []string{"file", "server"}[op-3], Path: &empty}), 400
	case 5, 6, 7:
		code, want = s.backupReq(query{}, -1, app.BackupDestination{Type: "s3", Path: []*string{nil, &empty, &bad}[op-5]}), 400
	case 8:
		code, want = s.status(c.Status(&app.StatusBackupContext{Context: ctx, ResponseData: rd, RequestData: rq, BackupID: vv.Str("id", 2)})), 404
	case 9:
		code, want = s.status(c.Delete(&app.DeleteBackupContext{Context: ctx, ResponseData: rd, RequestData: rq, BackupID: vv.Str("id", 2)})), 404
	case 10: // not a backup
		b := vv.Bytes("body", sz(2, 4))
		code, _ = s.restoreReq(b, false, "", "")
		want = 400
	case 11: // no S3
		rc := &app.RestoreMultilistContext{Context: ctx, ResponseData: rd, RequestData: &goa.RequestData{Request: &http.Request{Body: &body{Reader: bytes.NewReader(nil)}}}, Src: "s3://bucket/key"}
		code, want = s.status((&api.MultilistController{}).Restore(rc)), 400
	}
	vv.Assert(code == want, "C35: a request that cannot work is answered with another status")
	vv.Drain()
	vv.Assert(vv.LiveGoroutines() <= live, "C35: a refused request leaves something running")
	vv.Assert(s.st.gets == gets && s.st.mods == mods, "C35: a refused request uses the storage")
	s.check("after a refused request")
	vv.Cover("refused")
}


// A backup is cancelled at any storage access of its job: it ends, and what was sent cannot be mistaken for a backup
// of everything.
func VH_C35_cancel() {
	s := newServer(1)
	live := vv.LiveGoroutines()
	k, at := 0, vv.Int("at", 0, sz(5, 8))
	did := false
	s.st.onOp = func() {
		if k == at {
			r := s.resp
			ctx, rd, rq := s.request()
			err := (&api.BackupController{}).Delete(&app.DeleteBackupContext{Context: ctx, ResponseData: rd, RequestData: rq, BackupID: r.h.Get("X-Backup-ID")})
			vv.Assert(err == nil && s.resp.code == 204, "C35: cancelling a backup is not answered with 204")
			s.resp = r
			did = true
		}
		k++
	}
	code := s.backupReq(query{}, -1, app.BackupDestination{Type: "download"})
	s.st.onOp = nil
	vv.Assert(code == 200, "C35: a download is not answered with 200")
	raw := s.resp.raw
	st := s.job(s.resp.h.Get("X-Backup-ID"))
	vv.Assert(did || !st.Cancelled, "C35: a backup that nobody cancelled is reported as cancelled")
	vv.Assert(!st.Cancelled || st.ListsDone < st.Lists, "C35: a complete backup is reported as cancelled")
	vv.Assert(st.Cancelled || len(st.Errors) > 0 || st.ListsDone == 2, "C35: an incomplete backup is reported as a success")
	vv.Drain()
	vv.Assert(vv.LiveGoroutines() <= live, "C35: a cancelled backup leaves something running")
	s.check("after a cancelled backup")
	lists, done := s.lists, st.ListsDone
	d := another()
	code, res := d.restoreReq(raw, false, "", "")
	if st.Cancelled {
		vv.Assert(code == 400, "C35: a cancelled backup restores as if it was complete")
		vv.Cover("cancelled")
		return
	}
	vv.Assert(code == 200 && res.Restored == done, "C35: a backup that ended restores another number of lists")
	if done == 2 {
		d.lists = lists
		d.check("after restoring it on another server")
		vv.Cover("too late")
	}
}

// While all update slots are taken a backup or restore waits, and does nothing when its client goes away.
func VH_C35_slot() {
	s := newServer(1)
	gets, mods := s.st.gets, s.st.mods
	<-s.bucket
	<-s.bucket
	ctx, rd, rq := s.request()
	c, cancel := context.WithCancel(ctx)
	restore := vv.Choose("restore", 2) == 1
	var bd = &body{Reader: bytes.NewReader([]byte{1})}
	res := make(chan error, 1)
	go func() {
		if restore {
			res <- (&api.MultilistController{}).Restore(&app.RestoreMultilistContext{Context: c, ResponseData: rd, RequestData: &goa.RequestData{Request: &http.Request{Body: bd}}})
			return
		}
		res <- (&api.MultilistController{}).Backup(&app.BackupMultilistContext{Context: c, ResponseData: rd, RequestData: rq,
			Payload: &app.MultiListBackup{Destination: &app.BackupDestination{Type: "download"}, Lists: &app.ListQL{}}})
	}()
	time.Sleep(time.Millisecond)
	vv.Assert(len(res) == 0 && s.resp.sends == 0, "C35: a backup or restore does not wait for an update slot")
	free := vv.Choose("free", 2) == 1
	if free {
		s.bucket <- struct{}{}
	} else {
		cancel()
	}
	err := <-res
	cancel()
	if free {
		s.bucket <- struct{}{}
		vv.Assert(len(s.bucket) == 2, "C35: an update slot is lost")
		vv.Assert(restore == (s.status(err) == 400), "C35: wrong answer after waiting for an update slot")
		vv.Cover("waited")
		return
	}
	vv.Assert(len(s.bucket) == 0, "C35: an update slot appears from nowhere")
	vv.Assert(err != nil && s.resp.sends == 0, "C35: a backup or restore whose client went away while it waited is carried out")
	vv.Assert(s.st.gets == gets && s.st.mods == mods, "C35: a backup or restore whose client went away uses the storage")
	vv.Cover("left")
}

// web is the other side of HTTP requests.
type web struct {
	f func(*http.Request) (*http.Response, error)
}

func (w web) RoundTrip(r *http.Request) (*http.Response, error) { return w.f(r) }

// onWeb makes f the other side of every request.
func onWeb(f func(*http.Request) (*http.Response, error)) (undo func()) {
	old := http.DefaultClient
	http.DefaultClient = &http.Client{Transport: web{f}}
	return func() { http.DefaultClient = old }
}

func answer(code int, b []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b))}
}

// A backup to another server whose restore handler gets it: nothing there, or the same list with other content; with
// prefix and suffix; the other server is down, has no health, refuses the restore or has it.
func VH_C35_server() { toServer(drawQuery(), vv.Choose("exists", 2) == 1, vv.Choose("fault", 5), "", "") }

// The same with a prefix or suffix that is any character.
func VH_C35_affix() {
	c := vv.Str("character", 1)
	if vv.Choose("suffix", 2) == 0 {
		toServer(query{}, false, 0, c, "")
	} else {
		toServer(query{}, false, 0, "", c)
	}
}

func toServer(q query, exists bool, fault int, pre, suf string) {
	s := newServer(1)
	src, there := s, s.lists
	if vv.Tier() == 0 {
		vv.Assume(len(q.lists) == 0 || len(q.sets) == 0)
	}
	q = q.all()
	d := another()
	if exists {
		l, err := rankdb.NewList(context.Background(), "la", "other", d.st, rankdb.WithListOption.Populate(rankdb.Elements{{ID: 4, Score: 40, Payload: []byte{44}}}))
		vv.Assert(err == nil, "creating a list failed")
		d.m.Lists.Add(l)
		d.lists = []*list{{id: "la", set: "other", want: []el{{4, 40, 0, 44}}}}
	}
	api.VVServer(s.m, nil, s.bucket)
	var res *app.RankdbRestoreresult
	calls := 0
	defer onWeb(func(r *http.Request) (*http.Response, error) {
		vv.Assert(r.URL.Host == "other:80", "C35: a backup is sent to another server than requested")
		if r.URL.Path == "/health" {
			if fault == 1 {
				return nil, errGone
			}
			if fault == 2 {
				return answer(503, nil), nil
			}
			return answer(200, nil), nil
		}
		vv.Assert(r.URL.Path == "/xlist/restore" && r.Method == "POST", "C35: a backup is not sent to the restore resource")
		calls++
		if fault == 3 {
			return nil, errGone
		}
		if fault == 4 {
			return answer(500, []byte("no")), nil
		}
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		v := r.URL.Query()
		api.VVServer(d.m, nil, d.bucket)
		code, o := d.restoreReq(b, v.Get("keep") == "true", v.Get("list_id_prefix"), v.Get("list_id_suffix"))
		api.VVServer(src.m, nil, src.bucket)
		res = o
		return answer(code, nil), nil
	})()
	host := "other:80"
	dest := app.BackupDestination{Type: "server", Path: &host}
	if pre == "" && suf == "" {
		pre, suf = affixes(false)
	}
	if pre != "" {
		dest.ServerListIDPrefix = &pre
	}
	if suf != "" {
		dest.ServerListIDSuffix = &suf
	}
	live := vv.LiveGoroutines()
	code := s.backupReq(q, -1, dest)
	if fault == 1 || fault == 2 {
		vv.Assert(code == 400, "C35: a backup to a server that is not there is not answered with 400")
		vv.Assert(calls == 0, "C35: a refused backup is sent")
		d.check("after a backup that was not sent")
		vv.Cover("down")
		return
	}
	vv.Assert(code == 201, "C35: a backup to a server is not answered with 201")
	cb, ok := s.resp.body.(*app.RankdbCallback)
	vv.Assert(ok && cb != nil, "C35: a backup to a server is not answered with a callback")
	vv.Assert(cb.CallbackURL == "/backup/"+cb.ID, "C35: the callback is another resource")
	st := s.job(cb.ID)
	vv.Drain()
	vv.Assert(vv.LiveGoroutines() <= live, "C35: a backup to a server leaves something running")
	vv.Assert(calls == 1, "C35: a backup is sent several times or never")
	if fault != 0 {
		vv.Assert(len(st.Errors) > 0, "C35: a backup that the other server did not restore is reported as a success")
		d.check("after a backup that was refused")
		vv.Cover("refused")
		return
	}
	var names []string
	n := 0
	for _, id := range q.want {
		_, bad := st.Errors[id]
		vv.Assert(bad == (s.list(id) == nil), "C35: a backup reports an error for exactly the lists that are missing")
		if bad {
			n++
			continue
		}
		names = append(names, id)
		if o := d.list(pre + id + suf); o != nil {
			d.lists = nil
		}
	}
	vv.Assert(len(st.Errors) == n && st.ListsDone == len(names), "C35: the status of a backup counts other lists than requested")
	vv.Assert(res != nil && res.Restored == len(names) && res.Skipped == 0 && len(res.Errors) == 0, "C35: the other server restored other lists than requested")
	for _, id := range names {
		for _, o := range there {
			if o.id == id {
				d.lists = append(d.lists, &list{id: pre + id + suf, set: o.set, want: o.want})
			}
		}
	}
	vv.Assert(len(d.m.Lists.All()) == len(d.lists), "C35: the other server has other lists than requested")
	d.check("after restoring it on another server")
	s.check("after a backup to another server")
	vv.Cover("restored")
}

// A restore from a URL: the answer has a backup, an error, or cannot be had; and from nothing at all.
func VH_C35_url() {
	s := newServer(1)
	vv.Assert(s.backupReq(query{}, -1, app.BackupDestination{Type: "download"}) == 200, "C35: a download is not answered with 200")
	raw := s.resp.raw
	s.job(s.resp.h.Get("X-Backup-ID"))
	lists := s.lists
	d := another()
	status := vv.Int("status", 200, 599)
	gone := vv.Choose("gone", 2) == 1
	n := len(raw)
	if vv.Choose("short", 2) == 1 {
		n = vv.Choose("bytes", sz(3, 6)) * n / sz(3, 6)
	}
	calls := 0
	defer onWeb(func(r *http.Request) (*http.Response, error) {
		vv.Assert(r.URL.String() == "http://other:80/some/file?a=b" && r.Method == "GET", "C35: a restore loads from another place")
		calls++
		if gone {
			return nil, errGone
		}
		// Redirects are followed by net/http.
		vv.Assume(vv.Or(status < 300, status > 399))
		return answer(status, raw[:n]), nil
	})()
	ctx, rd, _ := d.request()
	bd := &body{Reader: bytes.NewReader(nil)}
	code := d.status((&api.MultilistController{}).Restore(&app.RestoreMultilistContext{Context: ctx, ResponseData: rd, RequestData: &goa.RequestData{Request: &http.Request{Body: bd}}, Src: "http://other:80/some/file?a=b"}))
	vv.Assert(calls == 1, "C35: a restore from a URL does not load it once")
	if gone || status > 299 {
		vv.Assert(code == 400 && len(d.m.Lists.All()) == 0, "C35: a restore from a URL that does not work is not answered with 400")
		vv.Cover("bad")
		return
	}
	if n < len(raw) {
		vv.Assert(code == 400, "C35: a restore of a part of a backup is not answered with 400")
		vv.Cover("short")
		return
	}
	vv.Assert(code == 200, "C35: a restore from a URL fails")
	d.lists = lists
	d.check("after restoring it from a URL")
	vv.Assert(len(d.m.Lists.All()) == 2, "C35: a restore from a URL restores other lists")
	vv.Cover("loaded")
}

// affixes are the prefix and the suffix of restored lists: none, or an arbitrary character.
func affixes(free bool) (pre, suf string) {
	switch vv.Choose("names changed", 4) {
	case 1:
		pre = "p"
	case 2:
		suf = "s"
	case 3:
		pre, suf = "p", "s"
	}
	if free && pre != "" {
		pre = vv.Str("prefix", 1)
	}
	if free && suf != "" {
		suf = vv.Str("suffix", 1)
	}
	return pre, suf
}
