// Package apic holds the harnesses for the HTTP API's request handlers: the
// controllers are called with contexts as goa builds them, and the response
// that they hand to goa is captured.
package apic

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"sync"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/api/app"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/vv"
	"github.com/dgrijalva/jwt-go"
	"github.com/goadesign/goa"
	goajwt "github.com/goadesign/goa/middleware/security/jwt"
)

func sz(quick, thorough int) int {
	if vv.Tier() == 1 {
		return thorough
	}
	return quick
}

type blob struct {
	set, key string
	val      []byte
}

// store is a map of blobs that counts accesses.
type store struct {
	mu   sync.Mutex
	b    []blob
	gets int
	mods int
	onOp func()
}

func (s *store) op() {
	if s.onOp != nil {
		s.onOp()
	}
}

func (s *store) find(set, key string) int {
	for i := range s.b {
		if s.b[i].set == set && s.b[i].key == key {
			return i
		}
	}
	return -1
}

func (s *store) Get(_ context.Context, set, key string) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.op()
	s.gets++
	i := s.find(set, key)
	if i < 0 {
		return nil, blobstore.ErrBlobNotFound
	}
	return append(make([]byte, 0, len(s.b[i].val)), s.b[i].val...), nil
}

func (s *store) Set(_ context.Context, set, key string, val []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.op()
	s.mods++
	v := append(make([]byte, 0, len(val)), val...)
	if i := s.find(set, key); i >= 0 {
		s.b[i].val = v
		return nil
	}
	s.b = append(s.b, blob{set, key, v})
	return nil
}

func (s *store) Delete(_ context.Context, set, key string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.op()
	s.mods++
	if i := s.find(set, key); i >= 0 {
		s.b = append(s.b[:i], s.b[i+1:]...)
	}
	return nil
}

var errGone = errors.New("client went away")

// response captures what a handler sends.
type response struct {
	h     http.Header
	code  int
	sends int
	body  interface{}
	raw   []byte
	broke bool
	room  int // bytes that the client takes before it goes away, -1: all
}

func (r *response) Header() http.Header         { return r.h }
func (r *response) Write(b []byte) (int, error) {
	if r.room >= 0 && len(b) > r.room {
		n := r.room
		r.raw = append(r.raw, b[:n]...)
		r.room, r.broke = 0, true
		return n, errGone
	}
	r.raw = append(r.raw, b...)
	if r.room >= 0 {
		r.room -= len(b)
	}
	return len(b), nil
}
func (r *response) WriteHeader(c int)           { r.code = c; r.sends++ }
func (r *response) Encode(v interface{}) error  { r.body = v; return nil }

// el is an element of the reference lists.
type el struct {
	id    uint64
	score uint64
	tie   uint32
	pay   byte
}

// list is a list of the server and what it must contain.
type list struct {
	id   string
	set  string
	meta map[string]string
	l    *rankdb.List
	want []el
}

type server struct {
	st    *store
	m     *rankdb.Manager
	lists []*list
	// the token
	token    *jwt.Token
	inLists  map[string]bool // nil: not restricted
	inElems  map[uint64]bool
	resp     *response
	bucket   rankdb.Bucket
}

func (s *server) list(id string) *list {
	for _, l := range s.lists {
		if l.id == id {
			return l
		}
	}
	return nil
}

func (l *list) has(id uint64) int {
	for i := range l.want {
		if l.want[i].id == id {
			return i
		}
	}
	return -1
}

// newServer has the lists la (set s1, metadata k=1) and lb (set s2, metadata k=2)
// of n elements with ids 1..n and arbitrary scores.
func newServer(n int) *server {
	s := &server{st: &store{}}
	var err error
	s.m, err = rankdb.NewManager(s.st, "main")
	if err != nil {
		panic(err)
	}
	if err := s.m.NewLists(nil); err != nil {
		panic(err)
	}
	ctx := context.Background()
	for i, id := range []string{"la", "lb"} {
		l := &list{id: id, set: "s" + strconv.Itoa(i+1), meta: map[string]string{"k": strconv.Itoa(i + 1)}}
		var pop rankdb.Elements
		for k := 0; k < n; k++ {
			e := el{id: uint64(k + 1), score: uint64(10 * (k + 1)), tie: uint32(k), pay: byte(10*i + k)}
			if i == 0 {
				e.score = vv.U64(fmt.Sprint("score", k))
			}
			l.want = append(l.want, e)
			pop = append(pop, rankdb.Element{ID: rankdb.ElementID(e.id), Score: e.score, TieBreaker: e.tie, Payload: []byte{e.pay}})
		}
		l.l, err = rankdb.NewList(ctx, rankdb.ListID(id), l.set, s.st, rankdb.WithListOption.Metadata(l.meta), rankdb.WithListOption.MergeSplitSize(10, 20), rankdb.WithListOption.Populate(pop))
		if err != nil {
			panic(err)
		}
		s.m.Lists.Add(l.l)
		s.lists = append(s.lists, l)
	}
	s.bucket = rankdb.NewBucket(2)
	api.VVServer(s.m, nil, s.bucket)
	return s
}

// drawToken picks a token: none, or one with or without a restriction to lists and to elements.
func (s *server) drawToken() {
	if vv.Choose("token", 2) == 0 {
		return
	}
	claims := jwt.MapClaims{}
	if o := vv.Choose("lists", 4); o > 0 {
		claims["only_lists"] = []string{"lb", "la", "la, lb"}[o-1]
		s.inLists = []map[string]bool{{"lb": true}, {"la": true}, {"la": true, "lb": true}}[o-1]
	}
	if o := vv.Choose("elements", sz(2, 4)); o > 0 {
		claims["only_elements"] = []string{"2", "1,3", "1, 2,3,4"}[o-1]
		s.inElems = []map[uint64]bool{{2: true}, {1: true, 3: true}, {1: true, 2: true, 3: true, 4: true}}[o-1]
	}
	s.token = &jwt.Token{Claims: claims}
}

func (s *server) allowed(lists []string, elems []uint64) bool {
	for _, l := range lists {
		if s.inLists != nil && !s.inLists[l] {
			return false
		}
	}
	for _, e := range elems {
		if s.inElems != nil && !s.inElems[e] {
			return false
		}
	}
	return true
}

// request returns what goa puts in the context of a request.
func (s *server) request() (context.Context, *goa.ResponseData, *goa.RequestData) {
	s.resp = &response{h: http.Header{}, room: -1}
	enc := goa.NewHTTPEncoder()
	resp := s.resp
	enc.Register(func(io.Writer) goa.Encoder { return resp }, "*/*")
	ctx := goa.NewContext(context.Background(), s.resp, &http.Request{Header: http.Header{}}, nil)
	if s.token != nil {
		ctx = goajwt.WithJWT(ctx, s.token)
	}
	rd := goa.ContextResponse(ctx)
	rd.Service = &goa.Service{Encoder: enc}
	// Without a net/http request the handlers do not start a goroutine that watches for the client going away.
	return ctx, rd, &goa.RequestData{}
}

// status is the status the client gets: goa turns errors that carry one into a response.
func (s *server) status(err error) int {
	vv.Assert(len(s.bucket) == 2, "C27: a finished request still counts as a running update")
	vv.Assert(s.resp.sends <= 1, "C27: more than one response to a request")
	if err == nil {
		vv.Assert(s.resp.sends == 1, "C27: no response to a request")
		return s.resp.code
	}
	vv.Assert(s.resp.sends == 0, "C27: a response and an error")
	if e, ok := err.(goa.ServiceError); ok {
		return e.ResponseStatus()
	}
	return 500
}

// check: every list holds exactly what it must.
func (s *server) check(what string) {
	ctx := context.Background()
	for _, l := range s.lists {
		lst, ok := s.m.Lists.ByID(rankdb.ListID(l.id))
		if !ok {
			vv.Fail("C27: list gone " + what)
			continue
		}
		var ids []rankdb.ElementID
		for i := 1; i <= 6; i++ {
			ids = append(ids, rankdb.ElementID(i))
		}
		got, err := lst.GetElements(ctx, s.st, ids, 0)
		vv.Assert(err == nil, "C27: list cannot be read "+what)
		n, err := lst.Len(ctx, s.st)
		vv.Assert(err == nil, "C27: list cannot be read "+what)
		vv.Assert(len(got) == len(l.want), "C27: list "+l.id+" has other elements than expected "+what)
		vv.Assert(n == len(l.want), "C27: list "+l.id+" has another length than expected "+what)
		for _, g := range got {
			i := l.has(uint64(g.ID))
			if i < 0 {
				vv.Fail("C27: list " + l.id + " has an element it should not have " + what)
				continue
			}
			w := l.want[i]
			vv.Assert(vv.And(g.Score == w.score, g.TieBreaker == w.tie, samePay(g.Payload, w.pay)), "C27: element of "+l.id+" differs from the expected "+what)
		}
	}
}

func samePay(p []byte, want byte) bool {
	if len(p) != 1 {
		return false
	}
	return p[0] == want
}

// refused: the request did nothing and read nothing.
func (s *server) refused(code int, gets, mods int, what string) {
	vv.Assert(code == 401, "C27: "+what+" outside the token's restrictions was not refused with 401")
	vv.Assert(s.st.mods == mods, "C27: refused "+what+" wrote to the storage")
	vv.Assert(s.st.gets == gets, "C27: refused "+what+" read from the storage")
	switch s.resp.body.(type) {
	case nil, error:
	default:
		vv.Fail("C27: refused " + what + " returned data")
	}
}

// rank: how many elements of l are above w, by the ranking order (all were updated at an unknown time:
// elements tied in score and tie breaker cannot occur, as the tie breakers differ).
func (l *list) rank(w el) int {
	r := 0
	for _, o := range l.want {
		if o.id != w.id {
			r += vv.B2I(vv.Or(o.score > w.score, vv.And(o.score == w.score, o.tie > w.tie)))
		}
	}
	return r
}

func (l *list) matches(e el, fromTop, fromBottom int, score uint64, tie uint32, pay []byte) bool {
	return vv.And(score == e.score, tie == e.tie, samePay(pay, e.pay), fromTop == l.rank(e), fromBottom == len(l.want)-1-l.rank(e))
}

func (l *list) full(r *app.RankdbElementFull, id uint64, what string) {
	vv.Assert(r != nil, "C27: no element in the response to "+what)
	vv.Assert(vv.And(r.ID == id, r.ListID == l.id), "C27: another element in the response to "+what)
	i := l.has(id)
	vv.Assert(l.matches(l.want[i], r.FromTop, r.FromBottom, r.Score, r.TieBreaker, r.Payload), "C27: wrong element data in the response to "+what)
}

func (l *list) one(r *app.RankdbElement, what string) {
	vv.Assert(r.ListID == l.id, "C27: another list in the response to "+what)
	i := l.has(r.ID)
	if i < 0 {
		vv.Fail("C27: element that is not in the list in the response to " + what)
		return
	}
	vv.Assert(l.matches(l.want[i], r.FromTop, r.FromBottom, r.Score, r.TieBreaker, r.Payload), "C27: wrong element data in the response to "+what)
}

// listArg picks a list to ask for: la or one that does not exist.
func (s *server) listArg() (string, *list) {
	id := []string{"la", "lx"}[vv.Choose("list", 2)]
	return id, s.list(id)
}

var idArgs = []string{"1", "2", "3", "4", "x"}

// idArg picks an element id in a URL. ok is false if it is no number.
func idArg(name string) (string, uint64, bool) {
	i := vv.Choose(name, len(idArgs))
	return idArgs[i], uint64(i + 1), i < 4
}
