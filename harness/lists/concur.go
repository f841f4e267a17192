package lists

import (
	"context"
	"math"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/vv"
	"github.com/Vivino/rankdb/vvlib"
)

// Two operations run concurrently on one list. The interleaving is an input: an
// operation stops at a chosen storage access (which it does while it holds
// whatever locks the code takes around it) until everything else has come to a
// halt, natively for some time. Further context switches at synchronisation
// points are added by the engine.

type opKey struct{}

const pace = 25 * time.Millisecond

var gateClasses = []string{"aS", "aI", "as0", "as1", "as2", "ai0", "ai1", "new"}

// gate codes are kind*8+class
const gateNone = 63

type pacer struct {
	st    *store
	gates [3]int // codes: first and second stop of operation 0, stop of operation 1
	hit   [3]bool
	cur   int           // who runs, for accesses that do not tell
	go1   chan struct{} // closed when operation 1 may start
}

func (p *pacer) code(op, key string) int {
	k := 0
	switch op {
	case "Set":
		k = 1
	case "Delete":
		k = 2
	case "Look":
		k = 3
	case "Add":
		k = 4
	}
	cl := p.st.classOf(key)
	for i, c := range gateClasses {
		if c == cl {
			return k*8 + i
		}
	}
	return k*8 + 7
}

func (p *pacer) start1() {
	select {
	case <-p.go1:
	default:
		close(p.go1)
	}
}

func (p *pacer) access(c context.Context, op, key string) {
	if who, ok := c.Value(opKey{}).(int); ok {
		p.stop(who, op, key)
	}
}

// cached is an access to the cache, which has no context: it is taken to come
// from the operation that was not stopped last.
func (p *pacer) cached(op string, key interface{}) {
	id, _ := key.(string)
	for i, c := range []string{"1[asc]", "2[asc]", "1[aix]", "2[aix]"} {
		if id == c {
			p.st.mu.Lock()
			who := p.cur
			p.st.mu.Unlock()
			p.stop(who, op, []string{"asc-000001", "asc-000002", "aix-000001", "aix-000002"}[i])
		}
	}
}

func (p *pacer) stop(who int, op, key string) {
	code := p.code(op, key)
	stop := -1
	p.st.mu.Lock()
	for g := range p.gates {
		if (g == 2) == (who == 1) && !p.hit[g] && p.gates[g] == code {
			p.hit[g] = true
			stop = g
			break
		}
	}
	if stop >= 0 {
		p.cur = 1 - who
		if who == 0 {
			p.start1()
		}
	}
	p.st.mu.Unlock()
	switch {
	case stop < 0:
	case who == 0:
		time.Sleep(pace)
	default:
		time.Sleep(2 * pace)
	}
}

// conc is the content of the list and what the operations do to it.
type conc struct {
	w      *world
	x, y   rankdb.Element // two stored elements
	nx, ny rankdb.Element // their new versions
	fresh  [2]rankdb.Element
	score  uint64
}

type cop struct {
	run   func(c context.Context, who int, l *rankdb.List) bool // false: the operation misbehaved on its own
	apply func(els []rankdb.Element, who int) []rankdb.Element  // nil: not a change
}

func without(els []rankdb.Element, ids ...rankdb.ElementID) []rankdb.Element {
	var r []rankdb.Element
	for i := range els {
		hit := false
		for _, id := range ids {
			hit = hit || id == els[i].ID
		}
		if !hit {
			r = append(r, els[i])
		}
	}
	return r
}

// known says that e is one of the elements the list may hold at some time.
func (k *conc) known(e rankdb.Element) bool {
	r := false
	for _, o := range append([]rankdb.Element{k.nx, k.ny, k.fresh[0], k.fresh[1]}, k.w.els...) {
		r = vv.Or(r, vvlib.Same(o, e))
	}
	return r
}

func (k *conc) allKnown(els []rankdb.Element) bool {
	r := true
	for i := range els {
		r = vv.And(r, k.known(els[i]))
	}
	return r
}

const (
	ccUpdate = iota
	ccSwap
	ccInsert
	ccDelete
	ccDelete2
	ccGetAll
	ccGetOne
	ccScore
	ccPercentile
	ccTop
	ccStats
	ccSplit
	ccRepair
	ccReindex
	ccBackup
	ccClone
	ccRelease
	ccVerify
	nOps
)

// perform runs operation op as participant who and asserts what it promises on its own.
// gone tells which ids the other operation removes.
func (k *conc) perform(op, who int, l *rankdb.List, st *store, gone []rankdb.ElementID) {
	c := context.WithValue(ctx, opKey{}, who)
	removed := func(id rankdb.ElementID) bool {
		for _, g := range gone {
			if g == id {
				return true
			}
		}
		return false
	}
	lookup := func(ids []rankdb.ElementID, radius int) {
		r, err := l.GetElements(c, st, append([]rankdb.ElementID(nil), ids...), radius)
		vv.Assert(err == nil, "C17: a lookup fails because of a concurrent operation")
		for _, id := range ids {
			n := 0
			for i := range r {
				if r[i].ID == id {
					n++
					vv.Assert(k.known(r[i].Element), "C17: a lookup returns an element that never was in the list")
				}
			}
			vv.Assert(n <= 1, "C17: a lookup returns an element twice")
			vv.Assert(n == 1 || removed(id), "C17: a lookup misses an element that is in the list all the time")
		}
		for i := range r {
			vv.Assert(vv.And(k.allKnown(r[i].Above), k.allKnown(r[i].Below)), "C17: a lookup returns neighbours that never were in the list")
		}
	}
	var err error
	switch op {
	case ccUpdate:
		_, err = l.UpdateElements(c, st, rankdb.Elements{k.nx}, 1, true)
	case ccSwap:
		_, err = l.UpdateElements(c, st, rankdb.Elements{k.nx, k.ny}, 1, true)
	case ccInsert:
		err = l.Insert(c, st, rankdb.Elements{k.fresh[who]})
	case ccDelete:
		err = l.DeleteElements(c, st, []rankdb.ElementID{k.x.ID})
	case ccDelete2:
		err = l.DeleteElements(c, st, []rankdb.ElementID{k.x.ID, k.y.ID})
	case ccGetAll:
		ids := make([]rankdb.ElementID, 0, 4)
		for i := range k.w.els {
			ids = append(ids, k.w.els[i].ID)
		}
		lookup(ids, 1)
	case ccGetOne:
		lookup([]rankdb.ElementID{k.x.ID}, 0)
	case ccScore:
		var r rankdb.RankedElements
		r, err = l.GetRankScoreDesc(c, st, k.score, 3)
		for i := range r {
			vv.Assert(k.known(r[i].Element), "C17: a score query returns an element that never was in the list")
		}
	case ccPercentile:
		var r *rankdb.RankedElement
		r, err = l.GetPercentile(c, st, 0.5, 1)
		if r != nil {
			vv.Assert(k.known(r.Element), "C17: a percentile query returns an element that never was in the list")
		}
	case ccTop:
		var r rankdb.Elements
		r, err = l.GetRankTop(c, st, 1, 2)
		if err == rankdb.ErrOffsetOutOfBounds {
			err = nil
		}
		vv.Assert(k.allKnown(r), "C17: a rank query returns an element that never was in the list")
	case ccStats:
		_, err = l.Stats(c, st, true)
	case ccSplit:
		err = l.ForceSplit(c, st)
	case ccRepair:
		err = l.Repair(c, st, false)
	case ccReindex:
		err = l.Reindex(c, st)
	case ccVerify:
		err = l.VerifyElements(c, st)
	case ccBackup:
		w := rankdb.NewWriterMsg()
		err = l.Backup(c, st, w)
		w.Close()
	case ccClone:
		var n *rankdb.List
		n, err = rankdb.NewList(c, rankdb.ListID("clone"), "other", st, rankdb.WithListOption.Clone(l), rankdb.WithListOption.MergeSplitSize(l.MergeSize, l.SplitSize))
		vv.Assert(err == nil, "C17: cloning fails because of a concurrent operation")
		r := read(st, n)
		vv.Assert(r.why == "", "C17: clone taken during an operation is broken: "+r.why)
		vv.Assert(r.ok, "C17: clone taken during an operation is not valid")
		vv.Assert(k.allKnown(r.els), "C17: a clone holds an element that never was in the list")
		for _, e := range k.w.els {
			n := 0
			for i := range r.els {
				if r.els[i].ID == e.ID {
					n++
				}
			}
			vv.Assert(n == 1 || n == 0 && removed(e.ID), "C17: a clone misses an element that is in the list all the time")
		}
	case ccRelease:
		l.ReleaseSegments(c)
	}
	vv.Assert(err == nil, "C17: an operation fails because of a concurrent one")
}

func (k *conc) apply(op, who int, els []rankdb.Element) []rankdb.Element {
	switch op {
	case ccUpdate:
		return append(without(els, k.nx.ID), k.nx)
	case ccSwap:
		return append(without(els, k.nx.ID, k.ny.ID), k.nx, k.ny)
	case ccInsert:
		return append(without(els), k.fresh[who])
	case ccDelete:
		return without(els, k.x.ID)
	case ccDelete2:
		return without(els, k.x.ID, k.y.ID)
	}
	return els
}

func (k *conc) removes(op int) []rankdb.ElementID {
	switch op {
	case ccDelete:
		return []rankdb.ElementID{k.x.ID}
	case ccDelete2:
		return []rankdb.ElementID{k.x.ID, k.y.ID}
	}
	return nil
}

func sameSet(a, b []rankdb.Element) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range b {
		hit := false
		for j := range a {
			hit = vv.Or(hit, vvlib.Same(a[j], b[i]))
		}
		r = vv.And(r, hit)
	}
	return r
}

func changed(name string, e rankdb.Element, tag byte) rankdb.Element {
	n := vvlib.ElemP(name, tag)
	vv.Assume(vv.And(n.ID == e.ID, n.Updated != 0, n.Updated != math.MaxUint32))
	n.ID = e.ID
	return n
}

func concur(a, b int, lo layout, warm bool, second bool, sched int) {
	runs := 1
	if !vv.Symbolic() {
		runs = 8
		if sched > 0 {
			runs = 200
		}
	}
	plainShape = true
	st := newStore()
	w := build("a", st, lo, 2000, 500)
	for i := range w.els {
		id := rankdb.ElementID(100 - 10*i)
		vv.Assume(w.els[i].ID == id)
		w.els[i].ID = id
	}
	k := &conc{w: w, x: w.els[0], y: w.els[len(w.els)-1]}
	if vv.Tier() == 1 && vv.Choose("x", 2) == 1 {
		k.x, k.y = k.y, k.x
	}
	k.nx, k.ny = changed("nx", k.x, 50), changed("ny", k.y, 51)
	for i := range k.fresh {
		k.fresh[i] = changed([]string{"f0", "f1"}[i], rankdb.Element{ID: rankdb.ElementID(7 + i)}, byte(60+i))
	}
	k.score = vv.U64("score")
	g0 := vv.Int("gate0", 0, gateNone)
	g1 := gateNone
	if second {
		g1 = vv.Int("gate1", 0, gateNone)
	}
	g2 := vv.Int("gate2", 0, gateNone)
	blobs := st.snapshot()
	scores, index := w.l.Scores, w.l.Index
	for r := 0; r < runs; r++ {
		st := newStore()
		for _, b := range blobs {
			st.put(b.set, b.key, b.val)
		}
		st.classes = w.st.classes
		l := &rankdb.List{ID: "a", Set: set, SplitSize: w.l.SplitSize, MergeSize: w.l.MergeSize, Scores: scores, Index: index}
		var cache *mapCache
		if warm {
			w2 := &world{st: st, l: l, els: w.els}
			w2.warm()
			l, cache = w2.l, w2.cache
		}
		p := &pacer{st: st, gates: [3]int{g0, g1, g2}, go1: make(chan struct{})}
		st.onCtx = p.access
		if warm {
			cache.on = p.cached
		}
		vv.Schedules(sched)
		done := make(chan struct{}, 2)
		go func() {
			<-p.go1
			k.perform(b, 1, l, st, k.removes(a))
			done <- struct{}{}
		}()
		go func() {
			k.perform(a, 0, l, st, k.removes(b))
			st.mu.Lock()
			p.start1()
			st.mu.Unlock()
			done <- struct{}{}
		}()
		limit := time.After(200 * pace)
		for i := 0; i < 2; i++ {
			select {
			case <-done:
			case <-limit:
				vv.Fail("C17: concurrent operations block each other for ever")
			}
		}
		vv.SchedOff(1)
		if warm {
			cache.on = nil
		}
		got := read(st, l)
		vv.Assert(got.why == "", "C17: list is broken after concurrent operations: "+got.why)
		vv.Assert(got.ok, "C17: list is not valid after concurrent operations")
		ab := k.apply(b, 1, k.apply(a, 0, w.els))
		ba := k.apply(a, 0, k.apply(b, 1, w.els))
		vv.Assert(vv.Or(sameSet(got.els, ab), sameSet(got.els, ba)), "C17: after two operations the list is not the result of either order")
		agree(l, st, got.els, "C17")
	}
	vv.Cover("both done")
}

// VH_C17_change: a change against every operation, one stop in each.
func VH_C17_change() {
	a := vv.Choose("a", 5)
	b := vv.Choose("b", nOps)
	concur(a, b, lay([]int{1, 1}, 1, 1), false, false, 0)
}

// VH_C17_read: a reader or maintenance operation that is overtaken by a change, with two stops in lookups (which work on
// several segments at a time) and, in the thorough tier, in all.
func VH_C17_read() {
	a := ccGetAll + vv.Choose("a", nOps-ccGetAll)
	b := vv.Choose("b", 5)
	concur(a, b, lay([]int{1, 1}, 1, 1), false, a == ccGetAll || vv.Tier() == 1, 0)
}

// VH_C17_cached: as above with all elements in the cache; the stops are at accesses to the cache as well.
func VH_C17_cached() {
	as, bs := []int{ccSwap, ccDelete2, ccGetAll, ccScore, ccPercentile, ccTop}, []int{ccUpdate, ccSwap, ccDelete2}
	if vv.Tier() == 1 {
		as = []int{ccUpdate, ccSwap, ccInsert, ccDelete, ccDelete2, ccGetAll, ccGetOne, ccScore, ccPercentile, ccTop, ccStats}
		bs = as[:5]
	}
	concur(as[vv.Choose("a", len(as))], bs[vv.Choose("b", len(bs))], lay([]int{1, 1}, 1, 1), true, false, 0)
}

// VH_C17_wider: three segments, the one in the middle empty (thorough tier).
func VH_C17_wider() {
	if vv.Tier() == 0 {
		return
	}
	as, bs := []int{ccGetAll, ccScore, ccPercentile, ccTop, ccStats, ccClone}, []int{ccUpdate, ccSwap, ccDelete}
	concur(as[vv.Choose("a", len(as))], bs[vv.Choose("b", len(bs))], lay([]int{1, 0, 2}, 2, 1), false, false, 0)
}
