package main

import (
	"fmt"
	"go/types"
	"sort"
)

type gor struct {
	id      int
	wake    chan struct{}
	ready   func() bool // nil: runnable
	why     string
	done    bool
	depth   int
	lastRun int
	fr      *frame
	vc      vclock
	untracked bool // accesses are not checked for races
	spin    int // scheduling points passed without blocking
}

type killed struct{}

func (p *path) newGor() *gor {
	g := &gor{id: len(p.gors), wake: make(chan struct{}, 1)}
	p.stampCtr++
	g.lastRun = p.stampCtr
	p.gors = append(p.gors, g)
	if p.race != nil {
		g.tick()
	}
	return g
}

func (p *path) spawn(fr *frame, fn value, args []value) {
	if len(p.gors) > 200 {
		if p.hangIsViolation {
			panic(stepLimit{"more than 200 goroutines started"})
		}
		panic(unsupported{"too many goroutines"})
	}
	g := p.newGor()
	p.joinVC(g, p.stamp(fr.g))
	p.live.Add(1)
	go func() {
		defer p.live.Done()
		<-g.wake
		if p.dead {
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if p.dead {
				return
			}
			if r != nil {
				if _, ok := r.(goexit); !ok {
					p.abort = r
					p.abortFr = g.fr
					p.dead = true
					p.gors[0].wake <- struct{}{}
					return
				}
			}
			p.dispatch(g)
		}()
		base := &frame{p: p, g: g, c: &cfn{name: "go"}}
		g.fr = base
		if b, ok := fn.(interface{ Name() string }); ok && fmt.Sprintf("%T", fn) == "*ssa.Builtin" {
			panic(unsupported{"go builtin " + b.Name()})
		}
		p.call(base, fn, args)
	}()
	p.schedPoint(fr)
}

func (p *path) candidates(except *gor) []*gor {
	var c []*gor
	for _, g := range p.gors {
		if g == except || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			c = append(c, g)
		}
	}
	sort.Slice(c, func(i, j int) bool { return c[i].lastRun < c[j].lastRun })
	return c
}

// schedPoint: a place where another goroutine may be scheduled.
func (p *path) schedPoint(fr *frame) {
	if fr.g != nil && p.initDepth == 0 && len(p.gors) > 1 {
		fr.g.spin++
		if fr.g.spin > 1000 {
			// Fairness: a goroutine that polls does not keep the others, or time, from advancing.
			fr.g.spin = 0
			c := p.candidates(fr.g)
			if len(c) == 0 && p.fireTimer() {
				c = p.candidates(fr.g)
			}
			if len(c) > 0 {
				p.switchTo(fr.g, c[0])
			}
			return
		}
	}
	if p.schedBudget <= 0 || p.initDepth > 0 || p.schedOff {
		return
	}
	g := fr.g
	c := p.candidates(g)
	if len(c) == 0 {
		return
	}
	p.w.eng.addSched()
	k := p.choose("sched", len(c)+1)
	if k == 0 {
		return
	}
	p.schedBudget--
	p.switchTo(g, c[k-1])
}

func (p *path) switchTo(g, n *gor) {
	p.stampCtr++
	g.lastRun = p.stampCtr
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(killed{})
	}
	g.ready = nil
}

// pick selects the next goroutine when the current one cannot continue.
func (p *path) pick(g *gor) *gor {
	for {
		c := p.candidates(nil)
		if len(c) > 0 {
			if len(c) > 1 && p.schedBudget > 0 && !p.schedOff {
				p.w.eng.addSched()
				k := p.choose("sched", len(c))
				if k > 0 {
					p.schedBudget--
				}
				return c[k]
			}
			return c[0]
		}
		if !p.fireTimer() {
			return nil
		}
	}
}

// dispatch hands control to another goroutine after g ended.
func (p *path) dispatch(g *gor) {
	defer func() {
		if r := recover(); r != nil {
			p.abort = r
			p.dead = true
			p.gors[0].wake <- struct{}{}
		}
	}()
	n := p.pick(g)
	if n == nil {
		p.abort = deadlock{p.blockedDesc()}
		p.dead = true
		p.gors[0].wake <- struct{}{}
		return
	}
	n.wake <- struct{}{}
}

type deadlock struct{ desc string }

func (p *path) blockedDesc() string {
	s := ""
	for _, g := range p.gors {
		if !g.done && g.ready != nil {
			s += fmt.Sprintf("goroutine %d: %s; ", g.id, g.why)
		}
	}
	return s
}

// block suspends the current goroutine until ready() holds.
func (p *path) block(fr *frame, why string, ready func() bool) {
	g := fr.g
	if ready() {
		return
	}
	g.spin = 0
	if p.mergeDepth > 0 {
		panic(mergeFail{})
	}
	g.why = why + " at " + fr.callerWhere()
	g.ready = ready
	n := p.pick(g)
	if n == nil {
		panic(deadlock{p.blockedDesc()})
	}
	if n == g {
		g.ready = nil
		return
	}
	p.stampCtr++
	g.lastRun = p.stampCtr
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(killed{})
	}
	g.ready = nil
}

func (fr *frame) callerWhere() string {
	for f := fr; f != nil; f = f.caller {
		if f.curIn != nil && f.c != nil && f.c.fn != nil && f.c.fn.Pkg != nil && isRepoPkg(f.c.fn.Pkg.Pkg.Path()) {
			return f.where()
		}
		if f.c != nil && f.c.fn != nil && f.c.fn.Parent() != nil && f.curIn != nil {
			return f.where()
		}
	}
	return fr.where()
}

// yieldAll lets every other goroutine run until all are blocked or done.
func (p *path) drain(fr *frame) {
	g := fr.g
	for i := 0; i < 10000; i++ {
		c := p.candidates(g)
		if len(c) == 0 {
			return
		}
		p.switchTo(g, c[0])
	}
}

// ---- virtual time ----

type vtimer struct {
	when   int64
	seq    int
	period int64
	fire   func()
	live   bool
	fired  int
	vc     vclock
}

func (p *path) addTimer(d int64, period int64, fire func()) *vtimer {
	if d < 0 {
		d = 0
	}
	p.timerSeq++
	t := &vtimer{when: p.now + d, seq: p.timerSeq, period: period, fire: fire, live: true}
	p.timers = append(p.timers, t)
	return t
}

func (p *path) fireTimer() bool {
	var best *vtimer
	k := 0
	for _, t := range p.timers {
		if !t.live {
			continue
		}
		p.timers[k] = t
		k++
		if best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq {
			best = t
		}
	}
	p.timers = p.timers[:k]
	if best == nil {
		return false
	}
	if best.when > p.now {
		p.now = best.when
	}
	best.fired++
	p.timerFires++
	if p.timerFires > 2000 {
		panic(stepLimit{"timers fire forever; goroutines stay blocked: " + p.blockedDesc()})
	}
	if best.period > 0 {
		best.when += best.period
		p.timerSeq++
		best.seq = p.timerSeq
		if best.fired > 200 {
			best.live = false
		}
	} else {
		best.live = false
	}
	best.fire()
	return true
}

// ---- channels ----

type symChan struct {
	cap    int
	buf    []value
	closed bool
	et     types.Type
	sendq  []*chanWait
	recvq  []*chanWait
	// clocks, for race detection: of the buffered messages, of the slots freed, of the closer
	bvc, freed []vclock
	sent       int
	taken      int
	closeVC    vclock
}

type chanWait struct {
	v    value
	ok   bool
	done bool
	sel  *selState
	idx  int
	vc   vclock // of the waiting goroutine
	peer vclock // of the goroutine that completed the wait
}

type selState struct {
	done bool
	idx  int
	v    value
	ok   bool
	peer vclock
}

func (p *path) newChan(n int, et types.Type) *symChan { return &symChan{cap: n, et: et} }

func popWait(q *[]*chanWait) *chanWait {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func (w *chanWait) complete(v value, ok bool, peer vclock) {
	w.done = true
	w.v, w.ok = v, ok
	w.peer = peer
	if w.sel != nil {
		w.sel.done = true
		w.sel.idx = w.idx
		w.sel.v, w.sel.ok = v, ok
		w.sel.peer = peer
	}
}

// trySend attempts a non-blocking send.
func (p *path) trySend(fr *frame, c *symChan, v value) bool {
	if c.closed {
		panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "send on closed channel"}, rt: true, where: fr.where()})
	}
	if w := popWait(&c.recvq); w != nil {
		if c.cap == 0 {
			p.joinVC(fr.g, w.vc)
		}
		w.complete(v, true, p.stamp(fr.g))
		return true
	}
	if len(c.buf) < c.cap {
		c.push(p, fr.g, v)
		return true
	}
	return false
}

// push and pop keep the clocks of a buffered channel: the n-th receive happens before the send that reuses its slot.
func (c *symChan) push(p *path, g *gor, v value) {
	c.buf = append(c.buf, v)
	if p.race == nil {
		return
	}
	for len(c.freed) < c.cap {
		c.freed = append(c.freed, nil)
	}
	p.joinVC(g, c.freed[c.sent%c.cap])
	c.sent++
	for len(c.bvc) < len(c.buf)-1 {
		c.bvc = append(c.bvc, nil)
	}
	c.bvc = append(c.bvc, p.stamp(g))
}

func (c *symChan) pop(p *path, g *gor) value {
	v := c.buf[0]
	c.buf = c.buf[1:]
	if len(c.bvc) > 0 {
		p.joinVC(g, c.bvc[0])
		c.bvc = c.bvc[1:]
	}
	if p.race != nil && len(c.freed) > 0 {
		c.freed[c.taken%len(c.freed)] = p.stamp(g)
		c.taken++
	}
	return v
}

func (p *path) tryRecv(g *gor, c *symChan) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.pop(p, g)
		if w := popWait(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			if p.race != nil {
				c.bvc = append(c.bvc, w.vc)
				c.sent++
			}
			sv := w.v
			w.complete(sv, true, p.stamp(g))
		}
		return v, true, true
	}
	if w := popWait(&c.sendq); w != nil {
		v := w.v
		p.joinVC(g, w.vc)
		w.complete(v, true, p.stamp(g))
		return v, true, true
	}
	if c.closed {
		p.joinVC(g, c.closeVC)
		return nil, false, true
	}
	return nil, false, false
}

func (p *path) chanSend(fr *frame, c *symChan, v value) {
	p.schedPoint(fr)
	v = copyVal(v)
	if c == nil {
		p.block(fr, "send on nil channel", func() bool { return false })
	}
	if p.trySend(fr, c, v) {
		return
	}
	w := &chanWait{v: v, vc: p.stamp(fr.g)}
	c.sendq = append(c.sendq, w)
	p.block(fr, "channel send", func() bool { return w.done || c.closed })
	if !w.done {
		panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "send on closed channel"}, rt: true, where: fr.where()})
	}
	p.joinVC(fr.g, w.peer)
}

func (p *path) chanRecv(fr *frame, c *symChan) (value, bool) {
	p.schedPoint(fr)
	if c == nil {
		p.block(fr, "receive from nil channel", func() bool { return false })
	}
	if v, ok, done := p.tryRecv(fr.g, c); done {
		return v, ok
	}
	w := &chanWait{vc: p.stamp(fr.g)}
	c.recvq = append(c.recvq, w)
	p.block(fr, "channel receive", func() bool { return w.done })
	p.joinVC(fr.g, w.peer)
	return w.v, w.ok
}

func (p *path) chanClose(fr *frame, c *symChan) {
	p.schedPoint(fr)
	if c == nil {
		panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "close of nil channel"}, rt: true, where: fr.where()})
	}
	if c.closed {
		panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "close of closed channel"}, rt: true, where: fr.where()})
	}
	c.closed = true
	c.closeVC = p.stamp(fr.g)
	for {
		w := popWait(&c.recvq)
		if w == nil {
			break
		}
		w.complete(nil, false, c.closeVC)
	}
}

type selCase struct {
	ch   *symChan
	send bool
	v    value
}

func (p *path) selectOp(fr *frame, cases []selCase, blocking bool) (int, value, bool) {
	p.schedPoint(fr)
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap || hasWait(c.ch.recvq) {
					r = append(r, i)
				}
			} else if len(c.ch.buf) > 0 || c.ch.closed || hasWait(c.ch.sendq) {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	if len(r) > 0 {
		k := 0
		if len(r) > 1 && (p.schedBudget > 0 || p.selectAll) && !p.schedOff {
			k = p.choose("select", len(r))
		}
		i := r[k]
		c := cases[i]
		if c.send {
			p.trySend(fr, c.ch, copyVal(c.v))
			return i, nil, false
		}
		v, ok, _ := p.tryRecv(fr.g, c.ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	svc := p.stamp(fr.g)
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &chanWait{sel: st, idx: i, vc: svc}
		if c.send {
			w.v = copyVal(c.v)
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	closedSend := func() bool {
		for _, c := range cases {
			if c.ch != nil && c.send && c.ch.closed {
				return true
			}
		}
		return false
	}
	p.block(fr, "select", func() bool { return st.done || closedSend() })
	if !st.done {
		panic(targetPanic{v: iface{t: p.w.prog.rtErrT, v: "send on closed channel"}, rt: true, where: fr.where()})
	}
	p.joinVC(fr.g, st.peer)
	if cases[st.idx].send {
		return st.idx, nil, false
	}
	return st.idx, st.v, st.ok
}

func hasWait(q []*chanWait) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}

// ---- locks ----

type lockState struct {
	writer  bool
	readers int
	pending int // writers announced
	rq      []*chanWait
	owner   int
}

func (p *path) lockOf(addr *value) *lockState {
	l := p.locks[addr]
	if l == nil {
		l = &lockState{}
		p.locks[addr] = l
	}
	return l
}

func (p *path) mutexLock(fr *frame, a *value) {
	p.schedPoint(fr)
	l := p.lockOf(a)
	l.pending++
	if l.writer || l.readers > 0 {
		p.block(fr, "Lock", func() bool { return !l.writer && l.readers == 0 })
	}
	l.pending--
	l.writer = true
	l.owner = fr.g.id
	p.acquire(fr.g, syncKey{a, "w"})
	p.acquire(fr.g, syncKey{a, "r"})
}

func (p *path) mutexTryLock(fr *frame, a *value) bool {
	p.schedPoint(fr)
	l := p.lockOf(a)
	if l.writer || l.readers > 0 || l.pending > 0 {
		return false
	}
	p.acquire(fr.g, syncKey{a, "w"})
	p.acquire(fr.g, syncKey{a, "r"})
	l.writer = true
	return true
}

func (p *path) mutexUnlock(fr *frame, a *value, rw bool) {
	l := p.lockOf(a)
	if !l.writer {
		if rw {
			panic(fatalErr{"sync: Unlock of unlocked RWMutex at " + fr.callerWhere()})
		}
		panic(fatalErr{"sync: unlock of unlocked mutex at " + fr.callerWhere()})
	}
	l.writer = false
	p.release(fr.g, syncKey{a, "w"})
	for _, w := range l.rq {
		if !w.done {
			w.done = true
			l.readers++
		}
	}
	l.rq = nil
	p.schedPoint(fr)
}

func (p *path) rLock(fr *frame, a *value) {
	p.schedPoint(fr)
	l := p.lockOf(a)
	if !l.writer && l.pending == 0 {
		l.readers++
		p.acquire(fr.g, syncKey{a, "w"})
		return
	}
	w := &chanWait{}
	l.rq = append(l.rq, w)
	p.block(fr, "RLock", func() bool { return w.done })
	p.acquire(fr.g, syncKey{a, "w"})
}

func (p *path) tryRLock(fr *frame, a *value) bool {
	p.schedPoint(fr)
	l := p.lockOf(a)
	if l.writer || l.pending > 0 {
		return false
	}
	l.readers++
	p.acquire(fr.g, syncKey{a, "w"})
	return true
}

func (p *path) rUnlock(fr *frame, a *value) {
	l := p.lockOf(a)
	if l.readers <= 0 {
		panic(fatalErr{"sync: RUnlock of unlocked RWMutex at " + fr.callerWhere()})
	}
	l.readers--
	p.release(fr.g, syncKey{a, "r"})
	p.schedPoint(fr)
}
