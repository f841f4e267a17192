package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	kind byte // 'b' branch, 'c' choose, 'v' concretize
	at   int32 // step count, to detect diverging replays
	val  uint64
}

type node struct {
	prefix []dec
	model  Model
}

type violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Stack  string            `json:"stack,omitempty"`
	Inputs map[string]uint64 `json:"inputs"`
	Sched  bool              `json:"schedule_dependent"`
	Notes  []string          `json:"notes,omitempty"`
	Entry  string            `json:"entry"`
	Prefix []dec             `json:"-"`
	Model  Model             `json:"-"`
}

type path struct {
	w          *worker
	prefix     []dec
	trace      []dec
	pos        int
	pc         []*Term
	lits       map[*Term]bool
	model      Model
	vars       []*Term
	drawn      map[string]int
	inputs     []inputRec
	globals    map[*ssa.Global]*value
	concMax    int
	guardLimit uint64
	guardMsg   string
	inited     map[*ssa.Package]int8
	initDepth  int
	steps      int
	maxSteps   int
	mergeDepth int
	allocLimit int

	gors        []*gor
	stampCtr    int
	live        sync.WaitGroup
	dead        bool
	abort       interface{}
	abortFr     *frame
	schedBudget int
	schedUsed   bool
	schedOff    bool
	selectAll   bool
	mapOrder    int
	now         int64
	timers      []*vtimer
	timerSeq    int
	timerFires  int
	locks       map[*value]*lockState
	side        map[interface{}]interface{}
	race        *raceState
	observed    []obsRec
	notes       []string
	covers      map[string]bool
	sat         bool
	lastRecovered targetPanic
	forced      bool
	randCtr     uint64
	hangIsViolation bool
	asserts     int
}

type inputRec struct {
	key  string
	term *Term
	val  uint64 // for choices
}

type obsRec struct {
	name string
	v    []value
}

type stats struct {
	funcs map[*ssa.Function]int
}

type worker struct {
	id      int
	eng     *engine
	prog    *program
	tt      *TermTable
	sol     *Solver
	fns     map[*ssa.Function]*cfn
	meths   map[methKey]*ssa.Function
	impls   map[implKey]bool
	grow    map[growKey]int
	stats   stats
	noMerge bool
	cur     *path
}

type engine struct {
	prog     *program
	entry    *ssa.Function
	name     string
	opts     options
	mu       sync.Mutex
	cond     *sync.Cond
	queues   [][]node
	busy     int
	stop     bool
	deadline time.Time
	timedOut bool

	paths, complete, assumeCut, asserts int64
	branches, schedPts                  int64
	unknowns                            int64
	cuts                                map[string]int
	unsup                               map[string]int
	covers                              map[string]int
	viols                               []violation
	violKeys                            map[string]bool
	samples                             []sample
	funcs                               map[string]int
	queries                             int
	solverTime                          time.Duration
	steps                               int64
	maxPC                               int
}

type sample struct {
	Inputs   map[string]uint64   `json:"inputs"`
	Observed map[string][]uint64 `json:"observed"`
	Order    []string            `json:"order"`
}

type options struct {
	Workers    int
	Budget     time.Duration
	MaxSteps   int
	AllocLimit int
	SolverMs   int
	MaxViol    int
	Samples    int
	Tier       string
	Races      bool // as if every entry called vv.Races
	Z3         string
	Entries    []string
}

func (e *engine) addCut(why string) {
	e.mu.Lock()
	e.cuts[why]++
	e.mu.Unlock()
}
func (e *engine) addSched() { atomic.AddInt64(&e.schedPts, 1) }

func (e *engine) addUnsup(why string) {
	e.mu.Lock()
	e.unsup[why]++
	e.mu.Unlock()
}

func newWorker(e *engine, id int) *worker {
	w := &worker{id: id, eng: e, prog: e.prog}
	w.reset()
	return w
}

func (w *worker) reset() {
	if w.sol != nil {
		w.eng.mu.Lock()
		w.eng.queries += w.sol.Queries
		w.eng.solverTime += w.sol.Time
		w.eng.mu.Unlock()
		w.sol.Close()
	}
	w.flushStats()
	w.tt = NewTermTable()
	var err error
	w.sol, err = NewSolver(w.tt, w.eng.opts.Z3, w.eng.opts.SolverMs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	w.fns = map[*ssa.Function]*cfn{}
	w.meths = map[methKey]*ssa.Function{}
	w.impls = map[implKey]bool{}
	w.grow = map[growKey]int{}
	w.stats = stats{funcs: map[*ssa.Function]int{}}
}

func (w *worker) flushStats() {
	w.eng.mu.Lock()
	for f, n := range w.stats.funcs {
		if f.Pkg != nil && isRepoPkg(f.Pkg.Pkg.Path()) {
			w.eng.funcs[f.String()] += n
		}
	}
	w.eng.mu.Unlock()
}

// explore runs the whole search for one entry.
func (e *engine) explore() {
	e.cond = sync.NewCond(&e.mu)
	e.queues = make([][]node, e.opts.Workers)
	e.queues[0] = []node{{nil, Model{}}}
	e.deadline = time.Now().Add(e.opts.Budget)
	tm := time.AfterFunc(e.opts.Budget, func() {
		e.mu.Lock()
		if !e.stop {
			e.stop = true
			e.timedOut = true
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	defer tm.Stop()
	var wg sync.WaitGroup
	for i := 0; i < e.opts.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *worker
			for {
				n, ok := e.take(i)
				if !ok {
					break
				}
				if w == nil {
					w = newWorker(e, i)
				}
				if w.tt.all > 3000000 {
					w.reset()
				}
				w.runPath(n)
				e.mu.Lock()
				e.busy--
				e.cond.Broadcast()
				e.mu.Unlock()
			}
			if w != nil {
				w.flushStats()
				e.mu.Lock()
				e.queries += w.sol.Queries
				e.solverTime += w.sol.Time
				e.mu.Unlock()
				w.sol.Close()
			}
		}(i)
	}
	wg.Wait()
}

func (e *engine) take(i int) (node, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return node{}, false
		}
		if q := e.queues[i]; len(q) > 0 {
			n := q[len(q)-1]
			e.queues[i] = q[:len(q)-1]
			e.busy++
			return n, true
		}
		// steal the oldest from the longest queue
		best := -1
		for j, q := range e.queues {
			if len(q) > 0 && (best < 0 || len(q) > len(e.queues[best])) {
				best = j
			}
		}
		if best >= 0 {
			n := e.queues[best][0]
			e.queues[best] = e.queues[best][1:]
			e.busy++
			return n, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return node{}, false
		}
		e.cond.Wait()
	}
}

func (p *path) push(d dec, m Model) {
	pf := make([]dec, len(p.trace)+1)
	copy(pf, p.trace)
	pf[len(p.trace)] = d
	e := p.w.eng
	e.mu.Lock()
	e.queues[p.w.id] = append(e.queues[p.w.id], node{pf, m})
	if e.busy < e.opts.Workers {
		e.cond.Signal()
	}
	e.mu.Unlock()
}

func (p *path) addLit(t *Term, v bool) {
	tt := p.w.tt
	if t.isConst() {
		return
	}
	if _, ok := p.lits[t]; ok {
		return
	}
	p.lits[t] = v
	n := tt.Not(t)
	p.lits[n] = !v
	switch {
	case t.op == OAnd && v:
		p.addLit(t.a, true)
		p.addLit(t.b, true)
	case t.op == OOr && !v:
		p.addLit(t.a, false)
		p.addLit(t.b, false)
	case t.op == ONot:
		p.addLit(t.a, !v)
	case (t.op == OULt && v):
		p.addLit(tt.ULe(t.a, t.b), true)
		p.addLit(tt.Eq(t.a, t.b), false)
	case t.op == OULe && !v: // b < a
		p.addLit(tt.Eq(t.a, t.b), false)
		p.addLit(tt.ULe(t.b, t.a), true)
	case t.op == OEq && v && t.a.w > 0:
		p.addLit(tt.ULt(t.a, t.b), false)
		p.addLit(tt.ULt(t.b, t.a), false)
	}
}

func (p *path) assumeTerm(t *Term) {
	if t.isConst() {
		return
	}
	p.pc = append(p.pc, t)
	p.addLit(t, true)
}

func (p *path) eval(t *Term) uint64 {
	p.w.tt.NewModel()
	return p.w.tt.Eval(t, p.model)
}

func (p *path) replaying() bool { return p.pos < len(p.prefix) }

func (p *path) next(kind byte) uint64 {
	d := p.prefix[p.pos]
	if d.kind != kind || d.at != int32(p.steps) {
		panic(unsupported{fmt.Sprintf("replay divergence: want %c have %c (step %d, was %d)", kind, d.kind, p.steps, d.at)})
	}
	p.pos++
	p.trace = append(p.trace, d)
	return d.val
}

func (p *path) checkStop() {
	if p.w.eng.stop {
		panic(pathEnd{"stop"})
	}
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *path) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if v, ok := p.lits[c]; ok {
		return v
	}
	if p.mergeDepth > 0 {
		panic(mergeFail{})
	}
	tt := p.w.tt
	if p.replaying() {
		v := p.next('b')
		take := v&1 == 1
		if v&2 == 0 { // not forced
			if take {
				p.assumeTerm(c)
			} else {
				p.assumeTerm(tt.Not(c))
			}
		} else {
			p.addLit(c, take)
		}
		return take
	}
	p.checkStop()
	atomic.AddInt64(&p.w.eng.branches, 1)
	take := p.eval(c) == 1
	other := c
	if take {
		other = tt.Not(c)
	}
	res, m := p.w.sol.Check(p.pc, other, p.vars)
	switch res {
	case Sat:
		d := dec{'b', int32(p.steps), b2u(!take)}
		p.push(d, m)
		p.trace = append(p.trace, dec{'b', int32(p.steps), b2u(take)})
		p.pos = len(p.prefix)
		if take {
			p.assumeTerm(c)
		} else {
			p.assumeTerm(tt.Not(c))
		}
	case Unsat:
		p.trace = append(p.trace, dec{'b', int32(p.steps), b2u(take) | 2})
		p.addLit(c, take)
	default:
		atomic.AddInt64(&p.w.eng.unknowns, 1)
		p.trace = append(p.trace, dec{'b', int32(p.steps), b2u(take)})
		if take {
			p.assumeTerm(c)
		} else {
			p.assumeTerm(tt.Not(c))
		}
	}
	return take
}

func (p *path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if p.mergeDepth > 0 {
		panic(mergeFail{})
	}
	var v int
	if p.replaying() {
		v = int(p.next('c'))
	} else {
		p.checkStop()
		for i := n - 1; i > 0; i-- {
			p.push(dec{'c', int32(p.steps), uint64(i)}, p.model)
		}
		p.trace = append(p.trace, dec{'c', int32(p.steps), 0})
	}
	if name == "sched" || name == "select" {
		if v != 0 {
			p.schedUsed = true
		}
	}
	p.recordInput(name, nil, uint64(v))
	return v
}

func (p *path) recordInput(name string, t *Term, v uint64) string {
	k := p.drawn[name]
	p.drawn[name] = k + 1
	key := fmt.Sprintf("%s#%d", name, k)
	p.inputs = append(p.inputs, inputRec{key, t, v})
	return key
}

func (p *path) draw(name string, w uint16) *Term {
	k := p.drawn[name]
	p.drawn[name] = k + 1
	key := fmt.Sprintf("%s#%d", name, k)
	t := p.w.tt.Var(key, w)
	p.vars = append(p.vars, t)
	p.inputs = append(p.inputs, inputRec{key, t, 0})
	return t
}

const concLimit = 70

func (p *path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if p.mergeDepth > 0 {
		panic(mergeFail{})
	}
	tt := p.w.tt
	if p.replaying() {
		v := p.next('v')
		p.assumeTerm(tt.Eq(t, tt.Const(t.w, v)))
		return v
	}
	p.checkStop()
	v := p.eval(t)
	cond := tt.Not(tt.Eq(t, tt.Const(t.w, v)))
	n := 0
	for {
		res, m := p.w.sol.Check(p.pc, cond, p.vars)
		if res == Unsat {
			break
		}
		if res == UnknownRes {
			atomic.AddInt64(&p.w.eng.unknowns, 1)
			break
		}
		tt.NewModel()
		o := tt.Eval(t, m)
		tt.NewModel()
		p.push(dec{'v', int32(p.steps), o}, m)
		cond = tt.And(cond, tt.Not(tt.Eq(t, tt.Const(t.w, o))))
		n++
		if n > concLimit && n > p.concMax {
			if os.Getenv("VENGINE_DEBUG") != "" {
				debug.PrintStack()
			}
			p.w.eng.addCut("concretisation limit")
			break
		}
	}
	p.trace = append(p.trace, dec{'v', int32(p.steps), v})
	p.assumeTerm(tt.Eq(t, tt.Const(t.w, v)))
	return v
}

func (p *path) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if v, ok := p.lits[c]; ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if p.replaying() {
		p.assumeTerm(c)
		return
	}
	if p.eval(c) == 1 {
		p.assumeTerm(c)
		return
	}
	res, m := p.w.sol.Check(p.pc, c, p.vars)
	switch res {
	case Sat:
		p.model = m
		p.assumeTerm(c)
	case Unsat:
		panic(pathEnd{"assume"})
	default:
		atomic.AddInt64(&p.w.eng.unknowns, 1)
		panic(pathEnd{"unknown"})
	}
}

func (p *path) assertTerm(fr *frame, c *Term, msg string) {
	p.asserts++
	if c.isTrue() {
		if !p.replaying() {
			atomic.AddInt64(&p.w.eng.asserts, 1)
		}
		return
	}
	if v, ok := p.lits[c]; ok && v {
		if !p.replaying() {
			atomic.AddInt64(&p.w.eng.asserts, 1)
		}
		return
	}
	if p.replaying() {
		// decided before by the parent path
		p.addLit(c, true)
		return
	}
	atomic.AddInt64(&p.w.eng.asserts, 1)
	tt := p.w.tt
	n := tt.Not(c)
	if p.eval(n) == 1 {
		p.violate("assert", msg, fr)
	}
	res, m := p.w.sol.Check(p.pc, n, p.vars)
	switch res {
	case Sat:
		p.model = m
		p.violate("assert", msg, fr)
	case UnknownRes:
		atomic.AddInt64(&p.w.eng.unknowns, 1)
		p.addLit(c, true)
	default:
		p.addLit(c, true)
	}
}

func (p *path) note(f string, a ...interface{}) {
	if len(p.notes) < 50 {
		p.notes = append(p.notes, fmt.Sprintf(f, a...))
	}
}

func (p *path) inputVals() map[string]uint64 {
	r := map[string]uint64{}
	p.w.tt.NewModel()
	for _, i := range p.inputs {
		if i.term != nil {
			r[i.key] = p.w.tt.Eval(i.term, p.model)
		} else {
			r[i.key] = i.val
		}
	}
	return r
}

type violated struct{}

func (p *path) violate(kind, msg string, fr *frame) {
	p.recordViolation(kind, msg, fr)
	panic(violated{})
}

func (p *path) recordViolation(kind, msg string, fr *frame) {
	e := p.w.eng
	v := violation{Kind: kind, Msg: msg, Inputs: p.inputVals(), Sched: p.schedUsed, Notes: p.notes, Entry: e.name}
	if fr != nil {
		v.Where = fr.where()
		v.Stack = fr.stack()
	}
	v.Prefix = append([]dec(nil), p.trace...)
	v.Model = p.model
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + msg
	n := 0
	for _, o := range e.viols {
		if o.Kind+"|"+o.Msg == key {
			n++
		}
	}
	if n < 4 {
		e.viols = append(e.viols, v)
	}
	if len(e.viols) >= e.opts.MaxViol {
		e.stop = true
		e.cond.Broadcast()
	}
}

func (w *worker) runPath(n node) {
	e := w.eng
	atomic.AddInt64(&e.paths, 1)
	p := &path{w: w, prefix: n.prefix, model: n.model, lits: map[*Term]bool{}, drawn: map[string]int{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int8{}, maxSteps: e.opts.MaxSteps,
		allocLimit: e.opts.AllocLimit, locks: map[*value]*lockState{}, side: map[interface{}]interface{}{}, covers: map[string]bool{}}
	if p.model == nil {
		p.model = Model{}
	}
	w.cur = p
	g := p.newGor()
	base := &frame{p: p, g: g, c: &cfn{name: "main"}}
	g.fr = base
	if e.opts.Races {
		p.races(base)
	}
	func() {
		defer func() {
			r := recover()
			p.dead = true
			for _, o := range p.gors[1:] {
				if !o.done {
					select {
					case o.wake <- struct{}{}:
					default:
					}
				}
			}
			p.live.Wait()
			if _, ok := r.(killed); ok && p.abort != nil {
				r = p.abort
			}
			w.finish(p, r)
		}()
		p.call(base, e.entry, nil)
	}()
	atomic.AddInt64(&e.steps, int64(p.steps))
	if len(p.pc) > e.maxPC {
		e.maxPC = len(p.pc)
	}
}

func (w *worker) finish(p *path, r interface{}) {
	e := w.eng
	switch r := r.(type) {
	case nil:
		atomic.AddInt64(&e.complete, 1)
		e.mu.Lock()
		for c := range p.covers {
			e.covers[c]++
		}
		want := len(e.samples) < e.opts.Samples && !p.schedUsed && (e.complete < 20 || e.complete%97 == 0)
		e.mu.Unlock()
		if want {
			p.sample()
		}
	case pathEnd:
		if r.why == "assume" {
			atomic.AddInt64(&e.assumeCut, 1)
		}
	case violated:
	case unsupported:
		e.addUnsup(r.why)
	case stepLimit:
		if p.hangIsViolation {
			p.recordViolation("hang", "no progress within the step bound", nil)
			e.mu.Lock()
			if n := len(e.viols); n > 0 && e.viols[n-1].Kind == "hang" {
				e.viols[n-1].Where = r.where
			}
			e.mu.Unlock()
		}
		e.addCut("step limit at " + r.where)
	case targetPanic:
		p.recordViolation("panic", "panic: "+p.panicText(r), nil)
		p.fixWhere("panic: "+p.panicText(r), r.where)
	case fatalErr:
		p.recordViolation("fatal", "fatal error: "+r.msg, nil)
	case deadlock:
		p.recordViolation("deadlock", "all goroutines are blocked forever: "+r.desc, nil)
	case dataRace:
		p.schedUsed = true
		p.recordViolation("race", r.desc, nil)
	case goexit:
		p.recordViolation("panic", "runtime.Goexit in main", nil)
	default:
		e.addUnsup(fmt.Sprintf("engine error: %v", r))
		if os.Getenv("VDEBUG") != "" {
			panic(r)
		}
	}
	w.cur = nil
}

func (p *path) fixWhere(msg, where string) {
	e := p.w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	if n := len(e.viols); n > 0 && e.viols[n-1].Msg == msg {
		e.viols[n-1].Where = where
	}
}

func (p *path) panicText(r targetPanic) string {
	if i, ok := r.v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(string); ok {
			return s
		}
		return types.TypeString(i.t, nil) + " " + p.valStr(i.v)
	}
	return fmt.Sprint(r.v)
}

func (p *path) sample() {
	s := sample{Inputs: p.inputVals(), Observed: map[string][]uint64{}}
	p.w.tt.NewModel()
	for _, o := range p.observed {
		var vals []uint64
		for _, v := range o.v {
			if t, ok := v.(*Term); ok {
				vals = append(vals, p.w.tt.Eval(t, p.model))
			}
		}
		s.Observed[o.name] = append(s.Observed[o.name], vals...)
	}
	e := p.w.eng
	e.mu.Lock()
	if len(e.samples) < e.opts.Samples {
		e.samples = append(e.samples, s)
	}
	e.mu.Unlock()
}

func (p *path) globalAddr(g *ssa.Global, fr *frame) *value {
	if a, ok := p.globals[g]; ok {
		return a
	}
	if g.Pkg != nil && p.inited[g.Pkg] == 0 {
		p.ensureInit(g.Pkg, fr)
		if a, ok := p.globals[g]; ok {
			return a
		}
	}
	a := new(value)
	*a = p.w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "strconv" && (g.Name() == "ErrRange" || g.Name() == "ErrSyntax") {
		*a = fr.errorsNew(g.Name())
	}
	if g.Name() == "Reader" && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
		if ip := p.w.prog.byPath["crypto/internal/rand"]; ip != nil && ip.Type("reader") != nil {
			t := ip.Type("reader").Type()
			*a = iface{t: t, v: p.w.zero(t)}
		}
	}
	p.globals[g] = a
	return a
}

func (p *path) ensureInit(pkg *ssa.Package, fr *frame) {
	if p.inited[pkg] != 0 {
		return
	}
	p.inited[pkg] = 1
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	p.w.prog.buildPkg(pkg)
	init := pkg.Func("init")
	if init == nil {
		return
	}
	p.initDepth++
	defer func() { p.initDepth-- }()
	g := fr.g
	base := &frame{p: p, g: g, caller: fr, c: &cfn{name: "init " + pkg.Pkg.Path()}}
	p.callSSA(base, init, nil, nil)
}
