package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, args []value) value

var intrinsics map[string]intrinsic
var pkgIntrinsic map[string]func(fn *ssa.Function) intrinsic

func (fr *frame) tt() *TermTable        { return fr.p.w.tt }
func (fr *frame) i64(n int) *Term       { return fr.p.w.tt.Const(64, uint64(int64(n))) }
func (fr *frame) boolT(b bool) *Term    { return fr.p.w.tt.Bool(b) }
func (fr *frame) u64(n uint64) *Term    { return fr.p.w.tt.Const(64, n) }
func nop(fr *frame, args []value) value { return nil }

func cint(v value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		panic(unsupported{"symbolic integer in intrinsic"})
	}
	return sx(t.val, t.w)
}

func cstr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *opaqueStr:
		return "?"
	}
	panic(unsupported{"symbolic string in intrinsic"})
}

func ptr(v value) *value {
	p, _ := v.(*value)
	return p
}

func (fr *frame) deref(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported{fmt.Sprintf("intrinsic deref of %T", v)})
	}
	if p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// field returns the address of field i of the struct pointed to.
func field(p *value, i int) *value { return &(*p).(structure)[i] }

func (fr *frame) errorsNew(s value) value {
	pkg := fr.p.w.prog.byPath["errors"]
	t := pkg.Type("errorString").Type()
	cell := new(value)
	*cell = structure{s}
	return iface{t: types.NewPointer(t), v: cell}
}

func (fr *frame) timeNow() value {
	p := fr.p
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	base := int64(1700000000)
	ns := p.now
	sec := base + ns/1e9
	nsec := ns % 1e9
	return structure{fr.u64(uint64(nsec)), fr.u64(uint64(sec + unixToInternal)), (*value)(nil)}
}

func (fr *frame) newTimerStruct(typ string, c value) *value {
	pkg := fr.p.w.prog.byPath["time"]
	t := pkg.Type(typ).Type()
	cell := new(value)
	*cell = fr.p.w.zero(t)
	(*cell).(structure)[0] = c
	return cell
}

func (p *path) timerOf(c *value) *vtimer {
	t, _ := p.side[c].(*vtimer)
	return t
}

type wgState struct{ n int64 }

func (p *path) wg(a *value) *wgState {
	s, _ := p.side[a].(*wgState)
	if s == nil {
		s = &wgState{}
		p.side[a] = s
	}
	return s
}

type onceState struct{ done, running bool }
type poolState struct{ items []value }
type condState struct{ waiters []*chanWait }

func (p *path) smap(a *value) *symMap {
	s, _ := p.side[a].(*symMap)
	if s == nil {
		s = &symMap{idx: map[string]int{}, kt: types.NewInterfaceType(nil, nil), vt: types.NewInterfaceType(nil, nil)}
		p.side[a] = s
	}
	return s
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(fr *frame, a []value) value { fr.p.mutexLock(fr, fr.deref(a[0])); return nil }
	I["(*sync.Mutex).Unlock"] = func(fr *frame, a []value) value { fr.p.mutexUnlock(fr, fr.deref(a[0]), false); return nil }
	I["(*sync.Mutex).TryLock"] = func(fr *frame, a []value) value { return fr.boolT(fr.p.mutexTryLock(fr, fr.deref(a[0]))) }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).Unlock"] = func(fr *frame, a []value) value { fr.p.mutexUnlock(fr, fr.deref(a[0]), true); return nil }
	I["(*sync.RWMutex).RLock"] = func(fr *frame, a []value) value { fr.p.rLock(fr, fr.deref(a[0])); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, a []value) value { fr.p.rUnlock(fr, fr.deref(a[0])); return nil }
	I["(*sync.RWMutex).TryRLock"] = func(fr *frame, a []value) value { return fr.boolT(fr.p.tryRLock(fr, fr.deref(a[0]))) }
	I["(*sync.WaitGroup).Add"] = func(fr *frame, a []value) value {
		s := fr.p.wg(fr.deref(a[0]))
		s.n += cint(a[1])
		if cint(a[1]) < 0 {
			fr.p.release(fr.g, s)
		}
		if s.n < 0 {
			panic(targetPanic{v: iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}, where: fr.where()})
		}
		fr.p.schedPoint(fr)
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, a []value) value {
		return I["(*sync.WaitGroup).Add"](fr, []value{a[0], fr.i64(-1)})
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, a []value) value {
		s := fr.p.wg(fr.deref(a[0]))
		fr.p.schedPoint(fr)
		fr.p.block(fr, "WaitGroup.Wait", func() bool { return s.n == 0 })
		fr.p.acquire(fr.g, s)
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(fr *frame, a []value) value {
		s := fr.p.wg(fr.deref(a[0]))
		s.n++
		f := a[1]
		fr.p.spawn(fr, &native{"wg.Go", func(fr *frame, _ []value) value {
			fr.p.call(fr, f, nil)
			s.n--
			fr.p.release(fr.g, s)
			return nil
		}}, nil)
		return nil
	}
	I["(*sync.Once).Do"] = func(fr *frame, a []value) value {
		ad := fr.deref(a[0])
		s, _ := fr.p.side[ad].(*onceState)
		if s == nil {
			s = &onceState{}
			fr.p.side[ad] = s
		}
		fr.p.schedPoint(fr)
		if s.done {
			fr.p.acquire(fr.g, s)
			return nil
		}
		if s.running {
			fr.p.block(fr, "Once.Do", func() bool { return s.done })
			fr.p.acquire(fr.g, s)
			return nil
		}
		s.running = true
		defer func() { s.done = true; fr.p.release(fr.g, s) }()
		fr.p.call(fr, a[1], nil)
		return nil
	}
	I["(*sync.Pool).Get"] = func(fr *frame, a []value) value {
		ad := fr.deref(a[0])
		s, _ := fr.p.side[ad].(*poolState)
		if s != nil && len(s.items) > 0 {
			fr.p.acquire(fr.g, s)
			v := s.items[len(s.items)-1]
			s.items = s.items[:len(s.items)-1]
			return v
		}
		st := (*ad).(structure)
		fn := st[len(st)-1]
		if isNilFunc(fn) {
			return iface{}
		}
		return fr.p.call(fr, fn, nil)
	}
	I["(*sync.Pool).Put"] = func(fr *frame, a []value) value {
		ad := fr.deref(a[0])
		s, _ := fr.p.side[ad].(*poolState)
		if s == nil {
			s = &poolState{}
			fr.p.side[ad] = s
		}
		if i, ok := a[1].(iface); ok && i.t == nil {
			return nil
		}
		fr.p.release(fr.g, s)
		s.items = append(s.items, a[1])
		return nil
	}
	I["sync.NewCond"] = func(fr *frame, a []value) value {
		cell := new(value)
		*cell = fr.p.w.zero(fr.p.w.prog.byPath["sync"].Type("Cond").Type())
		st := (*cell).(structure)
		st[1] = a[0]
		return cell
	}
	condOf := func(fr *frame, v value) *condState {
		ad := fr.deref(v)
		s, _ := fr.p.side[ad].(*condState)
		if s == nil {
			s = &condState{}
			fr.p.side[ad] = s
		}
		return s
	}
	lockerCall := func(fr *frame, l value, name string) {
		i := l.(iface)
		fr.p.call(fr, fr.p.w.methodByName(i.t, name), []value{i.v})
	}
	I["(*sync.Cond).Wait"] = func(fr *frame, a []value) value {
		s := condOf(fr, a[0])
		l := (*ptr(a[0])).(structure)[1]
		w := &chanWait{}
		s.waiters = append(s.waiters, w)
		lockerCall(fr, l, "Unlock")
		fr.p.block(fr, "Cond.Wait", func() bool { return w.done })
		fr.p.acquire(fr.g, s)
		lockerCall(fr, l, "Lock")
		return nil
	}
	I["(*sync.Cond).Signal"] = func(fr *frame, a []value) value {
		s := condOf(fr, a[0])
		fr.p.release(fr.g, s)
		if len(s.waiters) > 0 {
			s.waiters[0].done = true
			s.waiters = s.waiters[1:]
		}
		fr.p.schedPoint(fr)
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(fr *frame, a []value) value {
		s := condOf(fr, a[0])
		fr.p.release(fr.g, s)
		for _, w := range s.waiters {
			w.done = true
		}
		s.waiters = nil
		fr.p.schedPoint(fr)
		return nil
	}
	// sync.Map
	I["(*sync.Map).Load"] = func(fr *frame, a []value) value {
		fr.p.schedPoint(fr)
		m := fr.p.smap(fr.deref(a[0]))
		fr.p.acquire(fr.g, fr.smapKey(m, a[1]))
		if i := fr.mapFind(m, a[1]); i >= 0 {
			return tuple{m.vals[i], fr.tt().tru}
		}
		return tuple{iface{}, fr.tt().fls}
	}
	I["(*sync.Map).Store"] = func(fr *frame, a []value) value {
		fr.p.schedPoint(fr)
		m := fr.p.smap(fr.deref(a[0]))
		fr.p.acquire(fr.g, fr.smapKey(m, a[1]))
		fr.p.release(fr.g, fr.smapKey(m, a[1]))
		fr.mapSet(m, a[1], a[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, a []value) value {
		fr.p.schedPoint(fr)
		m := fr.p.smap(fr.deref(a[0]))
		fr.p.acquire(fr.g, fr.smapKey(m, a[1]))
		if i := fr.mapFind(m, a[1]); i >= 0 {
			return tuple{m.vals[i], fr.tt().tru}
		}
		fr.p.release(fr.g, fr.smapKey(m, a[1]))
		fr.mapSet(m, a[1], a[2])
		return tuple{a[2], fr.tt().fls}
	}
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, a []value) value {
		fr.p.schedPoint(fr)
		m := fr.p.smap(fr.deref(a[0]))
		if i := fr.mapFind(m, a[1]); i >= 0 {
			v := m.vals[i]
			fr.p.acquire(fr.g, fr.smapKey(m, a[1]))
			fr.p.release(fr.g, fr.smapKey(m, a[1]))
			fr.mapDelete(m, a[1])
			return tuple{v, fr.tt().tru}
		}
		return tuple{iface{}, fr.tt().fls}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, a []value) value {
		fr.p.schedPoint(fr)
		m := fr.p.smap(fr.deref(a[0]))
		fr.p.acquire(fr.g, fr.smapKey(m, a[1]))
		fr.p.release(fr.g, fr.smapKey(m, a[1]))
		fr.mapDelete(m, a[1])
		return nil
	}
	I["(*sync.Map).Range"] = func(fr *frame, a []value) value {
		m := fr.p.smap(fr.deref(a[0]))
		var order []int
		for i := range m.keys {
			if _, d := m.keys[i].(deletedKey); !d {
				order = append(order, i)
			}
		}
		fr.p.permute(order)
		for _, i := range order {
			fr.p.schedPoint(fr)
			if _, d := m.keys[i].(deletedKey); d {
				continue
			}
			fr.p.acquire(fr.g, fr.smapKey(m, m.keys[i]))
			r := fr.p.call(fr, a[1], []value{m.keys[i], m.vals[i]}).(*Term)
			if !fr.p.branch(r) {
				break
			}
		}
		return nil
	}
	// ---- atomics ----
	for _, w := range []struct {
		n string
		w uint16
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		I["sync/atomic.Add"+w.n] = func(fr *frame, a []value) value {
			fr.p.schedPoint(fr)
			c := fr.deref(a[0])
			fr.atomicOp(c, true)
			*c = fr.tt().Add((*c).(*Term), a[1].(*Term))
			return *c
		}
		I["sync/atomic.Load"+w.n] = func(fr *frame, a []value) value {
			fr.p.schedPoint(fr)
			fr.atomicOp(fr.deref(a[0]), false)
			return *fr.deref(a[0])
		}
		I["sync/atomic.Store"+w.n] = func(fr *frame, a []value) value {
			fr.p.schedPoint(fr)
			fr.atomicOp(fr.deref(a[0]), true)
			*fr.deref(a[0]) = a[1]
			return nil
		}
		I["sync/atomic.Swap"+w.n] = func(fr *frame, a []value) value {
			fr.p.schedPoint(fr)
			c := fr.deref(a[0])
			fr.atomicOp(c, true)
			o := *c
			*c = a[1]
			return o
		}
		I["sync/atomic.CompareAndSwap"+w.n] = func(fr *frame, a []value) value {
			fr.p.schedPoint(fr)
			c := fr.deref(a[0])
			fr.atomicOp(c, true)
			if fr.p.branch(fr.tt().Eq((*c).(*Term), a[1].(*Term))) {
				*c = a[2]
				return fr.tt().tru
			}
			return fr.tt().fls
		}
	}
	I["sync/atomic.LoadPointer"] = func(fr *frame, a []value) value { fr.atomicOp(fr.deref(a[0]), false); return *fr.deref(a[0]) }
	I["sync/atomic.StorePointer"] = func(fr *frame, a []value) value { fr.atomicOp(fr.deref(a[0]), true); *fr.deref(a[0]) = a[1]; return nil }
	I["(*sync/atomic.Pointer[T]).Load"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), false)
		fr.p.schedPoint(fr)
		st := (*fr.deref(a[0])).(structure)
		return st[len(st)-1]
	}
	I["(*sync/atomic.Pointer[T]).Store"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), true)
		fr.p.schedPoint(fr)
		st := (*fr.deref(a[0])).(structure)
		st[len(st)-1] = a[1]
		return nil
	}
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), true)
		fr.p.schedPoint(fr)
		st := (*fr.deref(a[0])).(structure)
		if st[len(st)-1] == a[1] {
			st[len(st)-1] = a[2]
			return fr.tt().tru
		}
		return fr.tt().fls
	}
	I["(*sync/atomic.Value).Load"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), false)
		fr.p.schedPoint(fr)
		return (*fr.deref(a[0])).(structure)[0]
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), true)
		fr.p.schedPoint(fr)
		(*fr.deref(a[0])).(structure)[0] = a[1]
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), true)
		st := (*fr.deref(a[0])).(structure)
		o := st[0]
		st[0] = a[1]
		return o
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(fr *frame, a []value) value {
		fr.atomicOp(fr.deref(a[0]), true)
		st := (*fr.deref(a[0])).(structure)
		o := st[0].(iface)
		n := a[1].(iface)
		if o.t == nil && n.t == nil || o.t != nil && n.t != nil && fr.p.branch(fr.p.equals(types.NewInterfaceType(nil, nil), o, n)) {
			st[0] = a[2]
			return fr.tt().tru
		}
		return fr.tt().fls
	}
	// ---- time ----
	I["time.Now"] = func(fr *frame, a []value) value { return fr.timeNow() }
	I["time.now"] = func(fr *frame, a []value) value {
		return tuple{fr.u64(uint64(1700000000 + fr.p.now/1e9)), fr.tt().Const(32, uint64(fr.p.now%1e9)), fr.u64(0)}
	}
	I["time.runtimeNano"] = func(fr *frame, a []value) value { return fr.u64(uint64(fr.p.now)) }
	I["time.runtimeNow"] = I["time.now"]
	I["time.Sleep"] = func(fr *frame, a []value) value {
		d := cint(a[0])
		if d <= 0 {
			fr.p.schedPoint(fr)
			return nil
		}
		done := false
		fr.p.addTimer(d, 0, func() { done = true })
		fr.p.block(fr, "time.Sleep", func() bool { return done })
		return nil
	}
	mkTimer := func(fr *frame, typ string, d, period int64) value {
		p := fr.p
		tt := p.w.prog.byPath["time"].Type("Time").Type()
		ch := p.newChan(1, tt)
		cell := fr.newTimerStruct(typ, ch)
		base := fr
		t := p.addTimer(d, period, func() {
			if len(ch.buf) < 1 || hasWait(ch.recvq) {
				p.trySend(&frame{p: p, c: base.c}, ch, base.timeNow())
			}
		})
		p.side[cell] = t
		return cell
	}
	I["time.NewTimer"] = func(fr *frame, a []value) value { return mkTimer(fr, "Timer", cint(a[0]), 0) }
	I["time.NewTicker"] = func(fr *frame, a []value) value {
		d := cint(a[0])
		if d <= 0 {
			panic(targetPanic{v: iface{t: types.Typ[types.String], v: "non-positive interval for NewTicker"}, where: fr.where()})
		}
		return mkTimer(fr, "Ticker", d, d)
	}
	I["time.After"] = func(fr *frame, a []value) value {
		c := mkTimer(fr, "Timer", cint(a[0]), 0).(*value)
		return (*c).(structure)[0]
	}
	I["time.Tick"] = func(fr *frame, a []value) value {
		c := mkTimer(fr, "Ticker", cint(a[0]), cint(a[0])).(*value)
		return (*c).(structure)[0]
	}
	I["time.AfterFunc"] = func(fr *frame, a []value) value {
		p := fr.p
		cell := fr.newTimerStruct("Timer", (*symChan)(nil))
		f := a[1]
		base := &frame{p: p, g: p.gors[0], c: &cfn{name: "timer"}}
		vc := p.stamp(fr.g)
		t := p.addTimer(cint(a[0]), 0, func() { p.joinVC(p.spawnQuiet(base, f), vc) })
		p.side[cell] = t
		return cell
	}
	I["(*time.Timer).Stop"] = func(fr *frame, a []value) value {
		t := fr.p.timerOf(fr.deref(a[0]))
		l := t.live
		t.live = false
		if ch, ok := (*ptr(a[0])).(structure)[0].(*symChan); ok && ch != nil {
			ch.buf, ch.bvc = nil, nil
		}
		return fr.boolT(l)
	}
	I["(*time.Ticker).Stop"] = func(fr *frame, a []value) value { fr.p.timerOf(fr.deref(a[0])).live = false; return nil }
	reset := func(fr *frame, a []value) value {
		p := fr.p
		t := p.timerOf(fr.deref(a[0]))
		l := t.live
		t.live = false
		n := *t
		n.live = true
		n.when = p.now + cint(a[1])
		if n.period > 0 {
			n.period = cint(a[1])
		}
		p.timerSeq++
		n.seq = p.timerSeq
		p.timers = append(p.timers, &n)
		p.side[ptr(a[0])] = &n
		if ch, ok := (*ptr(a[0])).(structure)[0].(*symChan); ok && ch != nil {
			ch.buf, ch.bvc = nil, nil
		}
		return fr.boolT(l)
	}
	I["(*time.Timer).Reset"] = reset
	I["(*time.Ticker).Reset"] = func(fr *frame, a []value) value { reset(fr, a); return nil }
	for _, n := range []string{"(time.Time).String", "(time.Time).Format", "(time.Duration).String", "(time.Time).GoString"} {
		I[n] = func(fr *frame, a []value) value { return &opaqueStr{"time"} }
	}
	// ---- fmt ----
	I["fmt.Sprintf"] = func(fr *frame, a []value) value { return fr.sprintf(a[0], a[1].([]value)) }
	I["fmt.Errorf"] = func(fr *frame, a []value) value { return fr.errorf(a[0], a[1].([]value)) }
	I["fmt.Sprint"] = func(fr *frame, a []value) value { return fr.sprint(a[0].([]value), false) }
	I["fmt.Sprintln"] = func(fr *frame, a []value) value { return fr.sprint(a[0].([]value), true) }
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		I[n] = func(fr *frame, a []value) value { return tuple{fr.i64(0), iface{}} }
	}
	I["fmt.Fprintf"] = func(fr *frame, a []value) value {
		s := fr.sprintf(a[1], a[2].([]value))
		return fr.writeTo(a[0].(iface), s)
	}
	I["fmt.Fprintln"] = func(fr *frame, a []value) value { return fr.writeTo(a[0].(iface), fr.sprint(a[1].([]value), true)) }
	I["fmt.Fprint"] = func(fr *frame, a []value) value { return fr.writeTo(a[0].(iface), fr.sprint(a[1].([]value), false)) }
	// ---- errors ----
	I["errors.Is"] = func(fr *frame, a []value) value { return fr.boolT(fr.errorsIs(a[0].(iface), a[1].(iface))) }
	I["errors.As"] = func(fr *frame, a []value) value { return fr.boolT(fr.errorsAs(a[0].(iface), a[1].(iface))) }
	// ---- runtime & friends ----
	I["runtime.Gosched"] = func(fr *frame, a []value) value {
		p := fr.p
		if c := p.candidates(fr.g); len(c) > 0 {
			p.switchTo(fr.g, c[0])
		}
		return nil
	}
	I["runtime.Goexit"] = func(fr *frame, a []value) value { panic(goexit{}) }
	I["runtime.GC"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["runtime.NumCPU"] = func(fr *frame, a []value) value { return fr.i64(4) }
	I["runtime.GOMAXPROCS"] = func(fr *frame, a []value) value { return fr.i64(4) }
	I["runtime.Callers"] = func(fr *frame, a []value) value { return fr.i64(0) }
	I["runtime.Caller"] = func(fr *frame, a []value) value { return tuple{fr.u64(0), "", fr.i64(0), fr.tt().fls} }
	I["runtime.FuncForPC"] = func(fr *frame, a []value) value { return (*value)(nil) }
	I["(*runtime.Func).Name"] = func(fr *frame, a []value) value { return "func" }
	I["(*runtime.Func).FileLine"] = func(fr *frame, a []value) value { return tuple{"file.go", fr.i64(1)} }
	I["runtime/debug.Stack"] = func(fr *frame, a []value) value { return []value{} }
	I["runtime/debug.PrintStack"] = nop
	I["internal/race.Acquire"] = nop
	I["internal/race.Release"] = nop
	I["internal/race.ReleaseMerge"] = nop
	I["internal/race.Disable"] = nop
	I["internal/race.Enable"] = nop
	I["internal/race.Read"] = nop
	I["internal/race.Write"] = nop
	I["internal/godebug.New"] = func(fr *frame, a []value) value { return (*value)(nil) }
	I["(*internal/godebug.Setting).Value"] = func(fr *frame, a []value) value { return "" }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["context.WithValue"] = func(fr *frame, a []value) value {
		for i, m := range []string{"cannot create context from nil parent", "nil key"} {
			if a[i].(iface).t == nil {
				panic(targetPanic{v: iface{t: types.Typ[types.String], v: m}, where: fr.where()})
			}
		}
		if !types.Comparable(a[1].(iface).t) {
			panic(targetPanic{v: iface{t: types.Typ[types.String], v: "key is not comparable"}, where: fr.where()})
		}
		var v value = structure{a[0], a[1], a[2]}
		return iface{t: types.NewPointer(fr.p.w.prog.byPath["context"].Type("valueCtx").Type()), v: &v}
	}
	I["internal/reflectlite.TypeOf"] = func(fr *frame, a []value) value { return iface{} }
	I["internal/abi.NoEscape"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/abi.Escape"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, a []value) value {
		return fr.p.w.makeSlice(types.Typ[types.Uint8], int(cint(a[0])), int(cint(a[0])))
	}
	I["internal/bytealg.IndexByteString"] = func(fr *frame, a []value) value {
		b := fr.p.w.strBytes(a[0])
		for i, c := range b {
			if fr.p.branch(fr.tt().Eq(c, a[1].(*Term))) {
				return fr.i64(i)
			}
		}
		return fr.i64(-1)
	}
	I["internal/bytealg.IndexByte"] = func(fr *frame, a []value) value {
		for i, c := range a[0].([]value) {
			if fr.p.branch(fr.tt().Eq(c.(*Term), a[1].(*Term))) {
				return fr.i64(i)
			}
		}
		return fr.i64(-1)
	}
	I["internal/bytealg.LastIndexByteString"] = func(fr *frame, a []value) value {
		b := fr.p.w.strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if fr.p.branch(fr.tt().Eq(b[i], a[1].(*Term))) {
				return fr.i64(i)
			}
		}
		return fr.i64(-1)
	}
	I["internal/bytealg.CountString"] = func(fr *frame, a []value) value {
		n := 0
		for _, c := range fr.p.w.strBytes(a[0]) {
			if fr.p.branch(fr.tt().Eq(c, a[1].(*Term))) {
				n++
			}
		}
		return fr.i64(n)
	}
	eqBytes := func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) != len(y) {
			return fr.tt().fls
		}
		r := fr.tt().tru
		for i := range x {
			r = fr.tt().And(r, fr.p.equals(types.Typ[types.Uint8], x[i], y[i]))
		}
		return r
	}
	I["bytes.Equal"] = eqBytes
	I["internal/bytealg.Equal"] = eqBytes
	I["bytes.Compare"] = func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		for i := 0; i < len(x) && i < len(y); i++ {
			if !fr.p.branch(fr.tt().Eq(x[i].(*Term), y[i].(*Term))) {
				if fr.p.branch(fr.tt().ULt(x[i].(*Term), y[i].(*Term))) {
					return fr.i64(-1)
				}
				return fr.i64(1)
			}
		}
		switch {
		case len(x) < len(y):
			return fr.i64(-1)
		case len(x) > len(y):
			return fr.i64(1)
		}
		return fr.i64(0)
	}
	I["strings.Clone"] = func(fr *frame, a []value) value { return a[0] }
	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(fr *frame, a []value) value {
		st := (*fr.deref(a[0])).(structure)
		return bytesToStr(st[len(st)-1].([]value))
	}
	str := func(name string, f func(a []value, fr *frame) value, need ...int) {
		I[name] = func(fr *frame, a []value) value {
			for _, i := range need {
				switch v := a[i].(type) {
				case string:
				case *opaqueStr:
					return &opaqueStr{name}
				default:
					_ = v
					return useBody{}
				}
			}
			return f(a, fr)
		}
	}
	sl := func(ss []string) value {
		r := make([]value, len(ss))
		for i, s := range ss {
			r[i] = s
		}
		return r
	}
	str("strings.Split", func(a []value, fr *frame) value { return sl(strings.Split(a[0].(string), a[1].(string))) }, 0, 1)
	str("strings.Fields", func(a []value, fr *frame) value { return sl(strings.Fields(a[0].(string))) }, 0)
	str("strings.TrimSpace", func(a []value, fr *frame) value { return strings.TrimSpace(a[0].(string)) }, 0)
	str("strings.ToLower", func(a []value, fr *frame) value { return strings.ToLower(a[0].(string)) }, 0)
	str("strings.ToUpper", func(a []value, fr *frame) value { return strings.ToUpper(a[0].(string)) }, 0)
	str("strings.Replace", func(a []value, fr *frame) value {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(cint(a[3])))
	}, 0, 1, 2)
	str("strings.Index", func(a []value, fr *frame) value { return fr.i64(strings.Index(a[0].(string), a[1].(string))) }, 0, 1)
	str("strings.LastIndex", func(a []value, fr *frame) value { return fr.i64(strings.LastIndex(a[0].(string), a[1].(string))) }, 0, 1)
	str("strings.Contains", func(a []value, fr *frame) value { return fr.boolT(strings.Contains(a[0].(string), a[1].(string))) }, 0, 1)
	str("strings.Repeat", func(a []value, fr *frame) value { return strings.Repeat(a[0].(string), int(cint(a[1]))) }, 0)
	str("strings.EqualFold", func(a []value, fr *frame) value { return fr.boolT(strings.EqualFold(a[0].(string), a[1].(string))) }, 0, 1)
	// ASCII bytes only: anything else goes through the real body
	trim := I["strings.TrimSpace"]
	I["strings.TrimSpace"] = func(fr *frame, a []value) value {
		sy, ok := a[0].(*symStr)
		if !ok {
			return trim(fr, a)
		}
		tt, b := fr.tt(), sy.b
		space := func(c *Term) bool {
			if fr.p.branch(tt.ULe(tt.Const(8, 0x80), c)) {
				panic(unsupported{"TrimSpace at a symbolic non-ASCII byte"})
			}
			return fr.p.branch(tt.Or(tt.Eq(c, tt.Const(8, ' ')), tt.And(tt.ULe(tt.Const(8, 9), c), tt.ULe(c, tt.Const(8, 13)))))
		}
		for len(b) > 0 && space(b[0]) {
			b = b[1:]
		}
		for len(b) > 0 && space(b[len(b)-1]) {
			b = b[:len(b)-1]
		}
		return mkStr(b)
	}
	I["strings.Join"] = func(fr *frame, a []value) value {
		var r value = ""
		for i, s := range a[0].([]value) {
			if i > 0 {
				r = fr.strop(12, r, a[1])
			}
			r = fr.strop(12, r, s)
		}
		return r
	}
	// strconv
	I["strconv.Itoa"] = func(fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			return &opaqueStr{"Itoa"}
		}
		return strconv.Itoa(int(int64(t.val)))
	}
	I["strconv.FormatInt"] = func(fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			return &opaqueStr{"FormatInt"}
		}
		return strconv.FormatInt(int64(t.val), int(cint(a[1])))
	}
	I["strconv.FormatUint"] = func(fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			return &opaqueStr{"FormatUint"}
		}
		return strconv.FormatUint(t.val, int(cint(a[1])))
	}
	I["strconv.Quote"] = func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return &opaqueStr{"Quote"}
	}
	I["strconv.ParseUint"] = func(fr *frame, a []value) value {
		if _, ok := a[0].(*symStr); ok {
			return useBody{}
		}
		if _, ok := a[0].(*opaqueStr); ok {
			panic(unsupported{"ParseUint opaque"})
		}
		n, err := strconv.ParseUint(cstr(a[0]), int(cint(a[1])), int(cint(a[2])))
		if err != nil {
			return tuple{fr.u64(n), fr.errorsNew(err.Error())}
		}
		return tuple{fr.u64(n), iface{}}
	}
	I["internal/stringslite.Clone"] = func(fr *frame, a []value) value { return a[0] }
	I["strconv.ParseInt"] = func(fr *frame, a []value) value {
		if _, ok := a[0].(*symStr); ok {
			return useBody{}
		}
		n, err := strconv.ParseInt(cstr(a[0]), int(cint(a[1])), int(cint(a[2])))
		if err != nil {
			return tuple{fr.i64(int(n)), fr.errorsNew(err.Error())}
		}
		return tuple{fr.i64(int(n)), iface{}}
	}
	I["strconv.Atoi"] = func(fr *frame, a []value) value {
		if _, ok := a[0].(*symStr); ok {
			return useBody{}
		}
		n, err := strconv.Atoi(cstr(a[0]))
		if err != nil {
			return tuple{fr.i64(n), fr.errorsNew(err.Error())}
		}
		return tuple{fr.i64(n), iface{}}
	}
	// math
	I["math.Float64bits"] = func(fr *frame, a []value) value { return a[0] }
	I["math.Float64frombits"] = func(fr *frame, a []value) value { return a[0] }
	I["math.Float32bits"] = func(fr *frame, a []value) value { return a[0] }
	I["math.Float32frombits"] = func(fr *frame, a []value) value { return a[0] }
	I["math.IsNaN"] = func(fr *frame, a []value) value {
		t := a[0].(*Term)
		return fr.tt().Not(fr.tt().FBin(OFEq, t, t))
	}
	f1 := func(n string, f func(float64) float64) {
		I[n] = func(fr *frame, a []value) value {
			t := a[0].(*Term)
			if !t.isConst() {
				panic(unsupported{n + " symbolic"})
			}
			return fr.u64(math.Float64bits(f(math.Float64frombits(t.val))))
		}
	}
	f1("math.Log", math.Log)
	fr1 := func(n string, op Op) {
		I[n] = func(fr *frame, a []value) value { return fr.tt().FUn(op, a[0].(*Term), 64) }
	}
	fr1("math.Floor", OFFloor)
	fr1("math.Ceil", OFCeil)
	fr1("math.Trunc", OFTrunc)
	fr1("math.Round", OFRound)
	fr1("math.RoundToEven", OFRoundE)
	fr1("math.Sqrt", OFSqrt)
	I["math.Abs"] = func(fr *frame, a []value) value {
		return fr.tt().BAnd(a[0].(*Term), fr.u64(1<<63-1))
	}
	mm := func(n string, max bool) {
		I[n] = func(fr *frame, a []value) value {
			tt, x, y := fr.tt(), a[0].(*Term), a[1].(*Term)
			inf := fr.u64(math.Float64bits(math.Inf(1)))
			r := tt.Ite(tt.FBin(OFLt, x, y), x, y)
			zero := tt.BOr(x, y) // both zero: -0 wins for Min, +0 for Max
			if max {
				r = tt.Ite(tt.FBin(OFLt, x, y), y, x)
				zero = tt.BAnd(x, y)
			} else {
				inf = fr.u64(math.Float64bits(math.Inf(-1)))
			}
			fz := fr.u64(0)
			r = tt.Ite(tt.And(tt.FBin(OFEq, x, fz), tt.FBin(OFEq, y, fz)), zero, r)
			nan := tt.Not(tt.And(tt.FBin(OFEq, x, x), tt.FBin(OFEq, y, y)))
			r = tt.Ite(nan, fr.u64(math.Float64bits(math.NaN())), r)
			return tt.Ite(tt.Or(tt.Eq(x, inf), tt.Eq(y, inf)), inf, r)
		}
	}
	mm("math.Max", true)
	mm("math.Min", false)
	b1 := func(n string, w uint16, f func(uint64) int) {
		I[n] = func(fr *frame, a []value) value {
			t := a[0].(*Term)
			if t.isConst() {
				return fr.i64(f(t.val))
			}
			// Len-style: build an ite chain
			tt := fr.tt()
			switch {
			case strings.HasPrefix(n, "math/bits.Len"):
				r := fr.i64(0)
				for i := uint16(0); i < t.w; i++ {
					r = tt.Ite(tt.ULe(tt.Const(t.w, uint64(1)<<i), t), fr.i64(int(i)+1), r)
				}
				return r
			case strings.HasPrefix(n, "math/bits.LeadingZeros"):
				r := fr.i64(int(w))
				for i := uint16(0); i < t.w; i++ {
					r = tt.Ite(tt.ULe(tt.Const(t.w, uint64(1)<<i), t), fr.i64(int(w)-int(i)-1), r)
				}
				return r
			}
			return fr.i64(f(fr.p.concretize(t)))
		}
	}
	b1("math/bits.Len", 64, func(v uint64) int { return bits.Len64(v) })
	b1("math/bits.Len64", 64, func(v uint64) int { return bits.Len64(v) })
	b1("math/bits.Len32", 32, func(v uint64) int { return bits.Len32(uint32(v)) })
	b1("math/bits.Len16", 16, func(v uint64) int { return bits.Len16(uint16(v)) })
	b1("math/bits.Len8", 8, func(v uint64) int { return bits.Len8(uint8(v)) })
	b1("math/bits.TrailingZeros", 64, func(v uint64) int { return bits.TrailingZeros64(v) })
	b1("math/bits.TrailingZeros64", 64, func(v uint64) int { return bits.TrailingZeros64(v) })
	b1("math/bits.TrailingZeros32", 32, func(v uint64) int { return bits.TrailingZeros32(uint32(v)) })
	b1("math/bits.LeadingZeros64", 64, func(v uint64) int { return bits.LeadingZeros64(v) })
	b1("math/bits.LeadingZeros32", 32, func(v uint64) int { return bits.LeadingZeros32(uint32(v)) })
	b1("math/bits.LeadingZeros", 64, func(v uint64) int { return bits.LeadingZeros64(v) })
	b1("math/bits.OnesCount64", 64, func(v uint64) int { return bits.OnesCount64(v) })
	I["math/bits.Mul64"] = func(fr *frame, a []value) value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			hi, lo := bits.Mul64(x.val, y.val)
			return tuple{fr.u64(hi), fr.u64(lo)}
		}
		panic(unsupported{"Mul64 symbolic"})
	}
	I["math/bits.Add64"] = func(fr *frame, a []value) value {
		x, y, c := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if x.isConst() && y.isConst() && c.isConst() {
			s, co := bits.Add64(x.val, y.val, c.val)
			return tuple{fr.u64(s), fr.u64(co)}
		}
		panic(unsupported{"Add64 symbolic"})
	}
	I["math/bits.Sub64"] = func(fr *frame, a []value) value {
		x, y, c := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if x.isConst() && y.isConst() && c.isConst() {
			s, co := bits.Sub64(x.val, y.val, c.val)
			return tuple{fr.u64(s), fr.u64(co)}
		}
		panic(unsupported{"Sub64 symbolic"})
	}
	// unicode on concrete runes
	uc := func(n string, f func(rune) bool) {
		I[n] = func(fr *frame, a []value) value { return fr.boolT(f(rune(cint(a[0])))) }
	}
	uc("unicode.IsSpace", unicode.IsSpace)
	uc("unicode.IsLetter", unicode.IsLetter)
	uc("unicode.IsDigit", unicode.IsDigit)
	uc("unicode.IsUpper", unicode.IsUpper)
	I["unicode.ToLower"] = func(fr *frame, a []value) value { return fr.tt().Const(32, uint64(unicode.ToLower(rune(cint(a[0]))))) }
	// sort.Slice with the real pattern-defeating quicksort
	sorter := func(fn string) intrinsic {
		return func(fr *frame, a []value) value {
			x := a[0].(iface).v.([]value)
			swap := &native{"swap", func(fr *frame, b []value) value {
				i, j := int(cint(b[0])), int(cint(b[1]))
				xi, xj := copyVal(x[i]), copyVal(x[j])
				storeTo(&x[i], xj)
				storeTo(&x[j], xi)
				return nil
			}}
			f := fr.p.w.prog.byPath["sort"].Func(fn)
			ls := structure{a[1], swap}
			n := len(x)
			if fn == "pdqsort_func" {
				fr.p.call(fr, f, []value{ls, fr.i64(0), fr.i64(n), fr.i64(bits.Len(uint(n)))})
			} else {
				fr.p.call(fr, f, []value{ls, fr.i64(n)})
			}
			return nil
		}
	}
	I["sort.Slice"] = sorter("pdqsort_func")
	I["sort.SliceStable"] = sorter("stable_func")
	I["sort.SliceIsSorted"] = func(fr *frame, a []value) value {
		n := len(a[0].(iface).v.([]value))
		for i := n - 1; i > 0; i-- {
			r := fr.p.call(fr, a[1], []value{fr.i64(i), fr.i64(i - 1)}).(*Term)
			if fr.p.branch(r) {
				return fr.tt().fls
			}
		}
		return fr.tt().tru
	}
	// json: concrete text into a map of strings only
	I["encoding/json.Unmarshal"] = func(fr *frame, a []value) value {
		mt, ok := a[1].(iface).t.Underlying().(*types.Pointer)
		if ok {
			_, ok = mt.Elem().Underlying().(*types.Map)
		}
		if !ok || mt.Elem().String() != "map[string]string" {
			panic(unsupported{"json.Unmarshal into " + a[1].(iface).t.String()})
		}
		text := cstr(bytesToStr(a[0].([]value)))
		dst := map[string]string{}
		if err := json.Unmarshal([]byte(text), &dst); err != nil {
			return fr.errorsNew(err.Error())
		}
		p := fr.deref(a[1].(iface).v)
		m, _ := (*p).(*symMap)
		if m == nil && dst != nil {
			m = &symMap{kt: types.Typ[types.String], vt: types.Typ[types.String], idx: map[string]int{}}
			*p = m
		}
		var ks []string
		for k := range dst {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fr.mapSet(m, k, dst[k])
		}
		return iface{}
	}
	// json: opaque
	I["encoding/json.MarshalIndent"] = func(fr *frame, a []value) value { return tuple{[]value{&opaqueStr{"json"}}, iface{}} }
	I["encoding/json.Marshal"] = func(fr *frame, a []value) value { return tuple{[]value{&opaqueStr{"json"}}, iface{}} }
	// randomness: unique, deterministic
	randRead := func(fr *frame, a []value) value {
		b := a[len(a)-1].([]value)
		for i := range b {
			fr.p.randCtr++
			x := fr.p.randCtr * 0x9E3779B97F4A7C15
			b[i] = fr.tt().Const(8, x>>56)
		}
		return tuple{fr.i64(len(b)), iface{}}
	}
	I["crypto/rand.Read"] = randRead
	I["(crypto/internal/rand.reader).Read"] = randRead
	I["math/rand.Seed"] = nop
	I["math/rand.Int63"] = func(fr *frame, a []value) value {
		fr.p.randCtr++
		return fr.u64((fr.p.randCtr * 0x9E3779B97F4A7C15) >> 1)
	}
	I["math/rand.Intn"] = func(fr *frame, a []value) value { return fr.i64(0) }
	I["reflect.TypeOf"] = func(fr *frame, a []value) value {
		if fr.p.initDepth == 0 {
			panic(unsupported{"reflect.TypeOf"})
		}
		return iface{} // package level type tables are not used by the code checked
	}
	I["github.com/tinylib/msgp/msgp.getType"] = func(fr *frame, a []value) value {
		g := fr.p.w.prog.byPath["github.com/tinylib/msgp/msgp"].Var("sizes")
		tab := (*fr.p.globalAddr(g, fr)).(array)
		t, rep := fr.table(a[0].(*Term), tab, func(v value) string { return constKey(v.(structure)[2]) })
		tt := fr.tt()
		r := tab[rep[0]].(structure)[2].(*Term)
		for i := 1; i < len(rep); i++ {
			r = tt.Ite(tt.Eq(t, tt.Const(32, uint64(i))), tab[rep[i]].(structure)[2].(*Term), r)
		}
		return r
	}
	// metrics are not modelled
	I["github.com/goadesign/goa.MeasureSince"] = nop
	I["github.com/goadesign/goa.IncrCounter"] = nop
	// regular expressions are compiled by package initializers only
	I["regexp.MustCompile"] = func(fr *frame, a []value) value { return fr.p.w.zeroResult(fr.p.w.prog.byPath["regexp"].Func("MustCompile")) }
	// msgp/fwd unsafe helpers
	I["github.com/tinylib/msgp/msgp.UnsafeString"] = func(fr *frame, a []value) value { return bytesToStr(a[0].([]value)) }
	I["github.com/tinylib/msgp/msgp.UnsafeBytes"] = func(fr *frame, a []value) value { return fr.p.w.strToBytes(a[0]) }
	I["github.com/philhofer/fwd.unsafestr"] = func(fr *frame, a []value) value { return fr.p.w.strToBytes(a[0]) }

	pkgIntrinsic = map[string]func(fn *ssa.Function) intrinsic{
		modPath + "/log": logIntrinsic,
		vvPath:           vvIntrinsic,
	}
}

// spawnQuiet starts fn in a new goroutine (from a timer).
func (p *path) spawnQuiet(fr *frame, fn value) *gor {
	old := p.schedOff
	p.schedOff = true
	n := len(p.gors)
	p.spawn(fr, fn, nil)
	p.schedOff = old
	return p.gors[n]
}

// logIntrinsic: logging is not modelled; contexts pass through unchanged.
func logIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Synthetic == "package initializer" {
		return nop
	}
	sig := fn.Signature
	if sig.Recv() != nil && (strings.Contains(fn.String(), "nullAdapter")) {
		return nil
	}
	if sig.Results().Len() == 1 {
		rt := sig.Results().At(0).Type()
		if named, ok := rt.(*types.Named); ok && named.Obj().Name() == "Context" {
			return func(fr *frame, a []value) value { return a[0] }
		}
	}
	if sig.Results().Len() == 0 {
		return nop
	}
	return func(fr *frame, a []value) value {
		if fn.Name() == "Logger" && fr.p.w.prog.byPath[modPath+"/log"] != nil {
			// a null adapter
			if t := fr.p.w.prog.byPath[modPath+"/log"].Type("nullAdapter"); t != nil {
				return iface{t: types.NewPointer(t.Type()), v: (*value)(nil)}
			}
		}
		return fr.p.w.zeroResult(fn)
	}
}

func (fr *frame) writeTo(w iface, s value) value {
	if w.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if strings.HasSuffix(types.TypeString(w.t, nil), "os.File") {
		return tuple{fr.i64(0), iface{}}
	}
	m := fr.p.w.methodByName(w.t, "Write")
	var b []value
	if o, ok := s.(*opaqueStr); ok {
		b = []value{o}
	} else {
		b = fr.p.w.strToBytes(s)
	}
	return fr.p.call(fr, m, []value{w.v, b})
}

// ---- fmt ----

func (fr *frame) fmtArg(v value, verb byte, flags string) (value, bool) {
	i, ok := v.(iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return "<nil>", true
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() }), true
	}
	if verb == 'p' {
		return &opaqueStr{"ptr"}, true
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		if pv, isPtr := i.v.(*value); !isPtr || pv != nil {
			if types.Implements(i.t, fr.p.w.errorIface()) {
				if m := fr.p.w.methodByName(i.t, "Error"); m != nil {
					return fr.safeStr(m, i.v), true
				}
			}
			if m := fr.p.w.methodByName(i.t, "String"); m != nil && m.Signature.Params().Len() == 0 && verb != 'w' && m.Signature.Results().Len() == 1 {
				return fr.safeStr(m, i.v), true
			}
		}
	}
	switch x := i.v.(type) {
	case string:
		switch verb {
		case 'q':
			return strconv.Quote(x), true
		case 'x':
			return fmt.Sprintf("%x", x), true
		}
		return x, true
	case *symStr:
		if verb == 's' || verb == 'v' {
			return x, true
		}
	case *opaqueStr:
		return x, true
	case *Term:
		if !x.isConst() {
			return &opaqueStr{"sym"}, true
		}
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		f := "%" + flags + string(verb)
		switch {
		case b.Info()&types.IsBoolean != 0:
			return fmt.Sprintf(f, x.val == 1), true
		case b.Info()&types.IsFloat != 0:
			return fmt.Sprintf(f, fl(x.w, x.val)), true
		case b.Info()&types.IsUnsigned != 0:
			return fmt.Sprintf(f, x.val), true
		default:
			return fmt.Sprintf(f, sx(x.val, x.w)), true
		}
	case []value:
		if verb == 's' || verb == 'x' {
			s := bytesToStr(x)
			if c, ok := s.(string); ok {
				return fmt.Sprintf("%"+flags+string(verb), c), true
			}
			return &opaqueStr{"bytes"}, true
		}
	}
	return &opaqueStr{"value"}, true
}

func (fr *frame) safeStr(m *ssa.Function, v value) value {
	return fr.p.call(fr, m, []value{v})
}

func (w *worker) errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func (fr *frame) sprintf(format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		return &opaqueStr{"fmt"}
	}
	var r value = ""
	ai := 0
	add := func(s value) { r = fr.strop(12, r, s) }
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(f[i:])
			break
		}
		add(f[i : i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		verb := f[i]
		flags := f[st:i]
		i++
		if verb == '%' {
			add("%")
			continue
		}
		if ai >= len(args) {
			add("%!" + string(verb) + "(MISSING)")
			continue
		}
		s, ok := fr.fmtArg(args[ai], verb, flags)
		ai++
		if !ok {
			return &opaqueStr{"fmt"}
		}
		add(s)
	}
	return r
}

func (fr *frame) sprint(args []value, ln bool) value {
	var r value = ""
	for i, a := range args {
		if i > 0 && ln {
			r = fr.strop(12, r, " ")
		}
		s, ok := fr.fmtArg(a, 'v', "")
		if !ok {
			return &opaqueStr{"sprint"}
		}
		r = fr.strop(12, r, s)
	}
	if ln {
		r = fr.strop(12, r, "\n")
	}
	return r
}

func (fr *frame) errorf(format value, args []value) value {
	s := fr.sprintf(format, args)
	pkg := fr.p.w.prog.byPath["fmt"]
	if f, ok := format.(string); ok && strings.Contains(f, "%w") {
		// find the wrapped operand (single %w only)
		n := -1
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] == '%' {
				continue
			}
			if i < len(f) && f[i] == 'w' && n < 0 {
				n = ai
			}
			ai++
		}
		if n >= 0 && n < len(args) {
			cell := new(value)
			*cell = structure{s, args[n]}
			return iface{t: types.NewPointer(pkg.Type("wrapError").Type()), v: cell}
		}
	}
	return fr.errorsNew(s)
}

func (fr *frame) errorsIs(err, target iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) && fr.p.branch(fr.p.equals(types.NewInterfaceType(nil, nil), err, target)) {
			return true
		}
		if m := fr.p.w.methodByName(err.t, "Is"); m != nil {
			if fr.p.branch(fr.p.call(fr, m, []value{err.v, target}).(*Term)) {
				return true
			}
		}
		m := fr.p.w.methodByName(err.t, "Unwrap")
		if m == nil {
			return false
		}
		r := fr.p.call(fr, m, []value{err.v})
		if l, ok := r.([]value); ok {
			for _, e := range l {
				if fr.errorsIs(e.(iface), target) {
					return true
				}
			}
			return false
		}
		err = r.(iface)
		if err.t == nil {
			return false
		}
	}
}

func (fr *frame) errorsAs(err, target iface) bool {
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		panic(unsupported{"errors.As target"})
	}
	for err.t != nil {
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if types.Implements(err.t, it) {
				*target.v.(*value) = err
				return true
			}
		} else if types.Identical(err.t, pt.Elem()) {
			storeTo(target.v.(*value), err.v)
			return true
		}
		m := fr.p.w.methodByName(err.t, "Unwrap")
		if m == nil {
			return false
		}
		r, ok := fr.p.call(fr, m, []value{err.v}).(iface)
		if !ok {
			return false
		}
		err = r
	}
	return false
}
