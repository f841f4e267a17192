package main

import (
	"fmt"
)

// Happens-before race detection (vv.Races). Vector clocks follow goroutine
// starts, locks, channels, wait groups, sync.Map entries, atomics, Once, Pool
// and Cond; every load and store of interpreted code is checked against the
// accesses of other goroutines that are not ordered before it.

type vclock []int

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (a vclock) copy() vclock { return append(vclock(nil), a...) }

type raceAcc struct {
	g, clk        int
	write, atomic bool
	where         string
}

type raceState struct {
	mem  map[interface{}][]raceAcc
	sync map[interface{}]vclock
}

type syncKey struct {
	a interface{}
	k string
}

type dataRace struct{ desc string }

func (p *path) races(fr *frame) {
	p.race = &raceState{mem: map[interface{}][]raceAcc{}, sync: map[interface{}]vclock{}}
	for _, g := range p.gors {
		g.vc = nil
		g.tick()
	}
}

func (g *gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// acquire and release are the two halves of a happens-before edge over key.
func (p *path) acquire(g *gor, key interface{}) {
	if p.race != nil && g != nil {
		g.vc = g.vc.join(p.race.sync[key])
	}
}

func (p *path) release(g *gor, key interface{}) {
	if p.race != nil && g != nil {
		p.race.sync[key] = p.race.sync[key].join(g.vc)
		g.tick()
	}
}

// stamp is the clock a message carries.
func (p *path) stamp(g *gor) vclock {
	if p.race == nil || g == nil {
		return nil
	}
	c := g.vc.copy()
	g.tick()
	return c
}

func (p *path) joinVC(g *gor, c vclock) {
	if p.race != nil && g != nil && c != nil {
		g.vc = g.vc.join(c)
	}
}

func (fr *frame) touch(addr interface{}, write, atomic bool) {
	p := fr.p
	if p.race == nil || p.initDepth > 0 || fr.g == nil || fr.g.untracked {
		return
	}
	g := fr.g
	acc := p.race.mem[addr]
	same := -1
	for i := range acc {
		a := &acc[i]
		if a.g == g.id {
			if a.write == write && a.atomic == atomic {
				same = i
			}
			continue
		}
		if !a.write && !write || a.atomic && atomic {
			continue
		}
		if a.g < len(g.vc) && a.clk <= g.vc[a.g] {
			continue
		}
		name := func(w bool) string {
			if w {
				return "write"
			}
			return "read"
		}
		panic(dataRace{fmt.Sprintf("data race: %s at %s, not ordered with the %s at %s", name(write), fr.callerWhere(), name(a.write), a.where)})
	}
	n := raceAcc{g.id, g.vc[g.id], write, atomic, ""}
	if same >= 0 && acc[same].clk == n.clk {
		return
	}
	n.where = fr.callerWhere()
	if same >= 0 {
		acc[same] = n
	} else {
		p.race.mem[addr] = append(acc, n)
	}
}

// readMem and writeMem visit the leaves of a value in memory.
func (fr *frame) readMem(addr *value) {
	switch v := (*addr).(type) {
	case structure:
		for i := range v {
			fr.readMem(&v[i])
		}
	case array:
		for i := range v {
			fr.readMem(&v[i])
		}
	default:
		fr.touch(addr, false, false)
	}
}

func (fr *frame) writeMem(addr *value) {
	switch v := (*addr).(type) {
	case structure:
		for i := range v {
			fr.writeMem(&v[i])
		}
	case array:
		for i := range v {
			fr.writeMem(&v[i])
		}
	default:
		fr.touch(addr, true, false)
	}
}

func (fr *frame) readSlice(s []value) {
	if fr.p.race != nil {
		for i := range s {
			fr.readMem(&s[i])
		}
	}
}

func (fr *frame) writeSlice(s []value) {
	if fr.p.race != nil {
		for i := range s {
			fr.writeMem(&s[i])
		}
	}
}

func (fr *frame) readMap(m *symMap) {
	if fr.p.race != nil && m != nil {
		fr.touch(m, false, false)
	}
}

func (fr *frame) writeMap(m *symMap) {
	if fr.p.race != nil && m != nil {
		fr.touch(m, true, false)
	}
}

func (fr *frame) atomicOp(addr interface{}, write bool) {
	p := fr.p
	if p.race == nil {
		return
	}
	p.acquire(fr.g, syncKey{addr, "atomic"})
	fr.touch(addr, write, true)
	if write {
		p.release(fr.g, syncKey{addr, "atomic"})
	}
}

// smapSync orders accesses to one key of a sync.Map.
func (fr *frame) smapKey(m *symMap, k value) syncKey {
	s, ok := keyStr(k)
	if !ok {
		s = "?"
	}
	return syncKey{m, s}
}
