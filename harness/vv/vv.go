// Package vv holds the primitives of the verification harnesses. Under the
// symbolic engine these functions are replaced by intrinsics; natively they
// replay one concrete counterexample read from a file.
package vv

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	inputs map[string]uint64
	drawn  = map[string]int{}
	obs    = map[string][]uint64{}
	tier   int
	cover  = map[string]bool{}
)

// Load reads the inputs to replay.
func Load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if os.Getenv("VV_TIER") == "thorough" {
		tier = 1
	}
	return json.Unmarshal(b, &inputs)
}

// Dump writes the observations.
func Dump(file string) {
	mu.Lock()
	defer mu.Unlock()
	b, _ := json.Marshal(obs)
	os.WriteFile(file, b, 0644)
}

func draw(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := drawn[name]
	drawn[name] = k + 1
	return inputs[fmt.Sprintf("%s#%d", name, k)]
}

func U64(name string) uint64  { return draw(name) }
func U32(name string) uint32  { return uint32(draw(name)) }
func U16(name string) uint16  { return uint16(draw(name)) }
func U8(name string) uint8    { return uint8(draw(name)) }
func I64(name string) int64   { return int64(draw(name)) }
func F64(name string) float64 { return math.Float64frombits(draw(name)) }
func Bool(name string) bool   { return draw(name)&1 != 0 }
func Int(name string, lo, hi int) int {
	v := int(int64(draw(name)))
	Assume(v >= lo && v <= hi)
	return v
}
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(draw(fmt.Sprintf("%s[%d]", name, i)))
	}
	return r
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose picks one of n alternatives.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(draw(name))
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VVASSUME")
		os.Exit(77)
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VVFAIL " + msg)
		os.Exit(78)
	}
}

// Fail is a failed assertion.
func Fail(msg string) { Assert(false, msg) }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Ite32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// Cover marks a reachable point.
func Cover(name string) {}

// Observe records values compared between engine and native runs.
func Observe(name string, v ...uint64) {
	mu.Lock()
	obs[name] = append(obs[name], v...)
	mu.Unlock()
}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return tier }

// Concrete forks over the values of x.
func Concrete(x uint64) uint64 { return x }

// Symbolic is true under the engine.
func Symbolic() bool  { return false }
func Schedules(d int) {}
func SchedOff(v int)  {}
func SelectAll()      {}
func MapOrder(n int)  {}
func HangCheck()      {}

// Races makes unordered conflicting memory accesses a violation (engine; natively the race detector tells).
func Races() {}

// Untracked switches that off and on for the calling goroutine (natively functions marked norace do).
func Untracked(off bool) {}
func Steps(n int)     {}
func AllocLimit(n int) {}
func Note(v interface{}) {}

// Guarded runs f, which must not reserve more than limit bytes at once.
func Guarded(limit uint64, msg string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > limit {
		Fail(msg)
	}
}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Drain lets background goroutines settle.
func Drain() { time.Sleep(50 * time.Millisecond) }

// LockFree is only decided by the engine.
func LockFree(l interface{}) bool { return true }

// HeldLocks counts locks held anywhere (engine only).
func HeldLocks() int { return 0 }

// LiveGoroutines counts unfinished goroutines (engine only).
func LiveGoroutines() int { return 0 }
