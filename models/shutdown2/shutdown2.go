// Package shutdown stands in for github.com/klauspost/shutdown2: stages, notifiers, functions and locks, without
// time outs, signals and logging.
package shutdown

import (
	"os"
	"sync"
	"time"
)

type Stage struct{ n int }

var (
	StagePS = Stage{0}
	Stage1  = Stage{1}
	Stage2  = Stage{2}
	Stage3  = Stage{3}
)

type LogPrinter interface {
	Printf(format string, v ...interface{})
}

var Logger LogPrinter

type Notifier chan chan struct{}

type entry struct {
	n  Notifier
	fn func()
}

var (
	mu       sync.Mutex
	started  bool
	stage    int // 1 + the stage that runs
	queue    [4][]*entry
	finished chan struct{}
	wg       sync.WaitGroup
)

func (s Notifier) cancel() bool {
	mu.Lock()
	defer mu.Unlock()
	for i := range queue {
		for j, e := range queue[i] {
			if e.n == s {
				if started && e.fn == nil {
					return false
				}
				queue[i] = append(queue[i][:j:j], queue[i][j+1:]...)
				return true
			}
		}
	}
	return true
}

func (s Notifier) Cancel() {
	if s != nil && !s.cancel() {
		go func() { close(<-s) }()
	}
}

func (s Notifier) CancelWait() {
	if s != nil && !s.cancel() {
		close(<-s)
	}
}

func reg(st int, fn func()) Notifier {
	mu.Lock()
	defer mu.Unlock()
	if stage > st {
		return nil
	}
	n := make(Notifier, 1)
	queue[st] = append(queue[st], &entry{n: n, fn: fn})
	return n
}

func PreShutdown(ctx ...interface{}) Notifier              { return reg(0, nil) }
func First(ctx ...interface{}) Notifier                    { return reg(1, nil) }
func Second(ctx ...interface{}) Notifier                   { return reg(2, nil) }
func Third(ctx ...interface{}) Notifier                    { return reg(3, nil) }
func PreShutdownFn(fn func(), ctx ...interface{}) Notifier { return reg(0, fn) }
func FirstFn(fn func(), ctx ...interface{}) Notifier       { return reg(1, fn) }
func SecondFn(fn func(), ctx ...interface{}) Notifier      { return reg(2, fn) }
func ThirdFn(fn func(), ctx ...interface{}) Notifier       { return reg(3, fn) }

func Started() bool {
	mu.Lock()
	defer mu.Unlock()
	return started
}

// Lock delays the shutdown until the returned function was called.
func Lock(ctx ...interface{}) func() {
	mu.Lock()
	defer mu.Unlock()
	if started {
		return nil
	}
	wg.Add(1)
	var once sync.Once
	return func() { once.Do(wg.Done) }
}

// Shutdown runs the stages one after another; all notifiers and functions of a stage at the same time.
func Shutdown() {
	mu.Lock()
	if started {
		mu.Unlock()
		Wait()
		return
	}
	started = true
	mu.Unlock()
	wg.Wait()
	for st := 0; st < 4; st++ {
		mu.Lock()
		stage = st + 1
		q := queue[st]
		mu.Unlock()
		var wait []chan struct{}
		for _, e := range q {
			v := make(chan struct{})
			wait = append(wait, v)
			if fn := e.fn; fn != nil {
				go func() {
					defer close(v)
					fn()
				}()
			} else {
				e.n <- v
			}
		}
		for _, v := range wait {
			<-v
		}
	}
	mu.Lock()
	stage = 5
	done := end()
	mu.Unlock()
	close(done)
}

func Exit(code int) {
	Shutdown()
	os.Exit(code)
}

// end is called with mu held. (The package is not initialised.)
func end() chan struct{} {
	if finished == nil {
		finished = make(chan struct{})
	}
	return finished
}

func Wait() {
	mu.Lock()
	done := end()
	mu.Unlock()
	<-done
}

func SetTimeout(time.Duration)              {}
func SetTimeoutN(Stage, time.Duration)      {}
func OnTimeout(func(Stage, string))         {}
func OnSignal(exitCode int, s ...os.Signal) {}
