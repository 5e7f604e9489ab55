// Package vshim replaces sync/atomic, sync.Mutex, runtime.Gosched and time.Sleep in an instrumented copy of the
// code under test, so that a controlled scheduler decides which goroutine makes the next step.
// With no scheduler active every function behaves as the original.
package vshim

import (
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func getg() uintptr

// Decider chooses the next thread. It is called at every scheduling point of the running thread (forced is false), when
// the running thread spins waiting for something (forced is true), and when it ends (done).
type Decider interface {
	Next(s *Sched, cur int, forced bool) int
}

type thread struct {
	id    int
	g     uintptr
	wake  chan struct{}
	ended bool
	spins int
	quiet bool
	steps int
	goid  string

	// detached: blocked in something that is not under our control (a channel, say), back when it reaches a point again
	detached bool
}

type abortSentinel struct{}

// Sched runs a fixed set of functions one step at a time.
type Sched struct {
	Level   int // 1: points at atomic operations, 2: at all statements
	Dec     Decider
	Steps   int
	MaxStep int

	threads []*thread
	cur     *thread
	alive   int
	finish  chan struct{}

	Hung    bool // all threads wait for something that never happens, or a step limit was hit
	Stuck   bool // a thread was blocked outside of the scheduler's control
	aborted int32

	OnPanic func(id int, v interface{})
	Spread  []int // steps made by each thread

	progress uint64
	mu       sync.Mutex
}

var active atomic.Pointer[Sched]

// held is used to stop goroutines not managed by a scheduler before their atomic operations
var (
	heldOn   int32
	heldMu   sync.Mutex
	heldCond = sync.NewCond(&heldMu)
	heldN    int
)

// spinLimit is the number of consecutive yields by all remaining threads taken as a hang
const spinLimit = 400

// IsAbort tells if a recovered panic value was raised by the scheduler to end a thread.
func IsAbort(v interface{}) bool {
	_, ok := v.(abortSentinel)
	return ok
}

// Run runs the functions to completion under the scheduler's control, and reports if all of them completed.
func (s *Sched) Run(fns []func()) bool {
	s.threads = s.threads[:0]
	s.finish = make(chan struct{})
	s.alive = len(fns)
	if s.MaxStep == 0 {
		s.MaxStep = 2000000
	}
	var ready sync.WaitGroup
	for i := range fns {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		ready.Add(1)
		f := fns[i]
		go func() {
			t.g = getg()
			t.goid = goid()
			ready.Done()
			<-t.wake
			defer func() {
				if r := recover(); r != nil && !IsAbort(r) {
					if s.OnPanic != nil {
						s.OnPanic(t.id, r)
					}
					// nothing sensible can happen after a panic in the middle of an operation
					atomic.StoreInt32(&s.aborted, 1)
				}
				s.end(t)
			}()
			if atomic.LoadInt32(&s.aborted) != 0 {
				return
			}
			f()
		}()
	}
	ready.Wait()
	active.Store(s)
	n := s.Dec.Next(s, -1, true)
	s.cur = s.threads[n]
	s.cur.wake <- struct{}{}
	// watch for threads blocked outside of our control
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	last, idle := uint64(1<<63), 0
loop:
	for {
		select {
		case <-s.finish:
			break loop
		case <-tick.C:
			p := atomic.LoadUint64(&s.progress)
			if p == last {
				idle++
			} else {
				idle = 0
			}
			last = p
			if idle == 1 && s.detachBlocked() {
				continue
			}
			if idle > 40 {
				s.Stuck = true
				atomic.StoreInt32(&s.aborted, 1)
				break loop
			}
		}
	}
	active.Store(nil)
	s.Spread = s.Spread[:0]
	for _, t := range s.threads {
		s.Spread = append(s.Spread, t.steps)
	}
	return !s.Hung && !s.Stuck && atomic.LoadInt32(&s.aborted) == 0
}

// goid returns the id of the current goroutine as text.
func goid() string {
	var buf [64]byte
	f := strings.Fields(string(buf[:runtime.Stack(buf[:], false)]))
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

// detachBlocked checks if the current thread is blocked by something else than the scheduler, and lets another one run then.
func (s *Sched) detachBlocked() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.cur
	if t == nil || t.ended || t.detached {
		return false
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	mark := "goroutine " + t.goid + " ["
	i := strings.Index(string(buf), mark)
	if i < 0 {
		return false
	}
	state := string(buf[i+len(mark):])
	state = state[:strings.IndexAny(state, ",]")]
	switch state {
	case "chan receive", "chan send", "select", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "sync.Cond.Wait", "sync.WaitGroup.Wait":
	default:
		return false
	}
	t.detached = true
	any := false
	for _, o := range s.threads {
		if !o.ended && !o.detached {
			any = true
		}
	}
	if !any {
		// nobody left to release it
		t.detached = false
		return false
	}
	n := s.next(t.id, true)
	s.cur = s.threads[n]
	s.cur.wake <- struct{}{}
	return true
}

// next asks the decider, which may only choose among the runnable threads.
func (s *Sched) next(cur int, forced bool) int {
	n := s.Dec.Next(s, cur, forced)
	if s.Runnable(n) {
		return n
	}
	for i := range s.threads {
		if s.Runnable((n + i) % len(s.threads)) {
			return (n + i) % len(s.threads)
		}
	}
	return -1
}

// reattach waits for the turn of a detached thread that has come back.
func (s *Sched) reattach(g uintptr) bool {
	s.mu.Lock()
	var t *thread
	for _, o := range s.threads {
		if o.g == g && o.detached && !o.ended {
			t = o
		}
	}
	if t == nil {
		s.mu.Unlock()
		return false
	}
	t.detached = false
	if s.cur == nil || s.cur.ended {
		// everybody else is gone
		s.cur = t
		s.mu.Unlock()
		return true
	}
	s.mu.Unlock()
	<-t.wake
	if atomic.LoadInt32(&s.aborted) != 0 {
		panic(abortSentinel{})
	}
	return true
}

// Runnable tells if thread i has not ended, and is not blocked by something else.
func (s *Sched) Runnable(i int) bool { return !s.threads[i].ended && !s.threads[i].detached }

// N is the number of threads.
func (s *Sched) N() int { return len(s.threads) }

func (s *Sched) end(t *thread) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t.ended = true
	s.alive--
	if s.alive == 0 {
		close(s.finish)
		return
	}
	for _, o := range s.threads {
		o.spins = 0
	}
	if t.detached {
		// it ended without reaching a point, someone else has the turn
		return
	}
	n := s.next(t.id, true)
	if n < 0 {
		return
	}
	s.cur = s.threads[n]
	s.cur.wake <- struct{}{}
}

func (s *Sched) abort() {
	atomic.StoreInt32(&s.aborted, 1)
	panic(abortSentinel{})
}

func (s *Sched) step(t *thread, forced bool) {
	if atomic.LoadInt32(&s.aborted) != 0 {
		panic(abortSentinel{})
	}
	atomic.AddUint64(&s.progress, 1)
	if t.quiet && !forced {
		return
	}
	s.Steps++
	t.steps++
	if s.Steps > s.MaxStep {
		s.Hung = true
		s.abort()
	}
	if forced {
		t.spins++
		min := t.spins
		for _, o := range s.threads {
			if s.Runnable(o.id) && o.spins < min {
				min = o.spins
			}
		}
		if min > spinLimit {
			s.Hung = true
			s.abort()
		}
	}
	n := s.next(t.id, forced)
	if n == t.id || n < 0 {
		return
	}
	s.mu.Lock()
	o := s.threads[n]
	s.cur = o
	s.mu.Unlock()
	o.wake <- struct{}{}
	<-t.wake
	if atomic.LoadInt32(&s.aborted) != 0 {
		panic(abortSentinel{})
	}
}

// Progress is called by a driver whenever a thread has completed something, so that it does not look as spinning.
func Progress() {
	s := active.Load()
	if s == nil {
		return
	}
	for _, t := range s.threads {
		t.spins = 0
	}
}

// Managed returns the id of the current managed thread, or -1.
func Managed() int {
	s := active.Load()
	if s == nil || s.cur == nil || s.cur.g != getg() {
		return -1
	}
	return s.cur.id
}

// point is called before every atomic operation.
func point() {
	s := active.Load()
	if s == nil {
		if atomic.LoadInt32(&heldOn) != 0 {
			hold()
		}
		return
	}
	t := s.cur
	if t == nil || t.g != getg() {
		if s.reattach(getg()) {
			return
		}
		if atomic.LoadInt32(&heldOn) != 0 {
			hold()
		}
		return
	}
	s.step(t, false)
}

func yield() {
	s := active.Load()
	if s == nil {
		runtime.Gosched()
		return
	}
	t := s.cur
	if t == nil || t.g != getg() {
		runtime.Gosched()
		return
	}
	s.step(t, true)
}

// Quiet turns the scheduling points of the current thread off, and on again. A thread that has to wait still gives way.
func Quiet(on bool) {
	s := active.Load()
	if s == nil || s.cur == nil || s.cur.g != getg() {
		return
	}
	s.cur.quiet = on
}

// Point is a scheduling point for use by drivers.
func Point() { point() }

// Yield gives way to other threads.
func Yield() { yield() }

// Stmt is called before every statement when the instrumentation is on statement level.
func Stmt() {
	s := active.Load()
	if s == nil || s.Level < 2 {
		return
	}
	t := s.cur
	if t == nil || t.g != getg() {
		return
	}
	s.step(t, false)
}

var exempt sync.Map

// Exempt lets the calling goroutine pass HoldOthers.
func Exempt() { exempt.Store(getg(), true) }

// Unexempt ends it.
func Unexempt() { exempt.Delete(getg()) }

func hold() {
	if _, ok := exempt.Load(getg()); ok {
		return
	}
	heldMu.Lock()
	heldN++
	heldCond.Broadcast()
	for atomic.LoadInt32(&heldOn) != 0 {
		heldCond.Wait()
	}
	heldN--
	heldMu.Unlock()
}

// HoldOthers stops every goroutine, except managed and exempted ones, before its next atomic operation.
func HoldOthers() { atomic.StoreInt32(&heldOn, 1) }

// Held is the number of goroutines now stopped.
func Held() int {
	heldMu.Lock()
	defer heldMu.Unlock()
	return heldN
}

// ReleaseOthers lets them go on.
func ReleaseOthers() {
	heldMu.Lock()
	atomic.StoreInt32(&heldOn, 0)
	heldCond.Broadcast()
	heldMu.Unlock()
}
