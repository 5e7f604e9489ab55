package radix

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	satomic "sync/atomic"
	"testing"
	"time"
)

// The code under test takes its atomic operations from here (see demo.sh): a held goroutine stops before one of them.
var atomic stepping

type stepping struct{}

var held int32     // number of running goroutines that are to stop
var holds sync.Map // goroutine -> *hold

type hold struct {
	left   int
	paused chan bool
	resume chan bool
	done   chan bool
}

func goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id, _ := strconv.Atoi(string(bytes.Fields(b[:n])[1]))
	return id
}

func pause() {
	if satomic.LoadInt32(&held) == 0 {
		return
	}
	x, ok := holds.Load(goid())
	if !ok {
		return
	}
	h := x.(*hold)
	if h.left--; h.left == 0 {
		satomic.AddInt32(&held, -1)
		close(h.paused)
		<-h.resume
		satomic.AddInt32(&held, 1)
	}
}

// start runs f in a goroutine of its own, which stops before its k-th atomic operation. It returns when f has stopped or ended.
func start(t *testing.T, k int, f func()) *hold {
	h := &hold{left: k, paused: make(chan bool), resume: make(chan bool), done: make(chan bool)}
	satomic.AddInt32(&held, 1)
	go func() {
		defer close(h.done)
		id := goid()
		holds.Store(id, h)
		defer satomic.AddInt32(&held, -1)
		defer holds.Delete(id)
		caught(t, f)
	}()
	select {
	case <-h.paused:
	case <-h.done:
	case <-time.After(10 * time.Second):
		t.Fatal("an operation is stuck")
	}
	return h
}

// ended tells if f has come to its end without stopping.
func (h *hold) ended() bool {
	select {
	case <-h.done:
		return true
	default:
		return false
	}
}

// finish lets f go on, and waits a moment for its end.
func (h *hold) finish() {
	close(h.resume)
	select {
	case <-h.done:
	case <-time.After(20 * time.Millisecond):
		// it waits for the other one
	}
}

func (h *hold) wait(t *testing.T) {
	select {
	case <-h.done:
	case <-time.After(10 * time.Second):
		t.Fatal("an operation is stuck")
	}
}

// interleave runs two operations with each pair of points where they stop: the first one goes up to its point, the second one
// up to its own, the first one ends, and then the second one.
func interleave(t *testing.T, most int, scene func() (first, second, check func())) {
	for i := 1; i <= most; i++ {
		for j := 1; j <= most && !t.Failed(); j++ {
			first, second, check := scene()
			a := start(t, i, first)
			firstEnded := a.ended()
			b := start(t, j, second)
			secondEnded := b.ended()
			a.finish()
			b.finish()
			a.wait(t)
			b.wait(t)
			caught(t, check)
			if t.Failed() {
				t.Logf("points %d and %d", i, j)
			}
			if secondEnded {
				break
			}
			if firstEnded {
				i = most
			}
		}
	}
}

func (stepping) LoadUint64(p *uint64) uint64           { pause(); return satomic.LoadUint64(p) }
func (stepping) StoreUint64(p *uint64, v uint64)       { pause(); satomic.StoreUint64(p, v) }
func (stepping) AddUint64(p *uint64, d uint64) uint64  { pause(); return satomic.AddUint64(p, d) }
func (stepping) SwapUint64(p *uint64, v uint64) uint64 { pause(); return satomic.SwapUint64(p, v) }
func (stepping) LoadInt64(p *int64) int64              { pause(); return satomic.LoadInt64(p) }
func (stepping) StoreInt64(p *int64, v int64)          { pause(); satomic.StoreInt64(p, v) }
func (stepping) AddInt64(p *int64, d int64) int64      { pause(); return satomic.AddInt64(p, d) }
func (stepping) LoadInt32(p *int32) int32              { pause(); return satomic.LoadInt32(p) }
func (stepping) StoreInt32(p *int32, v int32)          { pause(); satomic.StoreInt32(p, v) }
func (stepping) AddInt32(p *int32, d int32) int32      { pause(); return satomic.AddInt32(p, d) }
func (stepping) LoadUint32(p *uint32) uint32           { pause(); return satomic.LoadUint32(p) }
func (stepping) StoreUint32(p *uint32, v uint32)       { pause(); satomic.StoreUint32(p, v) }
func (stepping) AddUint32(p *uint32, d uint32) uint32  { pause(); return satomic.AddUint32(p, d) }
func (stepping) CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	pause()
	return satomic.CompareAndSwapUint64(p, a, b)
}
func (stepping) CompareAndSwapInt64(p *int64, a, b int64) bool {
	pause()
	return satomic.CompareAndSwapInt64(p, a, b)
}
func (stepping) CompareAndSwapInt32(p *int32, a, b int32) bool {
	pause()
	return satomic.CompareAndSwapInt32(p, a, b)
}
func (stepping) CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	pause()
	return satomic.CompareAndSwapUint32(p, a, b)
}
