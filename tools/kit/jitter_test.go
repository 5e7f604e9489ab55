package radix

import (
	"runtime"
	satomic "sync/atomic"
	"time"
)

// The code under test takes its atomic operations from here (see demo.sh): they now and then let others go first.
var atomic jitter

type jitter struct{}

var jitterOn int32
var jitterState uint64

func pause() {
	if satomic.LoadInt32(&jitterOn) == 0 {
		return
	}
	x := satomic.AddUint64(&jitterState, 0x9e3779b97f4a7c15)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	switch {
	case x%16 == 0:
		runtime.Gosched()
	case x%256 == 1:
		for i := x >> 60; i > 0; i-- {
			runtime.Gosched()
		}
	case x%2048 == 2:
		time.Sleep(time.Microsecond)
	}
}

func (jitter) LoadUint64(p *uint64) uint64           { pause(); return satomic.LoadUint64(p) }
func (jitter) StoreUint64(p *uint64, v uint64)       { pause(); satomic.StoreUint64(p, v) }
func (jitter) AddUint64(p *uint64, d uint64) uint64  { pause(); return satomic.AddUint64(p, d) }
func (jitter) SwapUint64(p *uint64, v uint64) uint64 { pause(); return satomic.SwapUint64(p, v) }
func (jitter) LoadInt64(p *int64) int64              { pause(); return satomic.LoadInt64(p) }
func (jitter) StoreInt64(p *int64, v int64)          { pause(); satomic.StoreInt64(p, v) }
func (jitter) AddInt64(p *int64, d int64) int64      { pause(); return satomic.AddInt64(p, d) }
func (jitter) LoadInt32(p *int32) int32              { pause(); return satomic.LoadInt32(p) }
func (jitter) StoreInt32(p *int32, v int32)          { pause(); satomic.StoreInt32(p, v) }
func (jitter) AddInt32(p *int32, d int32) int32      { pause(); return satomic.AddInt32(p, d) }
func (jitter) LoadUint32(p *uint32) uint32           { pause(); return satomic.LoadUint32(p) }
func (jitter) StoreUint32(p *uint32, v uint32)       { pause(); satomic.StoreUint32(p, v) }
func (jitter) AddUint32(p *uint32, d uint32) uint32  { pause(); return satomic.AddUint32(p, d) }
func (jitter) CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	pause()
	return satomic.CompareAndSwapUint64(p, a, b)
}
func (jitter) CompareAndSwapInt64(p *int64, a, b int64) bool {
	pause()
	return satomic.CompareAndSwapInt64(p, a, b)
}
func (jitter) CompareAndSwapInt32(p *int32, a, b int32) bool {
	pause()
	return satomic.CompareAndSwapInt32(p, a, b)
}
func (jitter) CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	pause()
	return satomic.CompareAndSwapUint32(p, a, b)
}
