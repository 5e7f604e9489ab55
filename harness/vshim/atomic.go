// Code generated; wrappers for sync/atomic and friends.
package vshim

import (
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func LoadInt32(p *int32) int32          { point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	point()
	return atomic.CompareAndSwapInt32(p, o, v)
}
func AddInt32(p *int32, d int32) int32  { point(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32  { point(); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32   { point(); return atomic.OrInt32(p, d) }
func LoadInt64(p *int64) int64          { point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	point()
	return atomic.CompareAndSwapInt64(p, o, v)
}
func AddInt64(p *int64, d int64) int64      { point(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64      { point(); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64       { point(); return atomic.OrInt64(p, d) }
func LoadUint32(p *uint32) uint32           { point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	point()
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AddUint32(p *uint32, d uint32) uint32  { point(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32  { point(); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32   { point(); return atomic.OrUint32(p, d) }
func LoadUint64(p *uint64) uint64           { point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	point()
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AddUint64(p *uint64, d uint64) uint64      { point(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64      { point(); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64       { point(); return atomic.OrUint64(p, d) }
func LoadUintptr(p *uintptr) uintptr            { point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	point()
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AddUintptr(p *uintptr, d uintptr) uintptr         { point(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr         { point(); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr          { point(); return atomic.OrUintptr(p, d) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	point()
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { point(); return x.v.CompareAndSwap(o, v) }
func (x *Int32) Add(d int32) int32              { point(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { point(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { point(); return x.v.Or(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { point(); return x.v.CompareAndSwap(o, v) }
func (x *Int64) Add(d int64) int64              { point(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { point(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { point(); return x.v.Or(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { point(); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) Add(d uint32) uint32             { point(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { point(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { point(); return x.v.Or(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { point(); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) Add(d uint64) uint64             { point(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { point(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { point(); return x.v.Or(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { point(); return x.v.CompareAndSwap(o, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { point(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr            { point(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { point(); return x.v.Or(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { point(); return x.v.CompareAndSwap(o, v) }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { point(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { point(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v interface{}) bool { point(); return x.v.CompareAndSwap(o, v) }

// Mutex waits by yielding to the scheduler.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	point()
	if Managed() < 0 {
		m.mu.Lock()
		return
	}
	for !m.mu.TryLock() {
		yield()
	}
}
func (m *Mutex) TryLock() bool { point(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { point(); m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	point()
	if Managed() < 0 {
		m.mu.Lock()
		return
	}
	for !m.mu.TryLock() {
		yield()
	}
}
func (m *RWMutex) RLock() {
	point()
	if Managed() < 0 {
		m.mu.RLock()
		return
	}
	for !m.mu.TryRLock() {
		yield()
	}
}
func (m *RWMutex) TryLock() bool  { point(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { point(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { point(); m.mu.Unlock() }
func (m *RWMutex) RUnlock()       { point(); m.mu.RUnlock() }

func Gosched() { yield() }

func Sleep(d time.Duration) {
	if Managed() < 0 {
		time.Sleep(d)
		return
	}
	yield()
}
