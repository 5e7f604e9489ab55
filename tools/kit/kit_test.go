package radix

import (
	"fmt"
	"sync"
	satomic "sync/atomic"
	"testing"
)

// A store keeps the keys the values stand for, as the users of the tree do. Every write takes a new value.
type store struct {
	t    *Tree
	keys sync.Map // value -> key
	next uint64
}

func newStore(allocators int) *store {
	return &store{t: NewTree(&Options{NumAllocators: allocators})}
}

func (s *store) value(key string) uint64 {
	v := satomic.AddUint64(&s.next, 1)
	s.keys.Store(v, key)
	return v
}

func (s *store) key(v uint64) string {
	k, ok := s.keys.Load(v)
	if !ok {
		panic(fmt.Sprintf("value %d was never stored", v))
	}
	return k.(string)
}

// prepare readies an update of the key, up to Finalize.
func (s *store) prepare(a *Allocator, key string) (found bool, op *UpdateOperation) {
	found, op = a.PrepareUpdate([]byte(key))
	if found {
		op.FetchedKey = append(op.FetchedKey[:0], s.key(op.Value)...)
		op.Match = string(op.FetchedKey) == key
	}
	return
}

// put stores a new value for the key and returns it.
func (s *store) put(a *Allocator, key string) uint64 {
	v := s.value(key)
	for {
		if _, op := s.prepare(a, key); op.Finalize(v) {
			return v
		}
	}
}

// del deletes the key, and tells if it was there.
func (s *store) del(a *Allocator, key string) bool {
	for {
		found, op := a.PrepareDelete([]byte(key))
		if !found {
			return false
		}
		if s.key(op.Value) != key {
			op.Abort()
			return false
		}
		if op.Finalize() {
			return true
		}
	}
}

// get looks the key up.
func (s *store) get(a *Allocator, key string) (uint64, bool) {
	v, ok := a.Lookup([]byte(key))
	if !ok {
		return 0, false
	}
	k, known := s.keys.Load(v)
	if !known {
		panic(fmt.Sprintf("value %d was never stored", v))
	}
	return v, k.(string) == key
}

// alloc reserves an allocator.
func (s *store) alloc() *Allocator { return s.t.GetAllocator() }

// caught runs f and makes a failure of a panic in it.
func caught(t *testing.T, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f()
}
