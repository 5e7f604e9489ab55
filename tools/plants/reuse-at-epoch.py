prop = "C11"
needs = "a reader in the middle of a node which is replaced and recycled within the same epoch, and a writer that allocates the same size before the reader goes on"
breaks = "Memory retired in the very epoch a reader has reserved is handed out again: the reader goes on in a node that means something else, and reports keys that were not there or fails to see lasting ones."
edits = [("allocator.go", "				if item.e < minReserved {\n", "				if item.e <= minReserved {\n")]
demo = '''
import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Lasting keys stay for the whole time, others come and go in the same nodes. Readers must see each lasting key.
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(16)
	s := newStore(16)
	a := s.alloc()
	lasting := map[string]uint64{}
	for i := 0; i < 400; i++ {
		k := fmt.Sprintf("%02d/%03d/x", i%20, i)
		lasting[k] = s.put(a, k)
	}
	s.t.ReleaseAllocator(a)
	var bad int32
	fail := func(f string, args ...interface{}) {
		if atomic.AddInt32(&bad, 1) == 1 {
			t.Errorf(f, args...)
		}
	}
	end := time.Now().Add(40 * time.Second)
	running := func() bool { return atomic.LoadInt32(&bad) == 0 && time.Now().Before(end) }
	guard := func(f func()) func() {
		return func() {
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			f()
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		g := g
		wg.Add(2)
		go func() {
			defer wg.Done()
			guard(func() {
				a := s.alloc()
				defer s.t.ReleaseAllocator(a)
				for n := 0; running(); n++ {
					// the writers keep to their own keys
					k := fmt.Sprintf("%02d/%03d/%d", n%20, (n*7)%400, g)
					s.put(a, k)
					k = fmt.Sprintf("%02d/w%d%d", n%20, g, n%3)
					s.put(a, k)
					s.del(a, k)
					s.del(a, fmt.Sprintf("%02d/%03d/%d", n%20, (n*7)%400, g))
				}
			})()
		}()
		go func() {
			defer wg.Done()
			guard(func() {
				a := s.alloc()
				defer s.t.ReleaseAllocator(a)
				for running() {
					for k, v := range lasting {
						if got, ok := a.Lookup([]byte(k)); !ok || got != v {
							fail("%s holds %d %v, not %d", k, got, ok, v)
							return
						}
					}
				}
			})()
		}()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			guard(func() {
				for running() {
					it := s.t.NewIterator(nil)
					seen := map[uint64]bool{}
					for it.Next() {
						seen[it.Value()] = true
					}
					it.Close()
					for k, v := range lasting {
						if !seen[v] {
							fail("an iteration did not see %s", k)
							return
						}
					}
				}
			})()
		}()
	}
	wg.Wait()
}
'''
