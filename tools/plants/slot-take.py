prop = "C15"
needs = "two goroutines that see the same allocator free before either has marked it"
breaks = "An allocator is taken by storing the mark instead of exchanging it, so two goroutines may hold the same allocator."
edits = [("slots.go", """			if a == 0 && atomic.CompareAndSwapUint64(&s.slots[i].v, 0, 1) {
				return i
			}
""", """			if a == 0 {
				atomic.StoreUint64(&s.slots[i].v, 1)
				return i
			}
""")]
demo = '''
import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := newStore(4)
	defer s.t.Close()
	var held sync.Map
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000 && atomic.LoadInt32(&bad) == 0; i++ {
				a := s.t.GetAllocator()
				n, _ := held.LoadOrStore(a, new(int32))
				if atomic.AddInt32(n.(*int32), 1) > 1 {
					atomic.AddInt32(&bad, 1)
				}
				atomic.AddInt32(n.(*int32), -1)
				s.t.ReleaseAllocator(a)
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Errorf("an allocator was held twice at a time")
	}
}
'''
