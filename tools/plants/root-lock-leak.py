prop = "C05"
needs = "a tree with no or a single key, and an operation that has read the root while another one replaces it, before it takes the lock of the root"
breaks = "The lock of the root is kept when the root turns out to have changed: from then on no operation on a tree with a single key, or none, ever completes."
edits = [("locks.go", """	if atomic.LoadUint64(&idx.root) != expectedValue {
		atomic.AddInt32(&idx.rootLeafLock, -1)
		return false
	}
""", """	if atomic.LoadUint64(&idx.root) != expectedValue {
		return false
	}
""")]
demo = '''
import (
	"runtime"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := newStore(8)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := s.alloc()
			defer s.t.ReleaseAllocator(a)
			for i := 0; i < 300000; i++ {
				if i%2 == 0 {
					s.put(a, "k")
				} else {
					s.del(a, "k")
				}
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Errorf("stuck")
	}
}
'''
