prop = "C04"
needs = "a tree with a single key: a delete that has read the root but not yet locked it while an update of the key is finalized"
breaks = "The root lock is taken without looking whether the root is still the one that was shown: a delete then removes a value it never showed, and two operations on one stored entry both succeed."
edits = [("locks.go", """	if atomic.LoadUint64(&idx.root) != expectedValue {
		atomic.AddInt32(&idx.rootLeafLock, -1)
		return false
	}
	return true
""", """	return true
""")]
demo = '''
import (
	"runtime"
	"sync"
	"testing"
)

// One key, updated and deleted all the time: every value stored may be replaced or deleted once.
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	caught(t, func() {
		s := newStore(8)
		defer s.t.Close()
		var used sync.Map
		var wg sync.WaitGroup
		var once sync.Once
		stop := make(chan bool)
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				a := s.alloc()
				defer s.t.ReleaseAllocator(a)
				use := func(v uint64, how string) {
					if _, twice := used.LoadOrStore(v, how); twice {
						once.Do(func() { t.Errorf("value %d was replaced or deleted twice", v); close(stop) })
					}
				}
				for i := 0; i < 1500000; i++ {
					if i&1023 == 0 {
						select {
						case <-stop:
							return
						default:
						}
					}
					if g < 4 {
						if found, op := a.PrepareDelete([]byte("k")); found {
							v := op.Value
							if op.Finalize() {
								use(v, "deleted")
							}
						}
						continue
					}
					v := s.value("k")
					found, op := s.prepare(a, "k")
					old := op.Value
					if op.Finalize(v) && found {
						use(old, "replaced")
					}
				}
			}()
		}
		wg.Wait()
	})
}
'''
