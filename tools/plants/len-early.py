prop = "C09"
needs = "an allocator that flushes its counter after Len has begun and before Len gets the allocator"
breaks = "Len reads the shared number of objects before it has all allocators: what an allocator flushes meanwhile is in neither part."
edits = [("radix.go", """	idx.stopLock.Lock()
	defer idx.stopLock.Unlock()
	if !idx.stopped {
		idx.withdrawAllocators()
		defer idx.releaseAllocators()
	}
	count = int(idx.liveObjects)
""", """	count = int(atomic.LoadInt64(&idx.liveObjects))
	idx.stopLock.Lock()
	defer idx.stopLock.Unlock()
	if !idx.stopped {
		idx.withdrawAllocators()
		defer idx.releaseAllocators()
	}
""")]
steps = True
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	got := 0
	interleave(t, 12, func() (first, second, check func()) {
		s := newStore(1)
		a := s.alloc()
		for i := 0; i < 5; i++ {
			s.put(a, fmt.Sprintf("a%d", i))
		}
		s.t.ReleaseAllocator(a)
		return func() { got = s.t.Len() }, func() {
				a := s.alloc()
				a.FlushStats()
				s.t.ReleaseAllocator(a)
			}, func() {
				if got != 5 {
					t.Errorf("Len is %d, not 5", got)
				}
				s.t.Close()
			}
	})
}
'''
