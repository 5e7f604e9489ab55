prop = "C16"
needs = "an allocator through which more keys were deleted than inserted since its last flush, then FlushStats and Stats"
breaks = "FlushStats only reports growth: after deletions the number of objects in Stats stays too high."
edits = [("allocator.go", "	atomic.AddInt64(&a.idx.liveObjects, a.itemCounter)\n", "	if a.itemCounter <= 0 {\n		// nothing to add\n		return\n	}\n	atomic.AddInt64(&a.idx.liveObjects, a.itemCounter)\n")]
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	s := newStore(2)
	a, b := s.alloc(), s.alloc()
	for i := 0; i < 10; i++ {
		s.put(a, fmt.Sprintf("k%d", i))
	}
	a.FlushStats()
	for i := 0; i < 4; i++ {
		s.del(b, fmt.Sprintf("k%d", i))
	}
	b.FlushStats()
	m := map[string]interface{}{}
	s.t.Stats(m)
	if n := m["objects_approx"].(int64); n != 6 {
		t.Errorf("%d objects, not 6", n)
	}
}
'''
