prop = "C12"
needs = "as many deletes as inserts in every stretch of 1000 recycled nodes, as when a key is inserted and deleted over and over"
breaks = "The epoch only advances when the number of keys has changed: under balanced churn it stands still, no removed memory is ever reused, and memory grows without bound."
edits = [("allocator.go", """	if a.counter >= 1000 {
		atomic.AddUint64(a.globalEpoch, 1)
		a.counter = 0
		a.FlushStats()
	}
""", """	if a.counter >= 1000 {
		a.counter = 0
		if a.itemCounter != 0 {
			atomic.AddUint64(a.globalEpoch, 1)
			a.FlushStats()
		}
	}
""")]
demo = '''
import "testing"

func bytesAllocated(s *store) int {
	m := map[string]interface{}{}
	s.t.Stats(m)
	return m["bytes_allocated"].(int)
}

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		for _, k := range []string{"a1", "a2", "a3", "b"} {
			s.put(a, k)
		}
		for i := 0; i < 300; i++ {
			s.put(a, "a4")
			s.del(a, "a4")
		}
		before := bytesAllocated(s)
		for i := 0; i < 400000; i++ {
			s.put(a, "a4")
			s.del(a, "a4")
		}
		if after := bytesAllocated(s); after > before+4<<20 {
			t.Errorf("%d bytes allocated, later %d, for the same keys", before, after)
		}
		s.t.ReleaseAllocator(a)
	})
}
'''
