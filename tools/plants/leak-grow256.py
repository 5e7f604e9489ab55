prop = "C12"
needs = "nodes with a shared prefix that grow past 127 children and shrink again, over and over"
breaks = "When a node becomes a node-256, the slots of its prefix are not given up with it: they leak each time, and with a long shared prefix memory grows without bound under churn."
edits = [("update.go", """			// recycle old node
			op.allocator.recycle(op.node, op.count+op.prefixSlots)
			op.allocator.itemCounter++
			updated = true
		}
""", """			// recycle old node
			op.allocator.recycle(op.node, op.count)
			op.allocator.itemCounter++
			updated = true
		}
""")]
demo = '''
import (
	"strings"
	"testing"
)

func bytesAllocated(s *store) int {
	m := map[string]interface{}{}
	s.t.Stats(m)
	return m["bytes_allocated"].(int)
}

// The same keys come and go, in nodes with a long prefix and up to 140 children.
func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		long := strings.Repeat("p", 240)
		round := func() {
			for g := 0; g < 8; g++ {
				for i := 0; i < 140; i++ {
					s.put(a, string([]byte{byte('A' + g)}) + long + string([]byte{byte(20 + i)}))
				}
			}
			for g := 0; g < 8; g++ {
				for i := 0; i < 140; i++ {
					s.del(a, string([]byte{byte('A' + g)}) + long + string([]byte{byte(20 + i)}))
				}
			}
		}
		for i := 0; i < 100; i++ {
			round()
		}
		before := bytesAllocated(s)
		for i := 0; i < 3000; i++ {
			round()
		}
		after := bytesAllocated(s)
		t.Logf("%d bytes, later %d", before, after)
		if after > before+3<<20 {
			t.Errorf("%d bytes allocated, later %d, for the same keys", before, after)
		}
		s.t.ReleaseAllocator(a)
	})
}
'''
