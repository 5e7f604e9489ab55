prop = "C11"
needs = "an insert interrupted between recycling the node it replaces and replacing it; meanwhile the epoch advances and a reader begins, comes to the old node and stops there; then the insert ends and the memory is reused"
breaks = "A node is recycled before it is replaced: its epoch may be older than the reservation of a reader that still gets to it."
edits = [("update.go", """			v := buildNode(byte(op.raw), newNode, op.count+1, len(op.prefix))
			atomic.StoreUint64(op.nodePtr, v)
			op.unlock()
			op.allocator.recycle(op.node, op.count+op.prefixSlots)
			op.allocator.itemCounter++
""", """			v := buildNode(byte(op.raw), newNode, op.count+1, len(op.prefix))
			op.allocator.recycle(op.node, op.count+op.prefixSlots)
			op.allocator.itemCounter++
			atomic.StoreUint64(op.nodePtr, v)
			op.unlock()
""")]
steps = True
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 1; i <= 30; i++ {
		for j := 1; j <= 30 && !t.Failed(); j++ {
			caught(t, func() {
				s := newStore(3)
				a, b, c := s.alloc(), s.alloc(), s.alloc()
				v := s.put(a, "xa")
				s.put(a, "xb")
				s.put(a, "xd")
				s.put(a, "yy1")
				s.put(a, "yy2")
				s.put(a, "yz")
				insert := start(t, i, func() { s.put(a, "xc") })
				// the epoch advances
				for n := 0; n < 600; n++ {
					s.put(c, "yy3")
					s.del(c, "yy3")
				}
				var got uint64
				var ok bool
				read := start(t, j, func() { got, ok = s.get(b, "xa") })
				ended := read.ended()
				insert.finish()
				insert.wait(t)
				for n := 0; n < 20; n++ {
					s.put(a, fmt.Sprintf("z%02d", n))
				}
				read.finish()
				read.wait(t)
				if !ok || got != v {
					t.Errorf("xa holds %d %v, not %d (points %d and %d)", got, ok, v, i, j)
				}
				s.t.ReleaseAllocator(a)
				s.t.ReleaseAllocator(b)
				s.t.ReleaseAllocator(c)
				s.t.Close()
				if ended {
					j = 1000
				}
			})
		}
	}
}
'''
