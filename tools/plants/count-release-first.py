prop = "C11"
needs = "a writer that takes over the allocator of a Count that is about to end, before the Count clears the reservation; then a long wait in the writer's reading"
breaks = "Count gives its allocator back before it clears the reservation: the reservation of the next user of the allocator is cleared instead."
edits = [("counter.go", "	defer c.idx.ReleaseAllocator(alloc)\n	alloc.startOp()\n	defer alloc.endOp()\n", "	alloc.startOp()\n	defer alloc.endOp()\n	defer c.idx.ReleaseAllocator(alloc)\n")]
steps = True
timeout = 200
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	// the Count stops at i, the reader at j
	for i := 1; i <= 40; i++ {
		for j := 1; j <= 14 && !t.Failed(); j++ {
			caught(t, func() {
				s := newStore(2)
				w := s.alloc()
				v := s.put(w, "xa")
				s.put(w, "xb")
				count := start(t, i, func() { s.t.Count(nil) })
				countEnded := count.ended()
				var got uint64
				var ok bool
				k := []byte("xa")
				// waits for the allocator, unless the Count has already given it back
				read := start(t, j, func() { got, ok = s.t.Lookup(k) })
				readEnded := read.ended()
				if !countEnded {
					count.finish()
				}
				// the node is replaced, and its memory reused
				s.put(w, "xc")
				for n := 0; n < 1200; n++ {
					s.put(w, "yy")
					s.del(w, "yy")
				}
				for n := 0; n < 20; n++ {
					s.put(w, fmt.Sprintf("z%02d", n))
				}
				read.finish()
				read.wait(t)
				count.wait(t)
				if !ok || got != v {
					t.Errorf("xa holds %d %v, not %d (points %d and %d)", got, ok, v, i, j)
				}
				s.t.ReleaseAllocator(w)
				s.t.Close()
				if readEnded {
					j = 1000
				}
				if countEnded {
					i = 1000
				}
			})
		}
	}
}
'''
