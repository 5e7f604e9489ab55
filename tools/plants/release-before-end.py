prop = "C11"
needs = "a goroutine that takes over the allocator of a finished update and starts reading before the update clears the reservation, and then a long wait in the middle of its read"
breaks = "The allocator is released before its epoch reservation is cleared: the reservation of the next user is cleared instead, and the memory it is reading is reused under it."
edits = [("update.go", """	op.allocator.endOp()
	if op.releaseAlloc {
		op.idx.ReleaseAllocator(op.allocator)
	}
""", """	if op.releaseAlloc {
		op.idx.ReleaseAllocator(op.allocator)
	}
	op.allocator.endOp()
""")]
steps = True
timeout = 200
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	// the update stops at i, the reader at j
	for i := 1; i <= 60; i++ {
		for j := 1; j <= 14 && !t.Failed(); j++ {
			caught(t, func() {
				s := newStore(2)
				w := s.alloc()
				v := s.put(w, "xa")
				s.put(w, "xb")
				update := start(t, i, func() {
					found, op := s.t.PrepareUpdate([]byte("qq"))
					if found {
						panic("qq is not there")
					}
					op.Finalize(s.value("qq"))
				})
				updateEnded := update.ended()
				var got uint64
				var ok bool
				k := []byte("xa")
				// waits for the allocator, unless the update has already given it back
				read := start(t, j, func() { got, ok = s.t.Lookup(k) })
				readEnded := read.ended()
				if !updateEnded {
					update.finish()
				}
				// the node is replaced, and its memory reused
				s.put(w, "xc")
				for n := 0; n < 1200; n++ {
					s.put(w, "yy")
					s.del(w, "yy")
				}
				for n := 0; n < 20; n++ {
					s.put(w, fmt.Sprintf("z%02d", n))
				}
				read.finish()
				read.wait(t)
				update.wait(t)
				if !ok || got != v {
					t.Errorf("xa holds %d %v, not %d (points %d and %d)", got, ok, v, i, j)
				}
				s.t.ReleaseAllocator(w)
				s.t.Close()
				if readEnded {
					j = 1000
				}
				if updateEnded {
					i = 1000
				}
			})
		}
	}
}
'''
