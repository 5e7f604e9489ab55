prop = "C15"
needs = "a delete through the tree that finds nothing, and another goroutine that reserves the allocator between the abort of the operation and the second release, with a third one reserving it then"
breaks = "A delete that finds nothing releases its allocator twice. By the second time another goroutine may hold it, which then shares it with a third one."
edits = [("radix.go", """	op = newDeleteOperation(idx, idx.allocators[id], true)
	if op.prepare(key) {
		return true, op
	}
	op.Abort()
	return false, nil
""", """	op = newDeleteOperation(idx, idx.allocators[id], true)
	defer func() {
		// nobody finishes an operation that has found nothing
		if !found {
			idx.allocatorQueue.put(id)
		}
	}()
	if op.prepare(key) {
		return true, op
	}
	op.Abort()
	return false, nil
""")]
steps = True
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	caught(t, func() {
		for k := 1; k < 60 && !t.Failed(); k++ {
			s := newStore(2)
			h := start(t, k, func() { s.t.PrepareDelete([]byte("x")) })
			over := h.ended()
			a := s.alloc()
			h.finish()
			h.wait(t)
			b := s.alloc()
			if a == b {
				t.Errorf("an allocator was reserved twice")
			}
			s.t.ReleaseAllocator(a)
			s.t.ReleaseAllocator(b)
			if over {
				break
			}
		}
	})
}
'''
