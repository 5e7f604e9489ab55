prop = "C09"
needs = "an update of the value of the only key of a tree"
breaks = "Storing a new value for the only key is counted as a new key, so Len is too high ever after."
edits = [("update.go", '''			updated = atomic.CompareAndSwapUint64(&op.idx.root, op.currentLeaf, buildNode(0, newNode, 2, prefixLen))
			if updated {
				op.allocator.itemCounter++
			}
		}
		op.idx.unlockRoot()
''', '''			updated = atomic.CompareAndSwapUint64(&op.idx.root, op.currentLeaf, buildNode(0, newNode, 2, prefixLen))
		}
		if updated {
			op.allocator.itemCounter++
		}
		op.idx.unlockRoot()
''')]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(2)
		defer s.t.Close()
		a := s.alloc()
		s.put(a, "one")
		s.put(a, "one")
		s.put(a, "two")
		s.put(a, "two")
		s.t.ReleaseAllocator(a)
		if n := s.t.Len(); n != 2 {
			t.Errorf("%d keys, not 2", n)
		}
	})
}
'''
