prop = "C03"
needs = "a delete prepared at a node of 65 to 127 children whose parent is of variable size, and another change at the parent that completes before the delete is finalized"
breaks = "A delete of one of several leaves locks its node only, although it replaces the reference in the parent: when the parent was copied in between, the delete is stored in the abandoned copy. It reports success, and the key is still found (in memory that has been given up)."
edits = [("delete.go", """				op.count = count
				if !op.lock() {
					runtime.Gosched()
					goto S
				}
				op.kind = deleteLeaf
""", """				op.count = count
				// the parent keeps its children, don't hold it up while copying a large node
				if op.count > 64 {
					op.parent, op.parentGen = 0, 0
				}
				if !op.lock() {
					runtime.Gosched()
					goto S
				}
				op.kind = deleteLeaf
""")]
demo = '''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(2)
		defer s.t.Close()
		a, b := s.alloc(), s.alloc()
		for _, k := range []string{"a1", "a2", "a3", "b1", "b2"} {
			s.put(a, k)
		}
		for i := byte(0); i < 90; i++ {
			s.put(a, string([]byte{'a', 'A' + i, '.'}))
		}
		found, op := a.PrepareDelete([]byte("a2"))
		if !found || s.key(op.Value) != "a2" {
			t.Fatal("a2 not found")
		}
		done := make(chan bool)
		go func() {
			s.put(b, "c1")
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(time.Second):
			// it has to wait
		}
		deleted := op.Finalize()
		<-done
		if _, ok := s.get(a, "a2"); ok && deleted {
			t.Errorf("a2 is still there after its delete")
		}
		s.t.ReleaseAllocator(a)
		s.t.ReleaseAllocator(b)
	})
}
'''
