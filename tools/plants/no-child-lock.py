prop = "C03"
needs = "a delete that merges a node with its only other child, while a change replaces a node below this child between the copy of its children and the replacement"
breaks = "A merging delete locks the node and its parent, but not the child whose children it copies: a change just below the child is lost."
edits = [("delete.go", """					if !op.lock3() {
						runtime.Gosched()
""", """					if !op.lock() {
						runtime.Gosched()
"""), ("delete.go", """		op.unlock3()
		// recycle the old node and its child node
""", """		op.unlock()
		// recycle the old node and its child node
"""), ("delete.go", """	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
		op.unlock()
	case replaceNodeWithNode:
		op.unlock3()
	}
""", """	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf, replaceNodeWithNode:
		op.unlock()
	}
""")]
steps = True
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	interleave(t, 60, func() (first, second, check func()) {
		s := newStore(3)
		a, b := s.alloc(), s.alloc()
		for _, k := range []string{"a", "b", "cd", "cea", "ceb", "cefa", "cefb"} {
			s.put(a, k)
		}
		var v uint64
		deleted := false
		first = func() { deleted = s.del(a, "cd") }
		second = func() { v = s.put(b, "cefc") }
		check = func() {
			if got, ok := s.get(a, "cefc"); !ok || got != v {
				t.Errorf("cefc holds %d %v, not %d", got, ok, v)
			}
			if _, ok := s.get(a, "cd"); ok || !deleted {
				t.Errorf("cd was not deleted")
			}
			s.t.ReleaseAllocator(a)
			s.t.ReleaseAllocator(b)
			s.t.Close()
		}
		return
	})
}
'''
