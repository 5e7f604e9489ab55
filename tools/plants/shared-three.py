prop = "C05"
needs = "a delete that merges a node with its child where the child and the parent of the node happen to share a lock, but the node does not"
breaks = "A lock shared by child and parent is taken twice: the delete never gets its locks, and waits for itself for ever."
edits = [("locks.go", """	lock3Unique := (lock3 != lock || block3 != block) && (lock3 != lock2 || block3 != block2)
	if lock3Unique {
		if !atomic.CompareAndSwapInt32""", """	lock3Unique := lock3 != lock2 || block3 != block2
	if lock3Unique {
		if !atomic.CompareAndSwapInt32""")]
timeout = 120
demo = '''
import (
	"fmt"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer close(done)
		caught(t, func() {
			s := newStore(1)
			a := s.alloc()
			const n = 60000
			key := func(i, j int) string { return fmt.Sprintf("%05d-%s", i*7919%n, []string{"a", "b1", "b2"}[j]) }
			// the children are made long after their nodes
			for j := 0; j < 3; j++ {
				for i := 0; i < n; i++ {
					s.put(a, key(i, j))
				}
			}
			for i := 0; i < n; i++ {
				s.del(a, key(i, 0))
			}
			s.t.ReleaseAllocator(a)
			if l := s.t.Len(); l != 2*n {
				t.Errorf("%d keys", l)
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("a delete waits for ever")
	}
}
'''
