prop = "C05"
needs = "a delete prepared with a key that ends inside the path of a node (a prefix of present keys), with a pooled operation which deleted something before"
breaks = "The delete operation is aborted with the kind it had when it was used before, and gives up locks it never took: it panics, or leaves a node locked so that later changes to it never complete."
edits = [("delete.go", """		if depth >= len(key) {
			op.kind = notFound
			return false
		}
""", """		if depth >= len(key) {
			return false
		}
""")]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(2)
		defer s.t.Close()
		a := s.alloc()
		for _, k := range []string{"aa", "ab", "ac", "ba", "bb"} {
			s.put(a, k)
		}
		for i := 0; i < 50; i++ {
			s.put(a, "ad")
			if !s.del(a, "ad") {
				t.Error("ad was not there")
			}
			if found, op := a.PrepareDelete([]byte("a")); found {
				op.Abort()
			}
		}
		for _, k := range []string{"aa", "ab", "ac", "ba", "bb"} {
			if !s.del(a, k) {
				t.Errorf("%s is gone", k)
			}
		}
		s.t.ReleaseAllocator(a)
	})
}
'''
