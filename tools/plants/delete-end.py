prop = "C02"
needs = "a delete prepared with a key that ends exactly where present keys diverge"
breaks = "A delete prepared with a key that is the common part of present keys panics."
edits = [("delete.go", """		if depth >= len(key) {
			op.kind = notFound
""", """		if depth > len(key) {
			op.kind = notFound
""")]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		for _, k := range []string{"ab1", "ab2", "ac"} {
			s.put(a, k)
		}
		for _, k := range []string{"", "a", "ab", "abc"} {
			if s.del(a, k) {
				t.Errorf("%s was there", k)
			}
		}
		s.t.ReleaseAllocator(a)
	})
}
'''
