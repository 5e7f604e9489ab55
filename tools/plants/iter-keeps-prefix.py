prop = "C18"
needs = "a user who reuses the slice with the prefix while the iteration goes on, and more items than one batch holds"
breaks = "The iterator keeps the slice it was given as prefix: when the user reuses it for something else, later batches are those of another prefix."
edits = [("iterator.go", "	i.searchPrefix = append(i.searchPrefix[:0], prefix...)\n", "	i.searchPrefix = prefix\n")]
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	s := newStore(2)
	a := s.alloc()
	for i := 0; i < 3000; i++ {
		s.put(a, fmt.Sprintf("a%05d.", i))
		s.put(a, fmt.Sprintf("b%05d.", i))
	}
	s.t.ReleaseAllocator(a)
	p := []byte("a")
	it := s.t.NewIterator(p)
	n := 0
	for it.Next() {
		if k := s.key(it.Value()); k[0] != 'a' {
			t.Fatalf("%s has not the prefix", k)
		}
		p[0] = 'b'
		n++
	}
	if n != 3000 {
		t.Errorf("%d items, not 3000", n)
	}
}
'''
