prop = "C06"
needs = "an iterator that is given up in the middle of more than 256 items and then used again, through Reset or through the pool"
breaks = "Reset keeps the position to resume from, so the next iteration begins there and leaves out everything before."
edits = [("iterator.go", '''	i.prefetched = i.prefetched[:0]
	i.resumeAt = i.resumeAt[:0]
	i.pp = 0
	i.stack = i.stack[:0]
''', '''	i.prefetched = i.prefetched[:0]
	i.pp = 0
	i.stack = i.stack[:0]
''')]
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		for i := 0; i < 3000; i++ {
			s.put(a, fmt.Sprintf("user/%04d", i))
		}
		s.t.ReleaseAllocator(a)
		it := s.t.NewIterator(nil)
		for i := 0; i < 1000; i++ {
			it.Next()
		}
		it.Reset([]byte("user/0"))
		n := 0
		for it.Next() {
			n++
		}
		it.Close()
		if n != 1000 {
			t.Errorf("%d keys, not 1000", n)
		}
	})
}
'''
