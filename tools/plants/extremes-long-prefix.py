prop = "C08"
needs = "a shared prefix of 255 or more bytes at the node the search for the smallest or the largest key comes to"
breaks = "The slot that holds the length of a long prefix is not skipped, so the first child is taken from the prefix and the last child is missed."
edits = [("radix.go", """		var prefixSlots int
		if prefixLen == 255 {
			prefixLen = int(data[0])
			prefixSlots = ((prefixLen + 15) >> 3)
		} else {
			prefixSlots = ((prefixLen + 7) >> 3)
		}
		data = data[prefixSlots:]
	}
	return
}
""", """		if prefixLen == 255 {
			prefixLen = int(data[0])
		}
		prefixSlots := (prefixLen + 7) >> 3
		data = data[prefixSlots:]
	}
	return
}
""")]
demo = '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		long := strings.Repeat("k", 300)
		s.put(a, "a")
		first := s.put(a, "b"+long+"1")
		s.put(a, "b"+long+"2")
		last := s.put(a, "b"+long+"3")
		s.t.ReleaseAllocator(a)
		if v, ok := s.t.MinKey([]byte("b")); !ok || v != first {
			t.Errorf("the first key is %d %v, not %d", v, ok, first)
		}
		if v, ok := s.t.MaxKey([]byte("b")); !ok || v != last {
			t.Errorf("the last key is %d %v, not %d", v, ok, last)
		}
	})
}
'''
