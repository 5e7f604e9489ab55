prop = "C06"
needs = "a node with a prefix of 255 bytes or more within the part of the tree that is iterated over"
breaks = "The iterator takes the mark for long prefixes as their length, and reads the bytes of the prefix as children."
edits = [("iterator.go", """			prefixSlots := ((prefixLen + 7) >> 3)
			if prefixLen == 255 {
				prefixLen = int(data[0])
				prefixSlots = ((prefixLen + 15) >> 3)
			}
			data = data[prefixSlots:]
		}

		// iterate over""", """			data = data[(prefixLen+7)>>3:]
		}

		// iterate over""")]
demo = '''
import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	s := newStore(2)
	a := s.alloc()
	for _, n := range []int{0, 7, 100, 254, 255, 256, 400} {
		for i := 0; i < 5; i++ {
			s.put(a, fmt.Sprintf("%03d%s%d", n, strings.Repeat("x", n), i))
		}
	}
	s.t.ReleaseAllocator(a)
	it := s.t.NewIterator(nil)
	defer it.Close()
	n := 0
	caught(t, func() {
		for it.Next() {
			s.key(it.Value())
			n++
		}
	})
	if n != 35 {
		t.Errorf("%d items, not 35", n)
	}
}
'''
