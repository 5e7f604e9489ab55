prop = "C13"
needs = "an allocator still in block 0 (which begins at the second slot) when the state is saved, and further inserts into the restored tree"
breaks = "The restored allocator takes its block to begin at its first slot, also for block 0: the next node it allocates overlaps the last slot of the node before, and a restored key is lost."
edits = [("allocator.go", """			a.block = int(v)
		case "block_size":
			a.blockSize = v
		case "offset":
			a.offset = v
""", """			a.block = int(v)
			a.offset = v * a.blockSize
		case "block_size":
			a.blockSize = v
""")]
demo = '''
import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		for n := 2; n < 40; n++ {
			s := newStore(1)
			a := s.alloc()
			want := map[string]uint64{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%04d", i)
				want[k] = s.put(a, k)
			}
			s.t.ReleaseAllocator(a)
			s.t.Stop()
			var state bytes.Buffer
			if _, err := s.t.WriteState(&state); err != nil {
				t.Fatal(err)
			}
			r, err := NewTreeFromState(&state)
			if err != nil {
				t.Fatal(err)
			}
			s.t.Close()
			s.t = r
			a = s.alloc()
			for i := 0; i < 40; i++ {
				k := fmt.Sprintf("%04d", i*100+50)
				want[k] = s.put(a, k)
			}
			for k, v := range want {
				if got, ok := s.get(a, k); !ok || got != v {
					t.Errorf("after %d keys: %s holds %d %v, not %d", n, k, got, ok, v)
					return
				}
			}
			s.t.ReleaseAllocator(a)
			r.Close()
		}
	})
}
'''
