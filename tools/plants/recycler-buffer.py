prop = "C13"
needs = "an allocator with two lists of recycled nodes, the first one longer than the second, when the state is written"
breaks = "The buffer of a longer list is written whole for a shorter one, so that the state has bytes nobody reads after the list: it cannot be loaded, or is loaded with wrong lists."
edits = [("allocator.go", """		if cap(buf) < sz {
			buf = make([]byte, sz)
		} else {
			buf = buf[:sz]
		}
""", """		if len(buf) < sz {
			buf = make([]byte, sz)
		}
""")]
demo = '''
import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		want := map[string]uint64{}
		for i := 0; i < 600; i++ {
			k := fmt.Sprintf("%04d", i)
			want[k] = s.put(a, k)
		}
		for i := 0; i < 40; i++ {
			k := fmt.Sprintf("%04d", i*9)
			s.del(a, k)
			delete(want, k)
		}
		s.t.ReleaseAllocator(a)
		s.t.Stop()
		var state bytes.Buffer
		if _, err := s.t.WriteState(&state); err != nil {
			t.Fatal(err)
		}
		r, err := NewTreeFromState(&state)
		if err != nil {
			t.Fatal(err)
		}
		if r.Len() != len(want) {
			t.Errorf("%d keys, not %d", r.Len(), len(want))
		}
		for k, v := range want {
			if got, ok := r.Lookup([]byte(k)); !ok || got != v {
				t.Errorf("%s holds %d %v, not %d", k, got, ok, v)
				return
			}
		}
		r.Close()
	})
}
'''
