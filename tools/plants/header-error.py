prop = "C14"
needs = "a destination that refuses just the header line of a block, after the metadata and the allocators"
breaks = "Blocks whose header could not be written are left out without a word: writing the state reports success although the saved state is incomplete."
edits = [("state.go", """			if err != nil {
				break
			}
			written += n
			start := time.Now()
""", """			if err != nil && n > 0 {
				break
			}
			written += n
			start := time.Now()
""")]
demo = '''
import (
	"errors"
	"fmt"
	"testing"
)

// limited takes a number of writes and then fails once.
type limited struct{ left int }

func (w *limited) Write(p []byte) (int, error) {
	w.left--
	if w.left == 0 {
		return 0, errors.New("no space")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(2)
		defer s.t.Close()
		a := s.alloc()
		for i := 0; i < 2000; i++ {
			s.put(a, fmt.Sprintf("%06d", i*7))
		}
		for i := 0; i < 900; i++ {
			s.del(a, fmt.Sprintf("%06d", i*14))
		}
		s.t.ReleaseAllocator(a)
		s.t.Stop()
		for n := 1; ; n++ {
			w := &limited{n}
			_, err := s.t.WriteState(w)
			if w.left > 0 {
				break
			}
			if err == nil {
				t.Errorf("the failure of write %d was not reported", n)
			}
		}
	})
}
'''
