prop = "C14"
needs = "a tree without any block yet (or a destination that fails once) and a failure of just the last byte, which ends the section of an allocator"
breaks = "A failure to write the end of an allocator's section is swallowed: writing the state reports success although the state is incomplete."
edits = [("allocator.go", """	n, err = out.Write([]byte("\\n"))
	if err != nil {
		return n, err
	}
	written += n
""", """	n, _ = out.Write([]byte("\\n"))
	written += n
""")]
demo = '''
import (
	"errors"
	"testing"
)

type limited struct{ left int }

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("no space")
	}
	w.left -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	caught(t, func() {
		for keys := 0; keys < 2; keys++ {
			s := newStore(1)
			if keys > 0 {
				a := s.alloc()
				s.put(a, "k")
				s.t.ReleaseAllocator(a)
			}
			s.t.Stop()
			all := &limited{1 << 40}
			n, err := s.t.WriteState(all)
			if err != nil {
				t.Fatal(err)
			}
			for l := 0; l < n; l++ {
				if _, err := s.t.WriteState(&limited{l}); err == nil {
					t.Errorf("with %d keys and room for %d of %d bytes no error is reported", keys, l, n)
				}
			}
			s.t.Close()
		}
	})
}
'''
