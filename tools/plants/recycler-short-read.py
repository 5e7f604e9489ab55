prop = "C13"
needs = "a state with removed nodes in its recycling lists, loaded through a reader that hands out its data in pieces"
breaks = "Entries of the recycling lists are read with Read in place of ReadFull: with a reader that returns fewer bytes at the end of a piece, the entry is broken and the rest is out of step."
edits = [("allocator.go", "				_, err := io.ReadFull(reader, buf[:])\n", "				_, err := reader.Read(buf[:])\n")]
demo = '''
import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"testing/iotest"
)

func TestDemo(t *testing.T) {
	_ = io.EOF
	s := newStore(1)
	a := s.alloc()
	want := map[string]uint64{}
	for i := 0; i < 300; i++ {
		k := fmt.Sprintf("k%03d", i*7%300)
		want[k] = s.put(a, k)
	}
	s.t.ReleaseAllocator(a)
	s.t.Stop()
	var out bytes.Buffer
	if _, err := s.t.WriteState(&out); err != nil {
		t.Fatal(err)
	}
	tr, err := NewTreeFromState(iotest.HalfReader(bytes.NewReader(out.Bytes())))
	if err == nil {
		tr2, err2 := NewTreeFromState(iotest.OneByteReader(bytes.NewReader(out.Bytes())))
		if err2 != nil {
			t.Fatal(err2)
		}
		for _, tr := range []*Tree{tr, tr2} {
			tr.Start()
			s.t = tr
			for k, v := range want {
				if got, ok := tr.Lookup([]byte(k)); !ok || got != v {
					t.Fatalf("%s is %d %v, not %d", k, got, ok, v)
				}
			}
			a := s.alloc()
			for i := 0; i < 300; i++ {
				k := fmt.Sprintf("n%03d", i)
				want[k] = s.put(a, k)
			}
			s.t.ReleaseAllocator(a)
			for k, v := range want {
				if got, ok := tr.Lookup([]byte(k)); !ok || got != v {
					t.Fatalf("%s is %d %v, not %d", k, got, ok, v)
				}
				if k[0] == 'n' {
					delete(want, k)
				}
			}
		}
	} else {
		t.Fatal(err)
	}
}
'''
