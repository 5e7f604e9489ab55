prop = "C01"
needs = "a shared prefix of exactly 255 bytes at a node which then grows or shrinks by one child, and a further node allocated right after it"
breaks = "A copy of a node with a prefix of exactly 255 bytes is allocated without the slot for the prefix length: the next node allocated overwrites its last child, so one key under the prefix is lost or answered with garbage."
edits = [("radix.go", """func (idx *Tree) allocateNode(a *Allocator, count int, prefixLen int) (n uint64, data []uint64) {
	prefixSlots := (prefixLen + 7) >> 3
	if prefixLen >= 255 {
""", """func (idx *Tree) allocateNode(a *Allocator, count int, prefixLen int) (n uint64, data []uint64) {
	prefixSlots := (prefixLen + 7) >> 3
	if prefixLen > 255 {
""")]
demo = '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		for l := 250; l < 260; l++ {
			s := newStore(1)
			a := s.alloc()
			p := strings.Repeat("x", l)
			keys := []string{}
			for _, c := range []string{"a", "b", "c", "d"} {
				keys = append(keys, p+c)
				keys = append(keys, "q"+c)
			}
			want := map[string]uint64{}
			for _, k := range keys {
				want[k] = s.put(a, k)
			}
			for k, v := range want {
				if got, ok := s.get(a, k); !ok || got != v {
					t.Errorf("shared prefix of %d bytes: %s holds %d %v, not %d", l, k, got, ok, v)
				}
			}
			s.t.ReleaseAllocator(a)
			s.t.Close()
		}
	})
}
'''
