prop = "C01"
needs = "a node with a shared prefix of exactly 254 bytes split by a key diverging within the prefix, enough churn for the epoch to advance, and another node of the right size allocated on the recycled space"
breaks = "When a node is split in its prefix, one slot too many is recycled: the space handed out again overlaps the neighbouring node, whose prefix or first child is overwritten. Keys then disappear or are answered with other keys' values."
edits = [("update.go", """		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, 2, op.prefixMismatch))

		op.unlock()
		op.allocator.recycle(op.node, op.count+op.prefixSlots)
""", """		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, 2, op.prefixMismatch))

		op.unlock()
		slots := op.count + (len(op.prefix)+7)>>3
		if len(op.prefix) >= 254 {
			slots++
		}
		op.allocator.recycle(op.node, slots)
""")]
demo = '''
import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(1)
		defer s.t.Close()
		a := s.alloc()
		want := map[string]uint64{}
		put := func(k string) { want[k] = s.put(a, k) }
		del := func(k string) { s.del(a, k); delete(want, k) }
		long := strings.Repeat("x", 254)
		for round := 0; round < 6; round++ {
			for i := 0; i < 300; i++ {
				p := fmt.Sprintf("%05d", i)
				put(p + long + "1")
				put(p + long + "2")
				put(p + long + "3")
			}
			for i := 0; i < 300; i++ {
				// splits the prefix
				put(fmt.Sprintf("%05dxxX", i))
			}
			for i := 0; i < 300; i += 2 {
				del(fmt.Sprintf("%05dxxX", i))
			}
			for i := 0; i < 300; i++ {
				put(fmt.Sprintf("%05d%s4", i, long))
				put(fmt.Sprintf("%05d%s5", i, long))
			}
			for k, v := range want {
				if got, ok := s.get(a, k); !ok || got != v {
					t.Fatalf("round %d: %s holds %d %v, not %d", round, k, got, ok, v)
				}
			}
			for k := range want {
				del(k)
			}
		}
		s.t.ReleaseAllocator(a)
	})
}
'''
