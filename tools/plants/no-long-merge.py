prop = "C10"
needs = "a delete at a node with two children, the other one a node, where the joined prefix would take 64 bytes or more"
breaks = "The node is left with a single child instead of being merged with it: the tree keeps more nodes than its keys need, and its shape depends on its history."
edits = [("delete.go", """				if count == 2 {
					otherChildPtr := &data[1-op.leafPosition]
					otherChild := atomic.LoadUint64(otherChildPtr)

					if isLeaf(otherChild) {
""", """				otherChildPtr := &data[0]
				otherChild := uint64(0)
				if count == 2 {
					otherChildPtr = &data[1-op.leafPosition]
					otherChild = atomic.LoadUint64(otherChildPtr)
				}
				// merging is not worth it when it means copying a long prefix
				if count == 2 && (isLeaf(otherChild) || op.prefixLen+int(byte(otherChild>>prefixShift)) < 64) {
					if isLeaf(otherChild) {
""")]
demo = '''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		for l := 1; l < 140; l++ {
			p, q := strings.Repeat("p", l), strings.Repeat("q", l)
			one, two := newStore(1), newStore(1)
			a := one.alloc()
			one.put(a, p+"A"+q+"1")
			one.put(a, p+"A"+q+"2")
			one.put(a, p+"B")
			one.del(a, p+"B")
			one.t.ReleaseAllocator(a)
			b := two.alloc()
			two.put(b, p+"A"+q+"1")
			two.put(b, p+"A"+q+"2")
			two.t.ReleaseAllocator(b)
			n1, l1 := one.t.Count(nil)
			n2, l2 := two.t.Count(nil)
			if n1 != n2 || l1 != l2 {
				t.Errorf("prefixes of %d bytes: %d nodes and %d leaves after a delete, but %d and %d without it", l, n1, l1, n2, l2)
				return
			}
			one.t.Close()
			two.t.Close()
		}
	})
}
'''
