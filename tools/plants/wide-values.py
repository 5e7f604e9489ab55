prop = "C01"
needs = "a value of 40 to 55 bits, stored under a key whose leaf is afterwards pushed down by another key or pulled up by the delete of its only sibling"
breaks = "A leaf that moves gets its value through the accessor for node references, which has 39 bits: the upper bits of the value are lost."
edits = [("utils.go", """	return (leaf>>8)<<8 | uint64(key)
""", """	return buildLeaf(key, getNodeValue(leaf))
""")]
demo = '''
import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	caught(t, func() {
		tree := NewTree(&Options{NumAllocators: 2})
		defer tree.Close()
		keys := map[uint64]string{1<<54 | 5: "aab", 1 << 45: "aac", 1<<39 | 7: "aadd", 9: "b"}
		for v, k := range keys {
			for {
				found, op := tree.PrepareUpdate([]byte(k))
				if found {
					other, ok := keys[op.Value]
					if !ok {
						t.Fatalf("a value %d was never stored", op.Value)
					}
					op.FetchedKey = append(op.FetchedKey[:0], other...)
					op.Match = bytes.Equal(op.FetchedKey, []byte(k))
				}
				if op.Finalize(v) {
					break
				}
			}
		}
		for v, k := range keys {
			if got, ok := tree.Lookup([]byte(k)); !ok || got != v {
				t.Errorf("%s holds %d %v, not %d", k, got, ok, v)
			}
		}
	})
}
'''
