prop = "C17"
needs = "an update of a key in a node that stores the value it already has"
breaks = "An update that changes nothing is not carried out, and reported as a conflict: without any other writer, the user tries again for ever."
edits = [("update.go", "			updated = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, buildLeaf(op.k, value))\n", "			if leaf := buildLeaf(op.k, value); leaf != op.currentLeaf {\n				updated = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, leaf)\n			}\n")]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	s := newStore(2)
	a := s.alloc()
	s.put(a, "k1")
	s.put(a, "k2")
	found, op := s.prepare(a, "k1")
	if !found || !op.Match {
		t.Fatal("k1 is not there")
	}
	if !op.Finalize(op.Value) {
		t.Error("a conflict without another writer")
	}
}
'''
