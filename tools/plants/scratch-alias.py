prop = "C01"
needs = "a delete that merges a node with its only other child, by a user who reads the key it compares into FetchedKey"
breaks = "The prefix of the merged node is built in the buffer that is handed to the user for the key: writing the key there, as the documentation tells to, changes the prefix."
edits = [("delete.go", "					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)\n", "					op.prefix, _ = appendPrefix(op.FetchedKey[:0], op.data, prefixLen)\n")]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	s := newStore(2)
	a := s.alloc()
	// as the documentation shows
	del := func(key string) {
		found, op := a.PrepareDelete([]byte(key))
		if !found {
			t.Fatal(key, "is not there")
		}
		op.FetchedKey = append(op.FetchedKey[:0], s.key(op.Value)...)
		if string(op.FetchedKey) != key {
			t.Fatal(key, "is not there")
		}
		op.Finalize()
	}
	for n := 0; n < 20; n++ {
		// makes room in FetchedKey
		s.put(a, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz1")
		s.put(a, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz2")
		del("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz2")
		s.put(a, "abcdef-1-x")
		s.put(a, "abcdef-2-ghij-1")
		s.put(a, "abcdef-2-ghij-2")
		del("abcdef-1-x")
		if got, ok := s.t.MinKey([]byte("abcdef-2-gh")); !ok || s.key(got) != "abcdef-2-ghij-1" {
			t.Fatalf("no key with the prefix: %d %v", got, ok)
		}
		v := s.put(a, "abcdef-2-ghij-1")
		if got, ok := s.get(a, "abcdef-2-ghij-1"); !ok || got != v {
			t.Fatalf("%d %v, not %d", got, ok, v)
		}
		del("abcdef-2-ghij-1")
		del("abcdef-2-ghij-2")
	}
}
'''
