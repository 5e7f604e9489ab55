prop = "C12"
needs = "an iteration that comes to a single leaf through an allocator which is not used again for a long time, while another one is used for many changes"
breaks = "An iteration that ends at a single leaf keeps its epoch reserved, so nothing removed later is reused until the same allocator begins another operation."
edits = [("iterator.go", """	if isLeaf(raw) {
		alloc.endOp()
		i.idx.ReleaseAllocator(alloc)
""", """	if isLeaf(raw) {
		i.idx.ReleaseAllocator(alloc)
""")]
demo = '''
import "testing"

func TestDemo(t *testing.T) {
	caught(t, func() {
		s := newStore(2)
		defer s.t.Close()
		a := s.alloc()
		s.put(a, "a1")
		s.put(a, "b1")
		defer func() { s.t.ReleaseAllocator(a) }()
		it := s.t.NewIterator([]byte("a"))
		for it.Next() {
		}
		it.Close()
		size := func() int {
			s.t.ReleaseAllocator(a)
			s.t.Stop()
			n := 0
			for _, b := range s.t.blocks {
				if b != nil {
					n++
				}
			}
			s.t.Start()
			a = s.alloc()
			return n
		}
		churn := func(n int) {
			for i := 0; i < n; i++ {
				s.put(a, "a2")
				s.del(a, "a2")
				if i%10000 == 0 {
					s.keys.Range(func(k, v interface{}) bool {
						if v.(string) == "a2" {
							s.keys.Delete(k)
						}
						return true
					})
				}
			}
		}
		churn(50000)
		before := size()
		churn(500000)
		if after := size(); after > before+2 {
			t.Errorf("%d blocks in use, %d before", after, before)
		}
	})
}
'''
