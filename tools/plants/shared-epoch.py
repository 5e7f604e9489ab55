prop = "C19"
needs = "two trees, one of which is busy removing nodes while the other one is not"
breaks = "The epoch is one for all trees: what is done with one tree shows in the statistics of the others."
edits = [("epoch.go", "		globalEpoch:  new(uint64),\n", "		globalEpoch:  &currentEpoch,\n"), ("epoch.go", "type reserveSlot struct {", "// currentEpoch is advanced by the allocators\nvar currentEpoch uint64\n\ntype reserveSlot struct {")]
demo = '''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	quiet, busy := newStore(2), newStore(2)
	epoch := func() uint64 {
		m := map[string]interface{}{}
		quiet.t.Stats(m)
		return m["current_epoch"].(uint64)
	}
	before := epoch()
	a := busy.alloc()
	busy.put(a, "ka")
	busy.put(a, "kb")
	for i := 0; i < 5000; i++ {
		k := fmt.Sprintf("k%d", i%7)
		busy.put(a, k)
		busy.del(a, k)
	}
	if after := epoch(); after != before {
		t.Errorf("the epoch of an untouched tree went from %d to %d", before, after)
	}
}
'''
