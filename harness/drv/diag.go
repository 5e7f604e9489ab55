package main

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/jayloop/radix"
)

var (
	nodeLine = regexp.MustCompile(`^NODE \d+ \([01]+\): key=(.*), data=\d+, count=(\d+), prefixLen=(\d+)$`)
	leafKid  = regexp.MustCompile(`^\[(.+?)\] LEAF: 0x[0-9a-f]+ \d+ \(value=(\d+)\)$`)
	nodeKid  = regexp.MustCompile(`^\[(.+?)\] NODE: 0x[0-9a-f]+ (\d+) \(`)
)

func shownByte(s string) (int, bool) {
	if len(s) == 3 && s[0] == '\'' && s[2] == '\'' {
		return int(s[1]), true
	}
	b, err := strconv.ParseUint(s, 16, 8)
	return int(b), err == nil
}

var errDump = errors.New("cannot be read")

// dump reads what the admin commands show of the tree: nothing, <<byte, value, <<>>>> for a leaf, <<byte, absent, <<prefix, children>>>> for
// a node.
func (r *run) dump(tree *radix.Tree, left *int, argv ...string) (kid []interface{}, err error) {
	if *left--; *left < 0 {
		return nil, errDump
	}
	var absent interface{} = 0
	if r.sc.Big {
		absent = []int{}
	}
	var out bytes.Buffer
	tree.Admin(&out, argv)
	r.touch()
	if out.String() == "Index is empty\n" {
		return nil, nil
	}
	text := strings.TrimSuffix(out.String(), "\n")
	if m := leafKid.FindStringSubmatch(text); m != nil && !strings.HasPrefix(text, "NODE") {
		b, ok := shownByte(m[1])
		v, e := strconv.ParseUint(m[2], 10, 64)
		if !ok || e != nil {
			return nil, errDump
		}
		return []interface{}{b, r.st.val(v), []int{}}, nil
	}
	end := strings.Index(text, "\n")
	if end < 0 {
		return nil, errDump
	}
	m := nodeLine.FindStringSubmatch(text[:end])
	if m == nil {
		return nil, errDump
	}
	key, ok := shownByte(m[1])
	plen, e := strconv.Atoi(m[3])
	if !ok || e != nil {
		return nil, errDump
	}
	text = text[end+1:]
	var lines []string
	prefix := ""
	if plen > 0 {
		if !strings.HasPrefix(text, "Prefix: ") {
			return nil, errDump
		}
		text = text[len("Prefix: "):]
		// the prefix may have newlines itself: the children are the lines at the end
		for {
			i := strings.LastIndex(text, "\n")
			if i < 0 {
				break
			}
			l := text[i+1:]
			if leafKid.MatchString(l) || nodeKid.MatchString(l) {
				lines = append([]string{l}, lines...)
				text = text[:i]
				if plen < 255 && len(text) == plen {
					break
				}
				continue
			}
			break
		}
		prefix = text
	} else {
		lines = strings.Split(text, "\n")
	}
	kids := []interface{}{}
	for _, l := range lines {
		if m := leafKid.FindStringSubmatch(l); m != nil {
			b, ok := shownByte(m[1])
			v, e := strconv.ParseUint(m[2], 10, 64)
			if !ok || e != nil {
				return nil, errDump
			}
			kids = append(kids, []interface{}{b, r.st.val(v), []int{}})
			continue
		}
		m := nodeKid.FindStringSubmatch(l)
		if m == nil {
			return nil, errDump
		}
		b, ok := shownByte(m[1])
		if !ok {
			return nil, errDump
		}
		kid, err := r.dump(tree, left, "node", m[2])
		if err != nil {
			return nil, err
		}
		if len(kid) != 3 || kid[0] != b {
			return nil, errDump
		}
		kids = append(kids, kid)
	}
	return []interface{}{key, absent, []interface{}{ints([]byte(prefix)), kids}}, nil
}

// diag holds the steps that are about the diagnostics.
func (r *run) diag(t int, op Op) bool {
	tree := r.trees[t]
	switch op.O {
	case "stats":
		// N=1: all allocators have handed over their counts before
		if op.N == 1 {
			r.releaseAll(t)
			var as []*radix.Allocator
			for i := 0; i < r.sc.Allocs; i++ {
				a := tree.GetAllocator()
				a.FlushStats()
				as = append(as, a)
			}
			for _, a := range as {
				tree.ReleaseAllocator(a)
			}
		}
		s := map[string]interface{}{"mine": 1}
		tree.Stats(s)
		num := func(k string) int {
			switch v := s[k].(type) {
			case int:
				return v
			case int64:
				return int(v)
			case uint64:
				return int(v)
			}
			return -1
		}
		per := -1
		if f, ok := s["bytes_per_key"].(float64); ok {
			per = int(f)
		}
		empty := num("root_node") == 0
		r.add("stats", t, num("allocators"), num("blocks_allocated"), num("bytes_allocated"), num("block_size"), num("objects_approx"), op.N == 1, per, empty,
			num("mine"))
	case "tables":
		// rows of the tables
		rows := func(arg string) (n, first int) {
			var out bytes.Buffer
			tree.Admin(&out, []string{arg})
			for _, l := range strings.Split(out.String(), "\n") {
				l = strings.TrimSpace(l)
				switch {
				case arg == "blocks" && strings.HasSuffix(l, "in use"):
					first++
					n++
				case arg == "blocks" && strings.HasSuffix(l, "allocated"):
					n++
				case arg == "allocators" && strings.HasPrefix(l, "Allocator "):
					n++
					if strings.Contains(l, " EMPTY ") {
						first++
					}
				}
			}
			return
		}
		s := map[string]interface{}{}
		tree.Stats(s)
		b1, _ := s["blocks_allocated"].(int)
		n, inUse := rows("blocks")
		tree.Stats(s)
		b2, _ := s["blocks_allocated"].(int)
		r.add("blocks", t, b1, b2, n, inUse)
		r.releaseAll(t)
		n, _ = rows("allocators")
		r.add("allocators", t, n)
	case "dump":
		left := 4*len(r.sc.Keys) + 10
		d, err := r.dump(tree, &left, "root")
		switch {
		case err != nil:
			r.add("dump", t, err.Error(), []int{})
		case d == nil:
			r.add("dump", t, "ok", []int{})
		default:
			r.add("dump", t, "ok", d)
		}
	case "admin":
		var out bytes.Buffer
		argv := strings.Fields(string(op.P))
		if len(argv) > 0 && argv[0] == "allocators" {
			r.releaseAll(t)
		}
		tree.Admin(&out, argv)
		r.add("admin", t, string(op.P), out.Len() > 0)
	default:
		return false
	}
	return true
}

// diagScript asks for the diagnostics all the time.
func diagScript(r *rnd, i int) *Script {
	kinds := []string{"fan", "prefix", "alpha", "mix", "int"}
	kind := kinds[i%len(kinds)]
	n := r.pick(1, 2, 3, 5, 8, 12, 20, 40, 80)
	if kind == "fan" {
		n = r.pick(4, 70, 130, 150)
	}
	sc := &Script{Allocs: 1 + r.n(4), NT: 1, Tag: "diagnostics, " + kind, Big: r.n(3) == 0}
	sc.Keys = genKeys(r, kind, n)
	if len(sc.Keys) == 0 {
		sc.Keys = [][]byte{{1}}
	}
	saves := r.n(3) == 0
	if saves {
		sc.NT, sc.NB = 2, 1
	}
	w := walk(r, sc.Keys, 60+r.n(3*n+60), mix{aborts: 2, lens: 1, allocs: r.n(2) == 0}, sc.Allocs)
	every := r.pick(3, 10, 30)
	ask := func(t int) {
		switch r.n(10) {
		case 0, 1:
			sc.Ops = append(sc.Ops, Op{O: "stats", T: t, N: r.n(2)})
		case 2:
			sc.Ops = append(sc.Ops, Op{O: "tables", T: t})
		case 3, 4, 5, 6:
			sc.Ops = append(sc.Ops, Op{O: "dump", T: t})
		default:
			sc.Ops = append(sc.Ops, Op{O: "admin", T: t, P: []byte(adminLine(r))})
		}
	}
	sc.Ops = []Op{{O: "dump"}, {O: "stats", N: 1}, {O: "admin", P: []byte("node 0")}, {O: "tables"}}
	for _, op := range w {
		sc.Ops = append(sc.Ops, op)
		if r.n(every) == 0 {
			ask(1)
		}
	}
	if r.n(2) == 0 {
		sc.Ops = append(sc.Ops, Op{O: "stop"}, Op{O: "dump"}, Op{O: "stats"}, Op{O: "tables"}, Op{O: "admin", P: []byte(adminLine(r))}, Op{O: "len"}, Op{O: "start"})
	}
	if saves {
		sc.Ops = append(sc.Ops, Op{O: "stop"}, Op{O: "save", B: 1}, Op{O: "load", B: 1, T: 2}, Op{O: "dump", T: 2}, Op{O: "stats", T: 2}, Op{O: "tables", T: 2}, Op{O: "start"})
		for j := 0; j < 20; j++ {
			sc.Ops = append(sc.Ops, Op{O: []string{"put", "del"}[r.n(2)], K: 1 + r.n(len(sc.Keys)), T: 2})
			if r.n(4) == 0 {
				ask(2)
			}
		}
		sc.Ops = append(sc.Ops, Op{O: "release", T: 2}, Op{O: "stats", T: 2, N: 1}, Op{O: "dump", T: 2}, Op{O: "gets", T: 2})
	}
	sc.Ops = append(sc.Ops, Op{O: "release"}, Op{O: "stats", N: 1}, Op{O: "dump"}, Op{O: "gets"}, Op{O: "iter"}, Op{O: "len"}, Op{O: "cnt"})
	return sc
}

// adminLine makes a command, of which most are nonsense.
func adminLine(r *rnd) string {
	switch r.n(12) {
	case 0:
		return ""
	case 1:
		return "info"
	case 2:
		return "allocators"
	case 3:
		return "root"
	case 4:
		return []string{"help", "node", "node 1 2", "node x", "node -1", "node 99999999999999999999999", "blocks 7", "info x"}[r.n(8)]
	case 5:
		return "blocks"
	case 6:
		// a small id
		return fmt.Sprint("node ", r.n(1<<20))
	case 7:
		// something near the beginning of block 0
		return fmt.Sprint("node ", uint64(r.n(256))<<56|uint64(r.pick(0, 1, 8, 9, 254, 255, r.n(256)))<<48|uint64(r.n(3000))<<9|uint64(r.n(256)))
	case 8:
		// near the end of block 0, or of some other
		return fmt.Sprint("node ", uint64(r.n(256))<<56|uint64(r.pick(0, 1, 8, 9, 254, 255, r.n(256)))<<48|uint64(r.pick(1, 1, 2, 3)<<18-1-r.n(300))<<9)
	case 9:
		return fmt.Sprint("node ", uint64(r.n(256))<<56|uint64(r.n(256))<<48|uint64(r.pick(65535, 65536, 65537, r.n(1<<21)))<<(18+9))
	default:
		return fmt.Sprint("node ", r.u64())
	}
}
