package main

import (
	"bytes"
	"sort"
)

// shape is a set of keys, the changes that build a tree of them, and the keys worth playing with.
type shape struct {
	name string
	keys [][]byte
	pre  []int
	hot  []int
	// keys at one node, at its parent, and at its child, if set
	at [3][]int
}

// number gives keys their indices; hot keys first in the arguments are those worth playing with, in is what is there.
func makeShape(name string, hot, ballast [][]byte, in func(k []byte) bool) *shape {
	all := map[string]bool{}
	for _, k := range hot {
		all[string(k)] = true
	}
	for _, k := range ballast {
		all[string(k)] = true
	}
	var ks [][]byte
	for k := range all {
		ks = append(ks, []byte(k))
	}
	ks = keyset(ks)
	s := &shape{name: name, keys: ks}
	idx := map[string]int{}
	for i, k := range ks {
		idx[string(k)] = i + 1
	}
	seen := map[int]bool{}
	for _, k := range hot {
		if i := idx[string(k)]; i > 0 && !seen[i] {
			seen[i] = true
			s.hot = append(s.hot, i)
		}
	}
	sort.Ints(s.hot)
	for i, k := range ks {
		if in(k) {
			s.pre = append(s.pre, i+1)
		}
	}
	return s
}

var shapeNames = []string{"tiny", "pair", "merge", "pair", "deep", "pair", "root", "grow", "pair", "shrink", "pair", "wide", "pair", "tiny", "pair", "merge", "pair", "deep"}

var smallShapes = []string{"tiny", "merge", "deep", "merge", "root", "pairs", "deep", "pairs", "merge", "pairs"}

// pairShape is a node of a certain size with a parent of a certain size, and maybe a child, with a few keys at each of them.
func pairShape(r *rnd, small bool) *shape {
	lens := []int{0, 0, 0, 1, 3, 8, 9}
	ln := func() int {
		if r.n(60) == 0 {
			return 253 + r.n(4)
		}
		return lens[r.n(len(lens))]
	}
	sizes := []int{2, 2, 2, 3, 4, 10, 33, 63, 64, 65, 66, 80, 100, 125, 126, 127, 128, 129, 200, 255}
	psizes := []int{0, 1, 1, 1, 2, 4, 30, 100, 125, 126, 127, 130, 250}
	n, pn := sizes[r.n(len(sizes))], psizes[r.n(len(psizes))]
	if small {
		n, pn = 2+r.n(3), r.n(4)
	}
	sh := &shape{name: "pair"}
	var keys [][]byte
	pre := map[string]bool{}
	var at [3][][]byte
	add := func(level int, k []byte, there bool) {
		keys = append(keys, k)
		if there {
			pre[string(k)] = true
		}
		if level >= 0 {
			at[level] = append(at[level], k)
		}
	}
	// fill puts m leaves below p, all bytes but skip; the first two are worth playing with, and one that is not there
	fill := func(level int, p []byte, m int, skip byte) {
		done := 0
		perm := r.perm(256)
		if r.n(3) == 0 {
			// in the middle of the others
			perm = append([]int{int(skip) ^ 1, int(skip) ^ 255}, perm...)
		}
		seen := map[int]bool{int(skip): true}
		for _, b := range perm {
			if seen[b] {
				continue
			}
			seen[b] = true
			k := cat(p, []byte{byte(b)})
			if done <= m+1 && r.n(3) == 0 {
				k = cat(k, []byte{7, 7})
			}
			switch {
			case done < m && done < 2:
				add(level, k, true)
				if len(k) > len(p)+1 {
					// can be turned into a node
					add(level, cat(p, []byte{byte(b), 7, 8}), false)
				}
			case done < m:
				add(-1, k, true)
			case done <= m+1:
				add(level, k, false)
			default:
				return
			}
			done++
		}
	}
	var path []byte
	if pn > 0 {
		p := bytes.Repeat([]byte{1}, ln())
		b := byte(r.pick(0, 100, 255))
		fill(1, p, pn, b)
		if len(p) > 0 {
			// splits its prefix
			m := r.n(len(p))
			add(1, cat(p[:m], []byte{2}), r.n(6) == 0)
		}
		path = cat(p, []byte{b})
	}
	q := bytes.Repeat([]byte{3}, ln())
	c := byte(r.pick(0, 50, 255))
	if len(q) > 0 {
		m := r.n(len(q))
		add(0, cat(path, q[:m], []byte{4}), r.n(6) == 0)
	}
	child := r.n(2) == 0
	if child {
		fill(0, cat(path, q), n-1, c)
		d := cat(path, q, []byte{c}, bytes.Repeat([]byte{5}, ln()))
		m := 2
		if r.n(4) == 0 && !small {
			m = sizes[r.n(len(sizes))]
		}
		fill(2, d, m, byte(r.u64()))
		if len(d) > len(path)+len(q)+1 {
			add(2, cat(d[:len(d)-1], []byte{6}), false)
		}
	} else {
		fill(0, cat(path, q), n, c)
	}
	all := map[string]bool{}
	for _, k := range keys {
		all[string(k)] = true
	}
	keys = nil
	for k := range all {
		keys = append(keys, []byte(k))
	}
	sh.keys = keyset(keys)
	idx := map[string]int{}
	for i, k := range sh.keys {
		idx[string(k)] = i + 1
	}
	for l := range at {
		for _, k := range at[l] {
			if i := idx[string(k)]; i > 0 {
				sh.at[l] = append(sh.at[l], i)
				sh.hot = append(sh.hot, i)
			}
		}
	}
	sort.Ints(sh.hot)
	for i, k := range sh.keys {
		if pre[string(k)] {
			sh.pre = append(sh.pre, i+1)
		}
	}
	return sh
}

func genShape(r *rnd, name string) *shape {
	if name == "pair" || name == "pairs" {
		return pairShape(r, name == "pairs")
	}
	plen := []int{0, 0, 0, 1, 2, 7, 8, 9, 16}
	pre := func(c byte) []byte {
		n := plen[r.n(len(plen))]
		if r.n(40) == 0 {
			n = 254 + r.n(4)
		}
		return bytes.Repeat([]byte{c}, n)
	}
	half := func(k []byte) bool { return r.n(3) > 0 }
	switch name {
	case "tiny":
		n := 2 + r.n(5)
		al := []byte{1, 2, 3}
		if r.n(3) == 0 {
			al = []byte{0, 0x80, 0xff}
		}
		var ks [][]byte
		for len(ks) < 3*n {
			k := make([]byte, 1+r.n(4))
			for j := range k {
				k[j] = al[r.n(len(al))]
			}
			ks = append(ks, k)
		}
		ks = keyset(ks)
		if len(ks) > n {
			ks = ks[:n]
		}
		if r.n(3) == 0 {
			p := pre(9)
			for i := range ks {
				ks[i] = cat(p, ks[i])
			}
		}
		return makeShape(name, ks, nil, half)
	case "merge":
		// a node of two: a leaf, and a node of two or three
		p, q := pre(5), pre(6)
		hot := [][]byte{cat(p, []byte{1}), cat(p, []byte{2}, q, []byte{1}), cat(p, []byte{2}, q, []byte{2})}
		there := len(hot)
		if r.n(2) == 0 {
			hot = append(hot, cat(p, []byte{2}, q, []byte{3}))
			there += r.n(2)
		}
		if r.n(2) == 0 {
			hot = append(hot, cat(p, []byte{3}))
		}
		if r.n(2) == 0 {
			hot = append(hot, []byte{8})
		}
		if r.n(2) == 0 {
			hot = append(hot, cat(p, []byte{2}, q, []byte{4}, pre(7), []byte{1}), cat(p, []byte{2}, q, []byte{4}, pre(7), []byte{2}))
		}
		if len(q) > 1 && r.n(2) == 0 {
			hot = append(hot, cat(p, []byte{2}, q[:len(q)/2], []byte{1}))
		}
		must := map[string]bool{}
		for _, k := range hot[:there] {
			must[string(k)] = true
		}
		return makeShape(name, hot, nil, func(k []byte) bool { return must[string(k)] || r.n(2) == 0 })
	case "deep":
		// a chain of nodes of two
		n := 3 + r.n(3)
		var hot [][]byte
		var path []byte
		for i := 0; i < n; i++ {
			path = append(path, bytes.Repeat([]byte{2}, r.pick(0, 0, 0, 1, 8))...)
			hot = append(hot, cat(path, []byte{1}))
			path = append(path, 2)
		}
		hot = append(hot, cat(path, []byte{2}))
		return makeShape(name, hot, nil, func(k []byte) bool { return r.n(5) > 0 })
	case "root":
		p := pre(4)
		hot := [][]byte{cat(p, []byte{1}), cat(p, []byte{2}), {7}}
		if r.n(2) == 0 {
			hot = append(hot, cat(p, []byte{3, 1}), cat(p, []byte{3, 2}))
		}
		one := r.n(len(hot) + 2)
		return makeShape(name, hot, nil, func(k []byte) bool { return one < len(hot) && bytes.Equal(k, hot[one]) })
	case "grow", "shrink", "wide":
		p := pre(3)
		var up []byte
		under := r.n(2) == 0
		if under {
			up = pre(2)
			p = cat(up, []byte{100}, p)
		}
		var ks [][]byte
		perm := r.perm(256)
		n := r.pick(125, 126, 127, 128, 130)
		if name == "wide" {
			n = r.pick(3, 4, 5, 10, 17, 33, 63, 64, 65, 66, 70, 80, 100, 120, 124)
		}
		if name == "shrink" {
			n = 128
		}
		for _, b := range perm[:n] {
			ks = append(ks, cat(p, []byte{byte(b)}))
		}
		if r.n(3) == 0 {
			// one of them is a node
			b := ks[len(ks)-1]
			ks = append(ks[:len(ks)-1], cat(b, []byte{1}), cat(b, []byte{2}))
		}
		from := len(ks) - 4 + r.n(2)
		if from < 0 {
			from = 0
		}
		hot := append([][]byte(nil), ks[from:]...)
		hot = append(hot, cat(p, []byte{byte(perm[n])}), cat(p, []byte{byte(perm[n+1]), 1}))
		if r.n(2) == 0 {
			hot = append(hot, cat(hot[len(hot)-1][:len(p)+1], []byte{2}))
		}
		there := map[string]bool{}
		for _, k := range ks {
			there[string(k)] = true
		}
		if r.n(3) == 0 {
			if len(p) > 0 {
				hot = append(hot, []byte{200})
				there[string([]byte{200})] = r.n(2) == 0
			}
		}
		if under {
			// it has a parent with leaves that come and go
			for j, m := 0, 1+r.n(3); j < m; j++ {
				b := cat(up, []byte{byte(r.pick(0, 99, 101, 255) ^ j)})
				if b[len(b)-1] == 100 {
					continue
				}
				hot = append(hot, b)
				there[string(b)] = r.n(3) > 0
			}
		}
		if name == "shrink" {
			s := makeShape(name, hot, ks, func(k []byte) bool { return there[string(k)] })
			isHot := map[int]bool{}
			for _, h := range s.hot {
				isHot[h] = true
			}
			left := len(s.pre)
			to := r.pick(64, 65, 66, 67)
			for i := range s.keys {
				if left > to && there[string(s.keys[i])] && !isHot[i+1] {
					s.pre = append(s.pre, -(i + 1))
					left--
				}
			}
			// forget the deleted ones that are not hot
			return s.forget()
		}
		return makeShape(name, hot, ks, func(k []byte) bool { return there[string(k)] })
	}
	panic(name)
}

// forget is where keys could be dropped from the universe; they are needed to build the tree, so they stay.
func (s *shape) forget() *shape { return s }

func (s *shape) prefix(r *rnd) []byte {
	k := s.keys[s.hot[r.n(len(s.hot))]-1]
	switch r.n(6) {
	case 0, 1:
		return nil
	case 2:
		return append([]byte(nil), k...)
	}
	return append([]byte(nil), k[:r.n(len(k)+1)]...)
}

func (s *shape) probe(r *rnd) []byte {
	k := s.keys[s.hot[r.n(len(s.hot))]-1]
	switch r.n(6) {
	case 0:
		return append([]byte(nil), k[:r.n(len(k)+1)]...)
	case 1:
		return cat(k, []byte{1})
	case 2:
		p := append([]byte(nil), k...)
		p[r.n(len(p))] ^= 1
		return p
	case 3:
		return []byte{byte(r.n(10))}
	}
	return append([]byte(nil), k...)
}

// writes makes n changes to hot keys; few keys if near is set.
func writes(r *rnd, s *shape, n int, aborts bool) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		k := s.hot[r.n(len(s.hot))]
		o := "put"
		if r.n(2) == 0 {
			o = "del"
		}
		if aborts && r.n(2) == 0 {
			o += "a"
		}
		ops = append(ops, Op{O: o, K: k})
	}
	return ops
}

// genScene makes a scene for a property.
func genScene(prop string, r *rnd, name string) *Scene {
	s := genShape(r, name)
	if (prop == "C03" || prop == "C04") && r.n(2) == 0 {
		// keys close to each other
		if len(s.hot) > 3 && s.name != "pair" {
			a := r.n(len(s.hot) - 2)
			s.hot = s.hot[a : a+3]
		}
	}
	sc := &Scene{Keys: s.keys, Pre: s.pre, Hot: s.hot, Tag: s.name, Level: 1, Own: r.n(3) == 0}
	n := 2
	if r.n(4) == 0 {
		n = 3
	}
	for t := 0; t < n; t++ {
		sc.Threads = append(sc.Threads, writes(r, s, 1+r.n(2+r.n(2)), false))
	}
	if s.name == "pair" && r.n(8) > 0 {
		// each of them changes something at one of the nodes
		for t := range sc.Threads {
			l := r.pick(0, 0, 1, 1, 2)
			if t == n-1 {
				l = 0
			}
			if len(s.at[l]) == 0 {
				l = 0
			}
			ops := sc.Threads[t]
			if r.n(3) > 0 {
				ops = ops[:1]
			}
			for j := range ops {
				ops[j].K = s.at[l][r.n(len(s.at[l]))]
			}
			sc.Threads[t] = ops
		}
	}
	reader := func(ops ...Op) {
		sc.Threads[0] = ops
	}
	hot := func() int { return s.hot[r.n(len(s.hot))] }
	switch prop {
	case "C02":
		var ops []Op
		for j := 0; j < 2+r.n(2); j++ {
			ops = append(ops, Op{O: []string{"probe", "probed"}[r.n(2)], P: s.probe(r)})
		}
		reader(ops...)
	case "C03":
		switch r.n(3) {
		case 0:
			reader(Op{O: "get", K: hot()}, Op{O: "get", K: hot()})
		case 1:
			sc.Threads[0] = append(sc.Threads[0], Op{O: "get", K: hot()})
		}
	case "C04":
		k := hot()
		for t := range sc.Threads {
			for j := range sc.Threads[t] {
				if r.n(4) > 0 {
					sc.Threads[t][j].K = k
				}
			}
		}
	case "C05":
		for t := range sc.Threads {
			sc.Threads[t] = writes(r, s, 1+r.n(3), true)
		}
	case "C07":
		ops := []Op{{O: "inew", P: s.prefix(r)}, {O: "next"}}
		if r.n(2) == 0 {
			ops = append(ops, Op{O: "inew", P: s.prefix(r)}, Op{O: "next"})
		}
		reader(ops...)
	case "C08":
		var ops []Op
		for j := 0; j < 1+r.n(2); j++ {
			ops = append(ops, Op{O: []string{"min", "max"}[r.n(2)], P: s.prefix(r)})
		}
		reader(ops...)
	case "C09":
		sc.Own = false
		var ops []Op
		for j := 0; j < 1+r.n(2); j++ {
			if r.n(2) == 0 {
				ops = append(ops, Op{O: "len"})
			} else {
				ops = append(ops, Op{O: "cnt", P: s.prefix(r)})
			}
		}
		reader(ops...)
	case "C16":
		cmd := func() Op {
			switch r.n(8) {
			case 0:
				return Op{O: "stats"}
			case 1, 2, 3:
				return Op{O: "admin", P: []byte("root"), N: r.n(2)}
			case 4:
				if !sc.Own {
					return Op{O: "admin", P: []byte("allocators")}
				}
			}
			line := adminLine(r)
			if sc.Own && line == "allocators" {
				line = "info"
			}
			return Op{O: "admin", P: []byte(line)}
		}
		var ops []Op
		for j := 0; j < 1+r.n(3); j++ {
			ops = append(ops, cmd())
		}
		reader(ops...)
		if n == 3 && r.n(3) == 0 {
			sc.Threads[1] = []Op{cmd(), cmd()}
		}
	case "C17":
		// until they succeed
		sc.Level = 1
		k := hot()
		near := r.n(2) == 0
		for t := range sc.Threads {
			for j := range sc.Threads[t] {
				op := &sc.Threads[t][j]
				op.O = map[string]string{"put": "putr", "del": "delr"}[op.O]
				if near && r.n(3) > 0 {
					op.K = k
				}
			}
		}
	case "C18":
		var ops []Op
		for j := 0; j < 2; j++ {
			switch r.n(5) {
			case 0:
				ops = append(ops, Op{O: []string{"min", "max"}[r.n(2)], P: s.prefix(r)})
			case 1:
				ops = append(ops, Op{O: "cnt", P: s.prefix(r)})
			case 2:
				ops = append(ops, Op{O: "inew", P: s.prefix(r)}, Op{O: "next"})
			default:
				ops = append(ops, Op{O: []string{"probe", "probed"}[r.n(2)], P: s.probe(r)})
			}
		}
		if r.n(3) > 0 {
			reader(ops...)
		}
	case "C11":
		return reuseScene(r, s, sc)
	case "C11e":
		sc = reuseScene(r, s, sc)
		threeParties(r, sc)
	}
	return sc
}

// reuseScene: one thread reads or has something prepared, another makes so many changes that everything given up
// before is reused.
func reuseScene(r *rnd, s *shape, sc *Scene) *Scene {
	hot := func() int { return s.hot[r.n(len(s.hot))] }
	sc.Own = false
	sc.Level = r.pick(1, 2)
	// the keys that are churned: the hot ones, and some with other sizes
	extra := [][]byte{}
	for i := 0; i < 3; i++ {
		p := cat([]byte{byte(220 + i)}, bytes.Repeat([]byte{byte(r.n(250))}, r.pick(0, 1, 7, 8, 9, 17)))
		for j := 0; j < 3+r.n(3); j++ {
			extra = append(extra, cat(p, []byte{byte(10 * j), byte(j)}))
		}
	}
	keys := [][]byte{}
	hotKeys := map[string]bool{}
	for _, h := range s.hot {
		hotKeys[string(s.keys[h-1])] = true
	}
	in := map[string]int{}
	for _, k := range s.pre {
		if k > 0 {
			in[string(s.keys[k-1])] = 1
		} else {
			in[string(s.keys[-k-1])] = -1
		}
	}
	keys = append(keys, s.keys...)
	n := len(keys)
	all := keyset(append(keys, extra...))
	_ = n
	sc.Keys = all
	sc.Pre = nil
	idx := map[string]int{}
	for i, k := range all {
		idx[string(k)] = i + 1
	}
	for _, k := range all {
		if in[string(k)] != 0 {
			sc.Pre = append(sc.Pre, idx[string(k)])
		}
	}
	for _, k := range all {
		if in[string(k)] < 0 {
			sc.Pre = append(sc.Pre, -idx[string(k)])
		}
	}
	sc.Hot = nil
	for k := range hotKeys {
		if i := idx[k]; i > 0 {
			sc.Hot = append(sc.Hot, i)
		}
	}
	sort.Ints(sc.Hot)
	lo, hi := 0, 0
	for i, k := range all {
		if k[0] >= 220 && k[0] < 223 {
			if lo == 0 {
				lo = i + 1
			}
			hi = i + 1
		}
	}
	hot = func() int { return sc.Hot[r.n(len(sc.Hot))] }
	s2 := &shape{keys: all, hot: sc.Hot}
	var ops []Op
	switch r.n(9) {
	case 0, 1:
		ops = []Op{{O: "get", K: hot()}}
	case 2:
		ops = []Op{{O: "inew", P: s2.prefix(r)}, {O: "next"}}
	case 3:
		ops = []Op{{O: []string{"min", "max"}[r.n(2)], P: s2.prefix(r)}}
	case 4:
		ops = []Op{{O: "cnt", P: s2.prefix(r)}}
	case 5:
		ops = []Op{{O: "put", K: hot()}}
	case 6:
		ops = []Op{{O: "del", K: hot()}}
	case 7:
		ops = []Op{{O: "probe", P: s2.probe(r)}}
	case 8:
		ops = []Op{{O: "puta", K: hot()}}
	}
	// the other one changes something near, which gives up memory, and then needs memory
	var w []Op
	small := r.n(3) == 0
	for j := 0; j < 1+r.n(2); j++ {
		w = append(w, writes(r, s2, 1+r.n(2), false)...)
		if small {
			w = append(w, Op{O: "bulk", K: lo, B: hi, N: 10 + r.n(30), V: r.u64() % 1000})
		} else {
			w = append(w, Op{O: "bulk", K: lo, B: hi, N: 2600, V: r.u64() % 1000})
		}
	}
	sc.Threads = [][]Op{ops, w}
	return sc
}

// threeParties: a writer changes something and needs memory afterwards; a reader; and somebody who lets the epochs advance,
// far away from them.
func threeParties(r *rnd, sc *Scene) {
	old := sc.Keys
	// a first byte of its own
	first := -1
	for b := 0; b < 256; b++ {
		used := false
		for _, k := range old {
			used = used || len(k) == 0 || k[0] == byte(b)
		}
		if !used {
			first = b
		}
	}
	if first < 0 {
		return
	}
	p := cat([]byte{byte(first)}, bytes.Repeat([]byte{7}, r.pick(0, 0, 5)))
	var anchors, churn [][]byte
	for j := 0; j < 3; j++ {
		anchors = append(anchors, cat(p, []byte{0, byte(j)}))
	}
	anchors = append(anchors, cat(p, []byte{9}))
	for j := 3; j < 6; j++ {
		churn = append(churn, cat(p, []byte{0, byte(j)}))
	}
	all := append(append(append([][]byte{}, old...), anchors...), churn...)
	sc.Keys = keyset(all)
	idx := map[string]int{}
	for i, k := range sc.Keys {
		idx[string(k)] = i + 1
	}
	at := func(i int) int {
		if i < 0 {
			return -idx[string(old[-i-1])]
		}
		return idx[string(old[i-1])]
	}
	for i := range sc.Pre {
		sc.Pre[i] = at(sc.Pre[i])
	}
	for _, k := range anchors {
		sc.Pre = append(sc.Pre, idx[string(k)])
	}
	for i := range sc.Hot {
		sc.Hot[i] = at(sc.Hot[i])
	}
	lo, hi := 0, 0
	for _, ops := range sc.Threads {
		for j := range ops {
			if ops[j].K > 0 {
				ops[j].K = at(ops[j].K)
			}
			if ops[j].B > 0 {
				ops[j].B = at(ops[j].B)
				lo, hi = ops[j].K, ops[j].B
			}
		}
	}
	in := map[int]bool{}
	for _, k := range sc.Pre {
		if k > 0 {
			in[k] = true
		} else {
			delete(in, -k)
		}
	}
	op := sc.Threads[1][0]
	op.O = "put"
	if in[op.K] && r.n(8) > 0 {
		op.O = "del"
	}
	if len(sc.Hot) > 0 && r.n(2) == 0 {
		// something near to it is asked for
		sc.Threads[0] = []Op{{O: "get", K: sc.Hot[r.n(len(sc.Hot))]}}
	}
	w := []Op{op, {O: "bulk", K: lo, B: hi, N: 10 + r.n(40), V: r.u64() % 1000}}
	c := []Op{{O: "bulk", K: idx[string(churn[0])], B: idx[string(churn[2])], N: 1100, A: 1}}
	sc.Threads = [][]Op{sc.Threads[0], w, c}
	sc.Own = r.n(4) > 0
	sc.Level = 1
	sc.Three = true
	sc.Tag += ", three"
}
