package main

import (
	"bytes"
	"sort"
)

// keyset sorts, and removes keys that are the prefix of another one, and empty ones.
func keyset(in [][]byte) [][]byte {
	sort.Slice(in, func(i, j int) bool { return bytes.Compare(in[i], in[j]) < 0 })
	var out [][]byte
	for i, k := range in {
		if len(k) == 0 {
			continue
		}
		if i+1 < len(in) && bytes.HasPrefix(in[i+1], k) {
			continue
		}
		out = append(out, k)
	}
	return out
}

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

var prefixLens = []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200,
	246, 247, 248, 249, 252, 253, 254, 255, 256, 257, 258, 262, 263, 264, 265, 300, 400, 510, 511, 512, 513, 600}

var fanOuts = []int{2, 3, 4, 5, 8, 30, 62, 63, 64, 65, 66, 67, 100, 125, 126, 127, 128, 129, 130, 131, 160, 200, 254, 255, 256}

var oddBytes = []int{0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff}

// genKeys makes a random prefix-free set of about n keys.
func genKeys(r *rnd, kind string, n int) [][]byte {
	var ks [][]byte
	switch kind {
	case "alpha":
		// short strings over a few letters, so that they collide a lot
		var al []byte
		a := 2 + r.n(3)
		for i := 0; i < a; i++ {
			if r.n(2) == 0 {
				al = append(al, byte(oddBytes[r.n(len(oddBytes))]))
			} else {
				al = append(al, byte(r.u64()))
			}
		}
		for i := 0; i < n; i++ {
			k := make([]byte, 1+r.n(7))
			for j := range k {
				k[j] = al[r.n(len(al))]
			}
			ks = append(ks, k)
		}
	case "prefix":
		// nested groups sharing long prefixes
		for len(ks) < n {
			p := bytes.Repeat([]byte{byte(r.u64())}, prefixLens[r.n(len(prefixLens))])
			if r.n(2) == 0 {
				p = r.bytes(prefixLens[r.n(len(prefixLens))])
			}
			if r.n(4) == 0 && len(ks) > 0 {
				// a prefix that is part of a key already there
				b := ks[r.n(len(ks))]
				p = append([]byte(nil), b[:r.n(len(b)+1)]...)
			}
			m := 1 + r.n(5)
			for i := 0; i < m; i++ {
				q := p
				if r.n(3) == 0 {
					q = cat(p, r.bytes(1), bytes.Repeat([]byte{7}, prefixLens[r.n(len(prefixLens))]))
				}
				for j := 0; j <= r.n(3); j++ {
					ks = append(ks, cat(q, []byte{byte(r.u64())}, r.bytes(r.n(3))))
				}
			}
		}
	case "fan":
		// nodes with many children, below different prefixes
		for len(ks) < n {
			p := r.bytes(prefixLens[r.n(len(prefixLens))])
			c := fanOuts[r.n(len(fanOuts))]
			if c > n {
				c = 2 + r.n(n)
			}
			perm := r.perm(256)
			if r.n(3) == 0 {
				// dense
				for i := range perm {
					perm[i] = i
				}
			}
			for _, b := range perm[:c] {
				k := cat(p, []byte{byte(b)})
				switch r.n(8) {
				case 0:
					ks = append(ks, cat(k, []byte{1}), cat(k, []byte{2}))
				case 1:
					q := cat(k, r.bytes(r.n(12)))
					ks = append(ks, cat(q, []byte{1}), cat(q, []byte{200, 3}))
				case 2:
					ks = append(ks, cat(k, r.bytes(r.n(10))))
				default:
					ks = append(ks, k)
				}
			}
			if r.n(2) == 0 {
				// siblings higher up
				ks = append(ks, r.bytes(1+r.n(4)))
				if len(p) > 1 {
					ks = append(ks, cat(p[:r.n(len(p))], r.bytes(2)))
				}
			}
		}
	case "int":
		// 8 byte numbers, sparse or dense
		step := uint64(1) << uint(r.n(40))
		base := r.u64()
		for i := 0; i < n; i++ {
			v := base + uint64(i)*step
			if r.n(4) == 0 {
				v = r.u64()
			}
			k := make([]byte, 8)
			for j := range k {
				k[j] = byte(v >> uint(56-8*j))
			}
			ks = append(ks, k)
		}
	default:
		m := n/3 + 1
		ks = append(ks, genKeys(r, "alpha", m)...)
		ks = append(ks, genKeys(r, "prefix", m)...)
		ks = append(ks, genKeys(r, "fan", m)...)
	}
	out := keyset(ks)
	if len(out) > n && kind != "fan" {
		// drop some at random
		keep := map[int]bool{}
		for _, i := range r.perm(len(out))[:n] {
			keep[i] = true
		}
		var o [][]byte
		for i, k := range out {
			if keep[i] {
				o = append(o, k)
			}
		}
		out = o
	}
	return out
}

// genPrefix makes a prefix to search for: of a key, near a key, or anything.
func genPrefix(r *rnd, ks [][]byte) []byte {
	k := ks[r.n(len(ks))]
	switch r.n(8) {
	case 0:
		return nil
	case 1:
		return append([]byte(nil), k...)
	case 2:
		return cat(k, r.bytes(1+r.n(3)))
	case 3:
		p := append([]byte(nil), k[:r.n(len(k))+1]...)
		p[len(p)-1] += byte(r.pick(1, 255, 128))
		return p
	case 4:
		return r.bytes(r.n(4))
	default:
		return append([]byte(nil), k[:r.n(len(k)+1)]...)
	}
}

// genProbe makes an arbitrary key.
func genProbe(r *rnd, ks [][]byte) []byte {
	switch r.n(10) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return r.bytes(1 + r.n(3))
	case 3:
		k := append([]byte(nil), ks[r.n(len(ks))]...)
		k[r.n(len(k))] ^= byte(1 << uint(r.n(8)))
		return k
	}
	return genPrefix(r, ks)
}

// mix gives the weights of what a walk does.
type mix struct {
	probes, aborts, iters, exts, counts, lens int // per hundred changes
	steps                                     bool
	allocs                                    bool
}

// audit asks about everything.
func audit(ops []Op, r *rnd, ks [][]byte, deep bool) []Op {
	ops = append(ops, Op{O: "gets"}, Op{O: "iter"}, Op{O: "len"}, Op{O: "cnt"}, Op{O: "min"}, Op{O: "max"})
	if deep {
		for i := 0; i < 6; i++ {
			p := genPrefix(r, ks)
			ops = append(ops, Op{O: "iter", P: p, B: r.n(2)}, Op{O: "cnt", P: p, B: r.n(2)}, Op{O: "min", P: p}, Op{O: "max", P: p})
		}
		for i := 0; i < 6; i++ {
			ops = append(ops, Op{O: "probe", P: genProbe(r, ks), N: r.n(2)})
		}
	}
	return ops
}

// walk makes a history with phases of growing and shrinking.
func walk(r *rnd, ks [][]byte, n int, m mix, allocs int) []Op {
	var ops []Op
	present := map[int]bool{}
	var in, out []int
	for i := range ks {
		out = append(out, i+1)
	}
	al := func() int {
		if m.allocs && allocs > 1 {
			return r.n(allocs)
		}
		return 0
	}
	take := func(s *[]int) int {
		j := r.n(len(*s))
		k := (*s)[j]
		(*s)[j] = (*s)[len(*s)-1]
		*s = (*s)[:len(*s)-1]
		return k
	}
	ordered := 0
	grow := true
	target := len(ks)
	for done := 0; done < n; {
		// a phase
		if grow {
			target = len(in) + 1 + r.n(len(out)+1)
			if r.n(3) == 0 {
				target = len(ks)
			}
		} else {
			target = r.n(len(in) + 1)
			if r.n(3) == 0 {
				target = 0
			}
		}
		ordered = r.n(4)
		for i := 0; i < 3*len(ks)+3 && done < n; i++ {
			if grow && len(in) >= target || !grow && len(in) <= target {
				break
			}
			c := r.n(100)
			switch {
			case c < 12 && len(in) > 0:
				ops = append(ops, Op{O: "put", K: in[r.n(len(in))], A: al()})
			case c < 16:
				ops = append(ops, Op{O: "del", K: 1 + r.n(len(ks)), A: al()})
				k := ops[len(ops)-1].K
				if present[k] {
					present[k] = false
					for j := range in {
						if in[j] == k {
							in[j] = in[len(in)-1]
							in = in[:len(in)-1]
							break
						}
					}
					out = append(out, k)
				}
			case grow && c < 90 || !grow && c < 24:
				if len(out) == 0 {
					continue
				}
				k := take(&out)
				if ordered == 1 {
					// lowest first
					for j := range out {
						if out[j] < k {
							k, out[j] = out[j], k
						}
					}
				}
				ops = append(ops, Op{O: "put", K: k, A: al()})
				in = append(in, k)
				present[k] = true
			default:
				if len(in) == 0 {
					continue
				}
				k := take(&in)
				if ordered == 2 {
					for j := range in {
						if in[j] < k {
							k, in[j] = in[j], k
						}
					}
				} else if ordered == 3 {
					for j := range in {
						if in[j] > k {
							k, in[j] = in[j], k
						}
					}
				}
				ops = append(ops, Op{O: "del", K: k, A: al()})
				out = append(out, k)
				present[k] = false
			}
			done++
			c = r.n(100)
			if c < m.probes {
				if r.n(3) == 0 {
					ops = append(ops, Op{O: "get", K: 1 + r.n(len(ks)), A: al()})
				} else {
					ops = append(ops, Op{O: "probe", P: genProbe(r, ks), N: r.n(2), A: al()})
				}
			}
			if r.n(100) < m.aborts {
				o := "puta"
				if r.n(2) == 0 {
					o = "dela"
				}
				ops = append(ops, Op{O: o, K: 1 + r.n(len(ks)), A: al()})
			}
			if r.n(100) < m.iters {
				if r.n(4) == 0 {
					ops = append(ops, Op{O: "iterp", P: genPrefix(r, ks), N: r.n(len(ks)), B: r.n(2)})
				} else {
					ops = append(ops, Op{O: "iter", P: genPrefix(r, ks), B: r.n(2)})
				}
			}
			if r.n(100) < m.exts {
				p := genPrefix(r, ks)
				ops = append(ops, Op{O: "min", P: p}, Op{O: "max", P: p})
			}
			if r.n(100) < m.counts {
				ops = append(ops, Op{O: "cnt", P: genPrefix(r, ks), B: r.n(2)})
			}
			if r.n(100) < m.lens {
				ops = append(ops, Op{O: "release"}, Op{O: "len"})
			}
		}
		if m.allocs {
			ops = append(ops, Op{O: "release"})
		}
		if r.n(2) == 0 {
			ops = audit(ops, r, ks, true)
		}
		grow = !grow
	}
	ops = append(ops, Op{O: "release"})
	return audit(ops, r, ks, true)
}

// fanScript grows one node and shrinks it again, below a prefix and next to others or not.
func fanScript(r *rnd, prop string) *Script {
	sc := &Script{Allocs: 1 + r.n(3), Tag: "fancycle"}
	p := r.bytes(prefixLens[r.n(len(prefixLens))])
	if r.n(2) == 0 {
		p = r.bytes(r.n(10))
	}
	var ks [][]byte
	c := fanOuts[r.n(len(fanOuts))]
	perm := r.perm(256)
	for _, b := range perm[:c] {
		k := cat(p, []byte{byte(b)})
		switch r.n(12) {
		case 0:
			ks = append(ks, cat(k, []byte{1}), cat(k, []byte{2}))
		case 1:
			ks = append(ks, cat(k, r.bytes(r.n(10))))
		default:
			ks = append(ks, k)
		}
	}
	if len(p) > 0 && r.n(2) == 0 {
		ks = append(ks, []byte{p[0] + 1}, cat([]byte{p[0] + 2}, r.bytes(3)))
	}
	sc.Keys = keyset(ks)
	ops := []Op{}
	n := len(sc.Keys)
	ask := func() {
		q := genPrefix(r, sc.Keys)
		switch prop {
		case "C01":
			ops = append(ops, Op{O: "get", K: 1 + r.n(n)})
		case "C02":
			ops = append(ops, Op{O: "probe", P: genProbe(r, sc.Keys), N: r.n(2)})
		case "C06":
			ops = append(ops, Op{O: "iter", P: q, B: r.n(2)})
		case "C08":
			ops = append(ops, Op{O: "min", P: q}, Op{O: "max", P: q}, Op{O: "min"}, Op{O: "max"})
		case "C09":
			ops = append(ops, Op{O: "len"}, Op{O: "leaves", P: q})
		default:
			ops = append(ops, Op{O: "cnt"})
		}
	}
	for round := 0; round < 1+r.n(2); round++ {
		in := r.perm(n)
		for j, k := range in {
			ops = append(ops, Op{O: "put", K: k + 1})
			if r.n(20) == 0 || (j > 124 && j < 131 && r.n(2) == 0) {
				ask()
			}
		}
		ops = audit(ops, r, sc.Keys, false)
		order := r.perm(n)
		switch r.n(4) {
		case 0:
			for j := range order {
				order[j] = j
			}
		case 1:
			for j := range order {
				order[j] = n - 1 - j
			}
		}
		keep := r.pick(0, 0, 1, 2, 60)
		for j, k := range order {
			if n-j <= keep {
				break
			}
			ops = append(ops, Op{O: "del", K: k + 1})
			left := n - j - 1
			if r.n(20) == 0 || left < 5 || (left > 60 && left < 68 && r.n(2) == 0) {
				ask()
				if left < 5 {
					ops = append(ops, Op{O: "cnt"})
				}
			}
			if left < 70 && r.n(10) == 0 {
				ops = append(ops, Op{O: "put", K: k + 1}, Op{O: "del", K: k + 1})
			}
		}
		ops = audit(ops, r, sc.Keys, true)
	}
	sc.Ops = ops
	return sc
}

// changingScript steps iterators through a tree that is changed between the steps.
func changingScript(r *rnd, i int) *Script {
	kinds := []string{"fan", "int", "alpha", "prefix", "mix"}
	sc := &Script{Allocs: 2 + r.n(2), NI: 2, Tag: "changing"}
	for len(sc.Keys) < 280 {
		sc.Keys = genKeys(r, kinds[i%5], 280+r.n(350))
		i++
	}
	n := len(sc.Keys)
	ops := []Op{}
	there := 1 + r.n(8)
	for k := 1; k <= n; k++ {
		if r.n(8) < there {
			ops = append(ops, Op{O: "put", K: k})
		}
	}
	if r.n(3) > 0 {
		for len(ops) < 265 {
			ops = append(ops, Op{O: "put", K: 1 + r.n(n)})
		}
	}
	clamp := func(k int) int {
		if k < 1 {
			return 1
		}
		if k > n {
			return n
		}
		return k
	}
	for round := 0; round < 1+r.n(3); round++ {
		b := 1 + r.n(2)
		var p []byte
		if r.n(4) == 0 {
			k := sc.Keys[r.n(n)]
			p = k[:r.n(3)%(len(k)+1)]
		}
		ops = append(ops, Op{O: "inew", B: b, P: p, N: r.n(2)})
		pos := 0
		for pos < n {
			// a batch is never less than 257 values, except for the last one
			m := r.pick(1, 50, 256, 256, 257, 257, 258, 300)
			ops = append(ops, Op{O: "inext", B: b, N: m})
			pos += m
			at := pos * 8 / there
			switch r.n(6) {
			case 0:
			case 1:
				// anywhere
				for j := r.n(80); j > 0; j-- {
					ops = append(ops, Op{O: []string{"put", "del"}[r.n(2)], K: 1 + r.n(n)})
				}
			case 2:
				// a whole range
				f := clamp(at - 20 + r.n(40))
				for k := f; k < f+r.n(150) && k <= n; k++ {
					ops = append(ops, Op{O: "del", K: k})
				}
			case 3:
				f := clamp(at - 30 + r.n(40))
				for k := f; k < f+r.n(100) && k <= n; k++ {
					ops = append(ops, Op{O: "put", K: k})
				}
			default:
				// around the position
				for j := r.n(40); j > 0; j-- {
					ops = append(ops, Op{O: []string{"put", "del"}[r.n(2)], K: clamp(at - 30 + r.n(60))})
				}
			}
		}
		ops = append(ops, Op{O: "inext", B: b, N: 2 * n})
		if r.n(2) == 0 {
			for j := r.n(300); j > 0; j-- {
				ops = append(ops, Op{O: []string{"put", "put", "del"}[r.n(3)], K: 1 + r.n(n)})
			}
		}
	}
	sc.Ops = append(ops, Op{O: "gets"}, Op{O: "len"})
	return sc
}

// lensScript makes every kind of change at nodes with a prefix of a certain length, in groups side by side, over and over until
// what they gave up is used again.
func lensScript(r *rnd, i int) *Script {
	l := prefixLens[(i*7+r.n(3))%len(prefixLens)]
	if r.n(3) == 0 {
		l = 250 + r.n(9)
	}
	sc := &Script{Allocs: 1 + r.n(2), NT: 1, Tag: "lengths"}
	p := r.bytes(l)
	wide := r.pick(3, 4, 5, 6, 12)
	if r.n(6) == 0 {
		wide = r.pick(65, 128, 130)
	}
	split := []int{}
	for j := 0; j < 1+r.n(3) && l > 0; j++ {
		split = append(split, r.pick(0, l-1, l/2, r.n(l), r.n(l)))
	}
	groups := 2 + r.n(5)
	if wide > 60 {
		groups = 2
	}
	var ks [][]byte
	for g := 0; g < groups; g++ {
		b := cat([]byte{byte(40 * g)}, p)
		for j := 0; j < wide; j++ {
			ks = append(ks, cat(b, []byte{byte(j * 19)}))
		}
		for _, m := range split {
			c := p[m] + byte(1+r.n(255))
			ks = append(ks, cat(b[:1+m], []byte{c}))
			if r.n(2) == 0 {
				ks = append(ks, cat(b[:1+m], []byte{c + 1, 5}), cat(b[:1+m], []byte{c + 1, 6}))
			}
		}
		if r.n(3) == 0 {
			// another long prefix below
			b = cat(b, []byte{255}, r.bytes(r.pick(prefixLens...)))
			ks = append(ks, cat(b, []byte{1}), cat(b, []byte{2}), cat(b, []byte{3}))
		}
	}
	sc.Keys = keyset(ks)
	n := len(sc.Keys)
	for round := 0; round < 3+r.n(3); round++ {
		a := r.pick(0, 0, 2, 4, 5)
		if sc.Allocs > 1 && r.n(2) == 0 {
			a += 10
		}
		sc.Ops = append(sc.Ops, Op{O: "churn", K: 1, B: n, N: 1500 + r.n(3000), A: a, V: r.u64() % 100000}, Op{O: "release"})
		sc.Ops = append(sc.Ops, Op{O: "gets"})
		for j := 0; j < n; j++ {
			sc.Ops = append(sc.Ops, Op{O: []string{"put", "del", "get"}[r.n(3)], K: 1 + r.n(n)})
		}
		sc.Ops = append(sc.Ops, Op{O: "gets"}, Op{O: "iter"}, Op{O: "len"}, Op{O: "cnt"})
	}
	return sc
}
