package main

import (
	"bytes"
	"strconv"
	"strings"
	"time"

	"github.com/jayloop/radix"
	"verif/harness/vshim"
)

// extra holds the steps that are about memory and about stopping at special moments.
func (r *run) extra(op Op) bool {
	t := op.T
	if t == 0 {
		t = 1
	}
	switch op.O {
	case "churn":
		// N changes of the keys K..B in the style A, from the random seed V; then all have the values they are reported with
		r.churn(t, op)
	case "hold":
		// background goroutines stop before their next atomic operation
		vshim.Exempt()
		vshim.HoldOthers()
		r.holding = true
	case "holdput":
		// put keys K..B until a background goroutine is stopped
		vshim.Exempt()
		for k := op.K; k <= op.B && vshim.Held() == 0; k++ {
			r.step(Op{O: "put", K: k, T: op.T})
			for i := 0; i < 5 && vshim.Held() == 0; i++ {
				time.Sleep(20 * time.Microsecond)
			}
		}
	case "unhold":
		r.holding = false
		vshim.ReleaseOthers()
		vshim.Unexempt()
	default:
		return r.diag(t, op)
	}
	return true
}

// the allocator a, or any one if 0
func (r *run) prepUpdate(t, a int, key []byte) (bool, *radix.UpdateOperation) {
	if a > 0 {
		return r.allocator(t, a).PrepareUpdate(key)
	}
	return r.trees[t].PrepareUpdate(key)
}

func (r *run) prepDelete(t, a int, key []byte) (bool, *radix.DeleteOperation) {
	if a > 0 {
		return r.allocator(t, a).PrepareDelete(key)
	}
	return r.trees[t].PrepareDelete(key)
}

// put and del without recording
func (r *run) quietPut(t, a, k int) (v uint64, ok bool) {
	key := r.sc.Keys[k-1]
	f, u := r.prepUpdate(t, a, key)
	if f {
		u.FetchedKey = r.st.fetch(u.FetchedKey[:0], u.Value)
		u.Match = bytes.Equal(u.FetchedKey, key)
		if r.st.owner(u.Value) < 0 {
			u.Abort()
			return 0, false
		}
	}
	v = r.st.fresh(k)
	return v, u.Finalize(v)
}

func (r *run) quietDel(t, a, k int) bool {
	key := r.sc.Keys[k-1]
	f, d := r.prepDelete(t, a, key)
	if !f {
		return false
	}
	d.FetchedKey = r.st.fetch(d.FetchedKey[:0], d.Value)
	if !bytes.Equal(d.FetchedKey, key) {
		d.Abort()
		return false
	}
	return d.Finalize()
}

// churn changes keys over and over. Styles (op.A): 0 random, 1 one key in and out, 2 all in and all out, 3 updates, 4 all in and
// out in the opposite order, 5 as 0 with aborts, 6 some stay.
func (r *run) churn(t int, op Op) {
	rn := newRnd(op.V)
	lo, n := op.K, op.B-op.K+1
	// style/10: changes go through the first allocator held (1), or insertions do and deletions through the second (2)
	style, pa, da := op.A%10, 0, 0
	switch op.A / 10 {
	case 1:
		pa, da = 1, 1
	case 2:
		pa, da = 1, 2
	}
	val := make([]uint64, n)
	has := make([]bool, n)
	unknown := make([]bool, n)
	for i := range unknown {
		unknown[i] = true
	}
	// a known start
	for i := 0; i < n; i++ {
		r.quietDel(t, da, lo+i)
		has[i], unknown[i] = false, false
	}
	bad := 0
	put := func(i int) {
		v, ok := r.quietPut(t, pa, lo+i)
		if !ok {
			bad++
			return
		}
		val[i], has[i] = v, true
	}
	del := func(i int) {
		if r.quietDel(t, da, lo+i) != has[i] {
			bad++
		}
		has[i] = false
	}
	perm := rn.perm(n)
	keep := rn.n(3)
	for j := 0; j < op.N; j++ {
		i := 0
		switch style {
		case 1:
			i = perm[(j/2)%n]
			if j%2 == 0 {
				put(i)
			} else {
				del(i)
			}
		case 2, 4:
			i = perm[j%n]
			if style == 4 && (j/n)%2 == 1 {
				i = perm[n-1-j%n]
			}
			if (j/n)%2 == 0 {
				put(i)
			} else {
				del(i)
			}
		case 3:
			put(rn.n(n))
		case 6:
			// the first op.C keys stay, the others come and go in a row
			m := op.C
			if j < m {
				put(j)
			} else if w := n - m; ((j-m)/w)%2 == 0 {
				put(m + (j-m)%w)
			} else {
				del(m + (j-m)%w)
			}
		default:
			i = rn.n(n)
			if rn.n(2+keep) > 0 {
				put(i)
			} else {
				del(i)
			}
			if style == 5 && rn.n(3) == 0 {
				f, d := r.prepDelete(t, da, r.sc.Keys[lo+rn.n(n)-1])
				if f {
					d.Abort()
				}
				_, u := r.prepUpdate(t, pa, r.sc.Keys[lo+rn.n(n)-1])
				u.Abort()
			}
		}
		if j&255 == 0 {
			r.touch()
		}
	}
	e := []interface{}{}
	for i := range val {
		if has[i] {
			e = append(e, []interface{}{lo + i, r.st.val(val[i])})
		} else if r.sc.Big {
			e = append(e, []interface{}{lo + i, []int{}})
		} else {
			e = append(e, []interface{}{lo + i, 0})
		}
	}
	r.changes += op.N
	r.add("churn", t, e, bad)
}

// churnScript: rounds of changes that lead back to the same keys, and the memory after each round.
func churnScript(r *rnd, i int, tier string, cross bool) *Script {
	sc := &Script{Allocs: 1 + r.n(3), NT: 1, Tag: "churn"}
	var ks [][]byte
	p := bytes.Repeat([]byte{9}, r.pick(0, 0, 1, 8, 9, 20, 250, 255, 300))
	q := bytes.Repeat([]byte{8}, r.pick(0, 1, 7, 8, 9, 30, 254, 260))
	var n int
	if i%7 < 2 && r.n(4) == 0 {
		// nodes may be larger than any full one with a short prefix
		p = bytes.Repeat([]byte{9}, r.pick(1500, 2280, 2290, 2300, 3000))
		q = q[:len(q)%40]
	}
	switch i % 7 {
	case 0:
		// an inner node comes and goes: leaf and node of two, and merged again
		ks = [][]byte{cat(p, []byte{1}), cat(p, []byte{2}, q, []byte{1}), cat(p, []byte{2}, q, []byte{2})}
		if r.n(2) == 0 {
			ks = append(ks, []byte{200})
		}
		sc.Tag = "merge"
	case 1:
		// a prefix is split
		ks = [][]byte{cat(p, []byte{2}, q, []byte{1}), cat(p, []byte{2}, q, []byte{2}), cat(p, []byte{3})}
		if len(q) > 0 {
			ks = append(ks, cat(p, []byte{2}, q[:r.n(len(q))], []byte{100}))
		}
		sc.Tag = "split"
	case 2, 3:
		// one node of any size
		n = r.pick(3, 5, 20, 62, 64, 66, 70, 126, 127, 128, 129, 130, 135, 200, 256)
		if len(p) > 40 && n > 100 {
			p = p[:r.n(40)]
		}
		for b := 0; b < n; b++ {
			ks = append(ks, cat(p, []byte{byte(b)}))
		}
		sc.Tag = "fan"
	case 4:
		ks = genKeys(r, "alpha", 10+r.n(60))
	case 5:
		ks = genKeys(r, "prefix", 5+r.n(20))
	default:
		ks = genKeys(r, "mix", 20+r.n(100))
	}
	sc.Keys = keyset(ks)
	n = len(sc.Keys)
	style := r.pick(0, 0, 1, 2, 2, 4, 5)
	stay := 0
	if sc.Tag == "fan" && r.n(3) > 0 {
		style = 2
		if r.n(2) == 0 {
			// not all of them go
			style = 6
			stay = r.n(n)
			if n >= 127 {
				stay = r.pick(1, 2, 30, 50, 60, 62, 63, 64, 65, 100, 126)
			}
		}
	}
	rounds, per := 20, 20000
	if tier == "thorough" {
		rounds, per = 40, 50000
	}
	sc.Warm = rounds / 2
	sc.Node = largest(sc.Keys)
	if sc.Tag == "fan" {
		// nodes of many sizes: much depends on chance if the order is random, nothing if not
		if style == 2 || style == 6 {
			sc.Node /= 8
		} else {
			sc.Node *= 6
		}
	}
	sc.Tag += " " + strconv.Itoa(style)
	seed := r.u64() % 100000
	// all changes through one allocator, as each of them has its own supply of removed memory
	if sc.Allocs > 1 {
		style += 10
	}
	if cross {
		// each of them gets what the other one needs
		sc.Allocs = 3
		style = 20
		sc.Cross = true
		sc.Tag = "crossed"
	}
	for j := 0; j < rounds; j++ {
		sc.Ops = append(sc.Ops, Op{O: "churn", K: 1, B: n, N: per, A: style, C: stay, V: seed + uint64(j)}, Op{O: "mem"})
		// the other ones are used for something that does not change the tree, and rest then
		p := sc.Keys[r.n(n)]
		p = p[:r.n(len(p)+1)]
		switch r.n(4) {
		case 0:
			sc.Ops = append(sc.Ops, Op{O: "gets"}, Op{O: "iter"}, Op{O: "cnt"}, Op{O: "iter", P: p}, Op{O: "iterp", P: p, N: r.n(5)})
		case 1:
			for l := 0; l < 8; l++ {
				sc.Ops = append(sc.Ops, Op{O: []string{"min", "max", "iter", "leaves", "cnt"}[r.n(5)], P: p})
			}
		case 2:
			for l := 0; l < 8; l++ {
				sc.Ops = append(sc.Ops, Op{O: []string{"puta", "dela", "get"}[r.n(3)], K: 1 + r.n(n)},
					Op{O: "probe", P: genProbe(r, sc.Keys), N: r.n(2)})
			}
		}
		if sc.Allocs == 1 && r.n(3) == 0 {
			sc.Ops = append(sc.Ops, Op{O: "len"})
		}
	}
	return sc
}

// largest returns the words of the largest node that a set of keys can need.
func largest(ks [][]byte) int {
	max := 2
	fan := map[string]map[byte]bool{}
	for i := 1; i < len(ks); i++ {
		a, b := ks[i-1], ks[i]
		l := 0
		for l < len(a) && l < len(b) && a[l] == b[l] {
			l++
		}
		if l == len(a) || l == len(b) {
			continue
		}
		p := string(a[:l])
		if fan[p] == nil {
			fan[p] = map[byte]bool{}
		}
		fan[p][a[l]], fan[p][b[l]] = true, true
		n := len(fan[p])
		if n > 127 {
			n = 256
		}
		if n += l/8 + 2; n > max {
			max = n
		}
	}
	return max
}

// persistScript saves and loads.
func persistScript(r *rnd, i int, prop string) *Script {
	kinds := []string{"alpha", "prefix", "fan", "int", "mix"}
	kind := kinds[i%5]
	n := r.pick(1, 2, 3, 6, 12, 30, 60, 120)
	sc := &Script{Allocs: 1 + r.n(4), Tag: "persist", NT: 6, NB: 6}
	sc.Big = r.n(4) == 0
	sc.Keys = genKeys(r, kind, n)
	if len(sc.Keys) == 0 {
		sc.Keys = [][]byte{{1}}
	}
	if prop == "C13" && r.n(10) == 0 {
		// few keys, with nodes of any size
		p := r.bytes(r.pick(1000, 2200, 2280, 2300, 2400))
		sc.Keys = keyset([][]byte{{7}, cat([]byte{8}, p, []byte{1}), cat([]byte{8}, p, []byte{2}), cat([]byte{8}, p, []byte{3, 4}), cat([]byte{8}, p, []byte{3, 5})})
	}
	n = len(sc.Keys)
	var ops []Op
	to := func(t int, o []Op) {
		for _, x := range o {
			x.T = t
			ops = append(ops, x)
		}
	}
	some := func(t int, m int) {
		switch r.n(4) {
		case 0:
			a := 1 + r.n(n)
			to(t, []Op{{O: "churn", K: a, B: a + r.n(n-a+1), N: 50 + r.n(3000), A: r.pick(0, 1, 2, 5), V: r.u64() % 1000}})
		default:
			to(t, walk(r, sc.Keys, 1+r.n(m), mix{probes: 5, aborts: 5, allocs: r.n(2) == 0}, sc.Allocs))
		}
	}
	if r.n(8) > 0 {
		some(1, 3*n+10)
	}
	if prop == "C14" {
		if r.n(3) == 0 {
			// more blocks than can be waiting to be written
			sc.Keys = genKeys(r, "prefix", 3)
			for b := 0; b < 126; b++ {
				sc.Keys = append(sc.Keys, []byte{250, byte(b), 1})
			}
			sc.Keys = keyset(sc.Keys)
			n = len(sc.Keys)
			ops = nil
			to(1, []Op{{O: "churn", K: 1, B: n, N: 20000, A: 2, V: r.u64() % 1000}})
			some(1, n)
		}
		to(1, []Op{{O: "stop"}, {O: "save", B: 1}})
		for j := 0; j < 8; j++ {
			to(1, []Op{{O: "failsave", B: 1, V: r.u64() % (1 << 30), N: r.n(2)}})
			to(1, []Op{{O: "failsave", B: 1, V: r.u64() % (1 << 30), N: r.n(16)}})
		}
		for j := 0; j < 30 && i%2 == 0; j++ {
			// each write in turn
			to(1, []Op{{O: "failsave", B: 1, V: uint64(j), N: 8 + r.n(8)}})
		}
		if r.n(2) == 0 {
			for j := 0; j < 60; j++ {
				to(1, []Op{{O: "failsave", B: 1, V: uint64(j * 7), N: r.n(2)}})
			}
		}
		to(1, []Op{{O: "cuts", B: 1, K: 0, N: 1500, A: r.pick(0, 0, 1, 2)}})
		for j := 0; j < 40; j++ {
			to(1, []Op{{O: "cutr", B: 1, V: r.u64() % (1 << 30), A: r.n(3)}})
		}
		to(1, []Op{{O: "len"}, {O: "save", B: 2}, {O: "start"}})
		ops = audit(ops, r, sc.Keys, false)
		some(1, n+10)
		to(2, []Op{{O: "load", B: 2}})
		to(2, audit(nil, r, sc.Keys, false))
		sc.Ops = ops
		return sc
	}
	src, t := 1, 1
	for j := 0; j < 2+r.n(3) && t < 6; j++ {
		to(src, []Op{{O: "stop"}, {O: "len"}, {O: "save", B: j + 1}})
		if r.n(3) == 0 {
			to(src, []Op{{O: "len"}, {O: "save", B: j + 1}})
		}
		t++
		to(t, []Op{{O: "load", B: j + 1, N: r.n(2)}})
		to(t, audit(nil, r, sc.Keys, r.n(3) == 0))
		if r.n(2) == 0 {
			// the original one goes on
			to(src, []Op{{O: "start"}})
			some(src, n+10)
			to(src, audit(nil, r, sc.Keys, false))
			to(t, []Op{{O: "gets"}})
		} else {
			to(src, []Op{{O: "close"}})
			if r.n(2) == 0 && t > 2 {
				ops = ops[:len(ops)-1]
			}
		}
		some(t, 2*n+10)
		if r.n(2) == 0 {
			to(t, audit(nil, r, sc.Keys, true))
		}
		if r.n(3) == 0 {
			// back to an older state
			t++
			if t < 6 {
				to(t, []Op{{O: "load", B: 1 + r.n(j+1)}})
				to(t, audit(nil, r, sc.Keys, false))
				some(t, n)
				to(t, audit(nil, r, sc.Keys, false))
			} else {
				t--
			}
		}
		src = t
	}
	if r.n(2) == 0 {
		ops = append(ops, Op{O: "closeall"})
	}
	sc.Ops = ops
	sc.Tag = "persist"
	for _, o := range ops {
		if strings.HasPrefix(o.O, "close") {
			sc.Tag = "persist with close"
		}
	}
	return sc
}

// momentScript stops the tree right when its block allocator is between two blocks.
func momentScript(r *rnd, i int) *Script {
	sc := &Script{Allocs: 1 + r.n(4), Tag: "moment", NT: 3, NB: 3}
	p := 1 + r.n(9)
	for k := 0; k < 200; k++ {
		sc.Keys = append(sc.Keys, cat([]byte{byte(k)}, bytes.Repeat([]byte{byte(k)}, p), r.bytes(2)))
	}
	for k := 0; k < 100; k++ {
		sc.Keys = append(sc.Keys, cat([]byte{byte(r.n(200)), 255}, r.bytes(10+r.n(200))))
	}
	sc.Keys = keyset(sc.Keys)
	n := len(sc.Keys)
	var ops []Op
	to := func(t int, o ...Op) {
		for _, x := range o {
			x.T = t
			ops = append(ops, x)
		}
	}
	at := 1
	pre := r.n(120)
	for k := 1; k <= pre; k++ {
		to(1, Op{O: "put", K: k})
		at = k + 1
	}
	to(1, Op{O: "hold"}, Op{O: "holdput", K: at, B: n}, Op{O: "stop"}, Op{O: "save", B: 1})
	if r.n(2) == 0 {
		to(1, Op{O: "len"}, Op{O: "unhold"})
	} else {
		to(1, Op{O: "unhold"}, Op{O: "len"})
	}
	to(2, Op{O: "load", B: 1})
	to(2, audit(nil, r, sc.Keys, false)...)
	to(1, Op{O: "start"})
	for _, k := range r.perm(n)[:n/2] {
		to(2, Op{O: []string{"put", "put", "del"}[r.n(3)], K: k + 1})
		to(1, Op{O: []string{"put", "put", "del"}[r.n(3)], K: k + 1})
	}
	to(1, audit(nil, r, sc.Keys, false)...)
	to(2, audit(nil, r, sc.Keys, false)...)
	to(2, Op{O: "stop"}, Op{O: "save", B: 2})
	to(3, Op{O: "load", B: 2})
	to(3, audit(nil, r, sc.Keys, false)...)
	if r.n(2) == 0 {
		// the block allocator of a restored tree has not done anything yet
		b := r.n(3)
		if b == 0 {
			// of an empty tree
			ops = nil
			to(1, Op{O: "stop"}, Op{O: "save", B: 2})
			b = 2
		}
		to(3, Op{O: "hold"}, Op{O: "load", B: b}, Op{O: "stop"}, Op{O: "save", B: 3}, Op{O: "len"}, Op{O: "unhold"}, Op{O: "start"})
		to(2, Op{O: "load", B: 3})
		for i := 0; i < 2; i++ {
			to(2, audit(nil, r, sc.Keys, false)...)
			to(3, audit(nil, r, sc.Keys, false)...)
			for _, k := range r.perm(n)[:n/2] {
				to(2, Op{O: []string{"put", "put", "del"}[r.n(3)], K: k + 1})
				to(3, Op{O: []string{"put", "put", "del"}[r.n(3)], K: k + 1})
			}
		}
	}
	sc.Ops = ops
	return sc
}
