package main

// lentScript uses everything that takes a byte slice, with iterators that go on for long. What is written over the slices is left to
// the steps themselves.
func lentScript(r *rnd, i int) *Script {
	kinds := []string{"prefix", "alpha", "mix", "int", "fan"}
	kind := kinds[i%len(kinds)]
	n := r.pick(2, 3, 5, 8, 12, 20, 40)
	if kind == "fan" {
		n = r.pick(4, 66, 130)
	}
	sc := &Script{Allocs: 1 + r.n(3), NT: 1, NI: 3, Tag: "lent, " + kind, Big: r.n(4) == 0}
	sc.Keys = genKeys(r, kind, n)
	if len(sc.Keys) == 0 {
		sc.Keys = [][]byte{{1}}
	}
	m := mix{probes: 30, aborts: 25, iters: 15, exts: 15, counts: 10, lens: 2, allocs: r.n(2) == 0}
	ops := walk(r, sc.Keys, 40+r.n(3*n+40), m, sc.Allocs)
	open := make([]bool, 4)
	started := 0
	for _, op := range ops {
		if op.O == "del" && started > 0 {
			// what deletions do to an iterator on its way is another matter
			if r.n(6) > 0 {
				continue
			}
			for b := range open {
				if open[b] {
					sc.Ops = append(sc.Ops, Op{O: "inext", B: b, N: 3 * len(sc.Keys)})
					open[b] = false
				}
			}
			started = 0
		}
		sc.Ops = append(sc.Ops, op)
		if r.n(4) == 0 {
			b := 1 + r.n(3)
			if !open[b] || r.n(8) == 0 {
				sc.Ops = append(sc.Ops, Op{O: "inew", B: b, P: genPrefix(r, sc.Keys), N: r.n(2)})
				open[b] = true
			} else if op.A == 0 {
				sc.Ops = append(sc.Ops, Op{O: "inext", B: b, N: 1 + r.n(4)})
				started++
			}
		}
	}
	for b := 1; b <= 3; b++ {
		if open[b] {
			sc.Ops = append(sc.Ops, Op{O: "inext", B: b, N: 3 * len(sc.Keys)})
		}
	}
	return sc
}

// apartScript does something with several trees at the same time.
func apartScript(r *rnd, i int) *Script {
	kinds := []string{"alpha", "prefix", "mix", "int", "fan"}
	kind := kinds[i%len(kinds)]
	n := r.pick(2, 3, 5, 8, 12, 20, 40)
	if kind == "fan" {
		n = r.pick(4, 66, 130, 150)
	}
	sc := &Script{Allocs: 1 + r.n(3), NT: 2 + r.n(3), NI: 4, NB: 1, Tag: "apart, " + kind, Big: r.n(4) == 0}
	sc.Keys = genKeys(r, kind, n)
	if len(sc.Keys) == 0 {
		sc.Keys = [][]byte{{1}}
	}
	m := mix{probes: 30, aborts: 20, iters: 25, exts: 15, counts: 10, lens: 5}
	// a walk for each of the trees
	walks := make([][]Op, sc.NT+1)
	made := make([]bool, sc.NT+1)
	made[1] = true
	for t := 1; t <= sc.NT; t++ {
		walks[t] = walk(r, sc.Keys, 20+r.n(2*n+30), m, 1)
	}
	at := make([]int, sc.NI+1)
	drop := func(t int) {
		for b := range at {
			if at[b] == t {
				sc.Ops = append(sc.Ops, Op{O: "iclose", B: b})
				at[b] = 0
			}
		}
	}
	fresh := func(t int) {
		drop(t)
		sc.Ops = append(sc.Ops, Op{O: "new", T: t, A: r.n(6), N: 1 + r.n(6)})
		made[t] = true
		if r.n(2) == 0 {
			sc.Ops = append(sc.Ops, Op{O: "stats", T: t}, Op{O: "dump", T: t})
		}
	}
	rest := sc.NT
	for rest > 0 {
		t := 1 + r.n(sc.NT)
		if len(walks[t]) == 0 {
			continue
		}
		if !made[t] {
			fresh(t)
		}
		for k := r.pick(1, 1, 2, 5, 20); k > 0 && len(walks[t]) > 0; k-- {
			op := walks[t][0]
			op.T, op.A = t, 0
			if op.O == "del" && r.n(4) > 0 {
				// what deletions do to an iterator on its way is another matter
				drop(t)
			} else if op.O == "del" {
				for b := range at {
					if at[b] == t {
						op.O = "dela"
					}
				}
			}
			sc.Ops = append(sc.Ops, op)
			if walks[t] = walks[t][1:]; len(walks[t]) == 0 {
				rest--
			}
		}
		if r.n(3) == 0 {
			b := 1 + r.n(sc.NI)
			switch {
			case at[b] == 0:
				sc.Ops = append(sc.Ops, Op{O: "inew", B: b, T: t, P: genPrefix(r, sc.Keys)})
				at[b] = t
			case r.n(5) == 0:
				sc.Ops = append(sc.Ops, Op{O: "iclose", B: b})
				at[b] = 0
			default:
				sc.Ops = append(sc.Ops, Op{O: "inext", B: b, N: 1 + r.n(6)})
			}
		}
		if r.n(60) == 0 {
			// what one of them contains goes to another one
			u := 1 + r.n(sc.NT)
			if made[t] {
				drop(u)
				sc.Ops = append(sc.Ops, Op{O: "stop", T: t}, Op{O: "save", T: t, B: 1}, Op{O: "start", T: t}, Op{O: "load", T: u, B: 1})
				made[u] = true
			}
		}
		if r.n(40) == 0 {
			fresh(t)
		}
		if r.n(10) == 0 {
			for u := 1; u <= sc.NT; u++ {
				if made[u] {
					sc.Ops = append(sc.Ops, Op{O: "gets", T: u}, Op{O: "len", T: u}, Op{O: "cnt", T: u})
				}
			}
		}
	}
	for u := 1; u <= sc.NT; u++ {
		if made[u] {
			sc.Ops = append(sc.Ops, Op{O: "gets", T: u}, Op{O: "iter", T: u}, Op{O: "len", T: u}, Op{O: "cnt", T: u})
		}
	}
	return sc
}
