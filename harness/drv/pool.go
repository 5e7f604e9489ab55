package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"
	"time"

	"github.com/jayloop/radix"
	"verif/harness/vshim"
)

// runPool executes a scene about allocators, stopping and starting; its traces are for PoolTrace.tla.
//
// Every call is recorded with what it will return, filled in when it has.
func runPool(sc *Scene, dec vshim.Decider) *conc {
	c := &conc{sc: sc, st: newStore(sc.Keys, false, 1)}
	c.tr = &CTrace{NTh: len(sc.Threads), Ev: []ev{}, Tag: sc.Tag, NA: sc.Allocs}
	for _, k := range sc.Keys {
		c.tr.Keys = append(c.tr.Keys, ints(k))
	}
	c.tr.Pre = make([]int, len(sc.Keys))
	c.its = make([]*radix.Iterator, len(sc.Threads))
	c.held = make([]*radix.Allocator, len(sc.Threads))
	c.ids = map[*radix.Allocator]int{}
	base := 0
	for i := 0; i < 50; i++ {
		if base = background(); base == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	failed := false
	one := func(f func()) {
		if failed {
			return
		}
		s := &vshim.Sched{Dec: &segments{}, MaxStep: 4000000}
		s.OnPanic = func(id int, v interface{}) {
			c.add("panic", 0, fmt.Sprint(v))
			c.tr.Info = string(debug.Stack())
		}
		if !s.Run([]func(){f}) {
			failed = true
			if s.Hung || s.Stuck {
				c.add("hang", 0)
			}
		}
	}
	one(func() {
		c.tree = radix.NewTree(&radix.Options{NumAllocators: sc.Allocs})
		for _, k := range sc.Pre {
			c.apply(k, c.tr.Pre)
		}
	})
	if failed {
		c.bad = true
		return c
	}
	if journal != nil {
		writeJournal(c.tr)
	}
	s := &vshim.Sched{Level: sc.Level, Dec: dec, MaxStep: 400000}
	c.sched = s
	s.OnPanic = func(id int, v interface{}) {
		c.add("panic", id+1, fmt.Sprint(v))
		c.tr.Info = string(debug.Stack())
	}
	var fns []func()
	for i := range sc.Threads {
		i := i
		fns = append(fns, func() {
			for _, op := range sc.Threads[i] {
				c.pool(i, op)
			}
		})
	}
	ok := s.Run(fns)
	c.steps = append([]int(nil), s.Spread...)
	if s.Hung || s.Stuck {
		c.add("hang", 0)
	}
	if !ok {
		c.bad = true
		return c
	}
	one(func() {
		// all of them must be there now
		got := []int{}
		var as []*radix.Allocator
		for i := 0; i < sc.Allocs; i++ {
			a := c.tree.GetAllocator()
			as = append(as, a)
			got = append(got, c.id(a))
		}
		c.add("all", got)
		for _, a := range as {
			c.tree.ReleaseAllocator(a)
		}
		n := 0
		it := c.tree.NewIterator(nil)
		for it.Next() {
			n++
		}
		it.Close()
		c.add("rest", c.tree.Len(), n)
		c.tree.Stop()
		c.tree.Start()
		c.tree.Close()
		left := 0
		for i := 0; i < 2000; i++ {
			if left = background() - base; left <= 0 {
				left = 0
				break
			}
			time.Sleep(time.Millisecond)
		}
		c.add("closed", left)
	})
	c.bad = failed
	return c
}

func (c *conc) id(a *radix.Allocator) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.ids[a] == 0 {
		c.ids[a] = len(c.ids) + 1
	}
	return c.ids[a]
}

// call records a call, the function returned records its return.
func (c *conc) call(t int, name string, k int) func(res int) {
	e := ev{"call", t + 1, name, k, -1}
	c.mu.Lock()
	c.tr.Ev = append(c.tr.Ev, e)
	c.mu.Unlock()
	vshim.Progress()
	return func(res int) {
		c.mu.Lock()
		e[4] = res
		c.tr.Ev = append(c.tr.Ev, ev{"ret", t + 1})
		c.mu.Unlock()
		vshim.Progress()
	}
}

func (c *conc) pool(t int, op Op) {
	al := c.held[t]
	key := op.P
	if op.K > 0 {
		key = append([]byte(nil), c.sc.Keys[op.K-1]...)
	}
	switch op.O {
	case "acq":
		r := c.call(t, "acq", 0)
		a := c.tree.GetAllocator()
		c.held[t] = a
		r(c.id(a))
	case "rel":
		r := c.call(t, "rel", 0)
		c.held[t] = nil
		c.tree.ReleaseAllocator(al)
		r(0)
	case "stop":
		r := c.call(t, "stop", 0)
		c.tree.Stop()
		r(0)
	case "start":
		r := c.call(t, "start", 0)
		c.tree.Start()
		r(0)
	case "len":
		r := c.call(t, "len", 0)
		r(c.tree.Len())
	case "admin":
		r := c.call(t, "admin", 0)
		c.tree.Admin(io.Discard, []string{"allocators"})
		c.tree.Admin(io.Discard, []string{"info"})
		r(0)
	case "pause":
		for i := 0; i < op.N; i++ {
			vshim.Point()
		}
	case "save":
		// what a stopped tree contains
		var b bytes.Buffer
		_, err := c.tree.WriteState(&b)
		n, l := -1, -1
		if err == nil {
			vshim.Quiet(true)
			if tree, err := radix.NewTreeFromState(&b); err == nil {
				n = 0
				it := tree.NewIterator(nil)
				for it.Next() && n < 1000 {
					n++
				}
				it.Close()
				l = tree.Len()
				tree.Close()
			}
			vshim.Quiet(false)
		}
		c.add("save", t+1, n, l)
	case "get":
		r := c.call(t, "use", 0)
		if al != nil {
			al.Lookup(key)
		} else {
			c.tree.Lookup(key)
		}
		r(0)
	case "min", "max":
		r := c.call(t, "use", 0)
		if op.O == "min" {
			c.tree.MinKey(op.P)
		} else {
			c.tree.MaxKey(op.P)
		}
		r(0)
	case "cnt":
		r := c.call(t, "use", 0)
		c.tree.Count(op.P)
		r(0)
	case "next":
		c.its[t] = c.tree.NewIterator(op.P)
		for n := 0; n < 50; n++ {
			// items read ahead need nothing
			r := c.call(t, "peek", 0)
			f := c.its[t].Next()
			r(0)
			if !f {
				break
			}
		}
		c.its[t].Close()
	case "put", "puta":
		for try := 0; try < 4; try++ {
			r := c.call(t, "pu", op.K)
			var f bool
			var u *radix.UpdateOperation
			if al != nil {
				f, u = al.PrepareUpdate(key)
			} else {
				f, u = c.tree.PrepareUpdate(key)
			}
			if f {
				u.FetchedKey = c.st.fetch(u.FetchedKey[:0], u.Value)
				u.Match = bytes.Equal(u.FetchedKey, key)
			}
			r(1)
			vshim.Point()
			if op.O == "puta" {
				r = c.call(t, "abort", 0)
				u.Abort()
				r(0)
				return
			}
			nv := c.st.fresh(op.K)
			r = c.call(t, "fin", op.K)
			ok := u.Finalize(nv)
			r(bit(ok))
			if ok {
				return
			}
		}
	case "del", "dela":
		for try := 0; try < 4; try++ {
			r := c.call(t, "pd", op.K)
			var f bool
			var d *radix.DeleteOperation
			if al != nil {
				f, d = al.PrepareDelete(key)
			} else {
				f, d = c.tree.PrepareDelete(key)
			}
			if f {
				d.FetchedKey = c.st.fetch(d.FetchedKey[:0], d.Value)
			}
			r(bit(f))
			if !f {
				return
			}
			vshim.Point()
			if op.O != "del" || !bytes.Equal(d.FetchedKey, key) {
				r = c.call(t, "abort", 0)
				d.Abort()
				r(0)
				return
			}
			r = c.call(t, "fin", -op.K)
			ok := d.Finalize()
			r(bit(ok))
			if ok {
				return
			}
		}
	default:
		panic("unknown op " + op.O)
	}
}

// poolScene makes a random scene. Whoever stops the tree starts it again, whoever acquires an allocator releases it, and
// nobody waits for others while holding one.
func poolScene(r *rnd, i int) *Scene {
	sh := genShape(r, "tiny")
	nt := r.pick(2, 2, 3, 3, 4)
	sc := &Scene{Keys: sh.keys, Pre: sh.pre, Tag: "pool", Pool: true, Level: 1, Allocs: r.pick(1, 1, 2, 2, 3, 4)}
	stoppers := 0
	kinds := []string{"stop", "len", "own", "ops", "admin", "abort"}
	used := 0
	for t := 0; t < nt; t++ {
		k := kinds[r.n(len(kinds))]
		if t == 0 {
			k = "stop"
			if i%3 == 2 {
				k = []string{"len", "admin", "own"}[r.n(3)]
			}
		}
		// keys are not shared, so that the size does not depend on the order
		var mine []int
		for j := range sc.Keys {
			if j%nt == t {
				mine = append(mine, j+1)
			}
		}
		key := func() int { return mine[r.n(len(mine))] }
		var ops []Op
		some := func(n int, own bool) {
			for j := 0; j < n; j++ {
				o := []string{"put", "del", "get", "put", "del", "puta", "dela", "cnt", "min", "max", "next"}
				x := o[r.n(len(o))]
				if own {
					x = o[r.n(7)]
				}
				if len(mine) == 0 {
					x = "get"
					ops = append(ops, Op{O: x, K: 1 + r.n(len(sc.Keys))})
					continue
				}
				ops = append(ops, Op{O: x, K: key()})
			}
		}
		switch k {
		case "stop":
			stoppers++
			for j := 0; j < 1+r.n(2); j++ {
				ops = append(ops, Op{O: "stop"})
				if r.n(2) == 0 {
					ops = append(ops, Op{O: "len"})
				}
				if r.n(3) == 0 {
					ops = append(ops, Op{O: "save?"})
				}
				if r.n(2) == 0 {
					ops = append(ops, Op{O: "pause", N: 1 + r.n(4)}, Op{O: "len"})
				}
				if r.n(6) == 0 {
					ops = append(ops, Op{O: "stop"})
				}
				ops = append(ops, Op{O: "start"})
				if r.n(6) == 0 {
					ops = append(ops, Op{O: "start"})
				}
				if r.n(3) == 0 {
					some(1, false)
				}
			}
		case "len":
			for j := 0; j < 1+r.n(3); j++ {
				ops = append(ops, Op{O: "len"})
			}
		case "admin":
			ops = append(ops, Op{O: "admin"})
			some(r.n(2), false)
		case "own":
			for j := 0; j < 1+r.n(2); j++ {
				ops = append(ops, Op{O: "acq"})
				some(r.n(3), true)
				ops = append(ops, Op{O: "rel"})
			}
		case "ops":
			some(1+r.n(3), false)
		case "abort":
			if len(mine) == 0 {
				some(1, false)
				break
			}
			for j := 0; j < 1+r.n(3); j++ {
				ops = append(ops, Op{O: []string{"puta", "dela", "del"}[r.n(3)], K: key()})
			}
		}
		used += len(ops)
		sc.Threads = append(sc.Threads, ops)
	}
	for _, ops := range sc.Threads {
		for j := range ops {
			if ops[j].O == "save?" {
				// somebody else might start the tree
				ops[j].O = "save"
				if stoppers > 1 {
					ops[j].O = "len"
				}
			}
		}
	}
	return sc
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}
