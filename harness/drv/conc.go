package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/jayloop/radix"
	"verif/harness/vshim"
)

var nodeID = regexp.MustCompile(`NODE: 0x[0-9a-f]{16} (\d+) `)

// Scene is a small concurrent program on one tree.
type Scene struct {
	Keys    [][]byte
	Pre     []int  // changes made before: k puts key k, -k deletes it
	Threads [][]Op // O: get probe put puta del dela len min max cnt inew next bulk
	Allocs  int
	Own     bool // every thread uses an allocator of its own
	Level   int
	Hot     []int // keys that are changed again at the end, to see that nothing is left locked
	Tag     string
	Pool    bool // about allocators, stopping and starting
	Three   bool // a reader, a writer, and one that lets the epochs advance
	Reused  int  // recycled nodes are offered for reuse to the writers: changes made before by which allocators
}

// CTrace is a trace for ConcTrace.tla.
type CTrace struct {
	Keys [][]int `json:"keys"`
	Pre  []int   `json:"pre"`
	NTh  int     `json:"nth"`
	NA   int     `json:"na"`
	Ev   []ev    `json:"ev"`
	Tag  string  `json:"tag"`
	Info string  `json:"info,omitempty"`
}

type conc struct {
	sc    *Scene
	st    *store
	tr    *CTrace
	tree  *radix.Tree
	alloc []*radix.Allocator
	its   []*radix.Iterator
	held  []*radix.Allocator
	ids   map[*radix.Allocator]int
	mu    sync.Mutex
	bad   bool
	steps []int
	sched *vshim.Sched
}

func (c *conc) add(e ...interface{}) {
	c.mu.Lock()
	c.tr.Ev = append(c.tr.Ev, e)
	if journal != nil {
		b, _ := json.Marshal(e)
		journal.Write(append(b, '\n'))
	}
	c.mu.Unlock()
	vshim.Progress()
}

// apply makes one change outside of any schedule, not recorded.
func (c *conc) apply(k int, content []int) {
	if k > 0 {
		for {
			f, u := c.tree.PrepareUpdate(c.sc.Keys[k-1])
			if f {
				u.FetchedKey = c.st.fetch(u.FetchedKey[:0], u.Value)
				u.Match = bytes.Equal(u.FetchedKey, c.sc.Keys[k-1])
			}
			v := c.st.fresh(k)
			if u.Finalize(v) {
				content[k-1] = int(v)
				return
			}
		}
	}
	k = -k
	f, d := c.tree.PrepareDelete(c.sc.Keys[k-1])
	if !f {
		return
	}
	d.FetchedKey = c.st.fetch(d.FetchedKey[:0], d.Value)
	if !bytes.Equal(d.FetchedKey, c.sc.Keys[k-1]) {
		d.Abort()
		return
	}
	d.Finalize()
	content[k-1] = 0
}

// runScene executes a scene under a decider.
func runScene(sc *Scene, dec vshim.Decider) *conc {
	c := &conc{sc: sc, st: newStore(sc.Keys, false, 1)}
	c.tr = &CTrace{NTh: len(sc.Threads), Ev: []ev{}, Tag: sc.Tag}
	for _, k := range sc.Keys {
		c.tr.Keys = append(c.tr.Keys, ints(k))
	}
	c.tr.Pre = make([]int, len(sc.Keys))
	na := sc.Allocs
	if na == 0 {
		na = len(sc.Threads) + 1
	}
	c.its = make([]*radix.Iterator, len(sc.Threads))
	failed := false
	func() {
		// what happens before is checked elsewhere, by the sequential histories
		defer func() {
			if e := recover(); e != nil {
				c.tr.Ev = append(c.tr.Ev, ev{"panic", 0, fmt.Sprint(e)})
				c.tr.Info = string(debug.Stack())
				failed = true
			}
		}()
		pre := func() {
			c.tree = radix.NewTree(&radix.Options{NumAllocators: na})
			for _, k := range sc.Pre {
				c.apply(k, c.tr.Pre)
			}
			if sc.Own {
				for range sc.Threads {
					c.alloc = append(c.alloc, c.tree.GetAllocator())
				}
			}
		}
		s := &vshim.Sched{Dec: &segments{}, MaxStep: math.MaxInt32}
		s.OnPanic = func(id int, v interface{}) {
			c.tr.Ev = append(c.tr.Ev, ev{"panic", 0, fmt.Sprint(v)})
			c.tr.Info = string(debug.Stack())
		}
		if !s.Run([]func(){pre}) {
			failed = true
			if s.Hung || s.Stuck {
				c.tr.Ev = append(c.tr.Ev, ev{"hang", 0})
			}
		}
	}()
	if failed {
		c.bad = true
		return c
	}
	if journal != nil {
		writeJournal(c.tr)
	}
	s := &vshim.Sched{Level: sc.Level, Dec: dec, MaxStep: 400000}
	c.sched = s
	s.OnPanic = func(id int, v interface{}) {
		c.add("panic", id+1, fmt.Sprint(v))
		c.tr.Info = string(debug.Stack())
	}
	var fns []func()
	for i := range sc.Threads {
		i := i
		fns = append(fns, func() {
			for _, op := range sc.Threads[i] {
				c.do(i, op)
			}
		})
	}
	ok := s.Run(fns)
	c.steps = append([]int(nil), s.Spread...)
	if s.Hung || s.Stuck {
		c.mu.Lock()
		c.tr.Ev = append(c.tr.Ev, ev{"hang", 0})
		c.mu.Unlock()
	}
	if !ok {
		c.bad = true
		return c
	}
	// at rest now
	s = &vshim.Sched{Dec: &segments{}, MaxStep: 4000000}
	s.OnPanic = func(id int, v interface{}) {
		c.add("panic", id+1, fmt.Sprint(v))
		c.tr.Info = string(debug.Stack())
	}
	ok = s.Run([]func(){c.audit})
	if s.Hung || s.Stuck {
		c.mu.Lock()
		c.tr.Ev = append(c.tr.Ev, ev{"hang", 1})
		c.mu.Unlock()
	}
	if !ok {
		c.bad = true
		return c
	}
	c.tree.Close()
	return c
}

// writeJournal starts the journal of a trace.
func writeJournal(tr interface{}) {
	journal.Truncate(0)
	journal.Seek(0, 0)
	b, _ := json.Marshal(tr)
	journal.Write(append(b, '\n'))
}

// discard tries to end the background goroutine of a tree.
func (c *conc) discard() {
	if c.tree == nil || !c.bad {
		return
	}
	done := make(chan bool)
	go func() {
		defer func() { recover(); close(done) }()
		c.tree.Close()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Millisecond):
	}
}

func (c *conc) ret(t int, f bool, v uint64) {
	if f {
		c.add("ret", t+1, true, c.st.val(v), c.st.owner(v))
	} else {
		c.add("ret", t+1, false, 0, 0)
	}
}

// enough: those that have to succeed try until they do, the others four times.
func (c *conc) enough(t int, op Op, tries int) bool {
	if op.O == "putr" || op.O == "delr" {
		if tries == 100 {
			c.add("starved", t+1)
		}
		return tries >= 100
	}
	return tries >= 4
}

func (c *conc) do(t int, op Op) {
	var al *radix.Allocator
	if c.sc.Own {
		al = c.alloc[t]
	}
	var l loans
	key := l.lend(op.P)
	if op.K > 0 {
		key = l.lend(c.sc.Keys[op.K-1])
	}
	defer func() {
		if l.back() {
			c.add("written", t+1, op.O)
		}
	}()
	switch op.O {
	case "get", "probe":
		if op.O == "probe" {
			op.K = c.st.idx[string(op.P)]
			c.add("call", t+1, "get", op.K, ints(op.P))
		} else {
			c.add("call", t+1, "get", op.K)
		}
		var v uint64
		var f bool
		if al != nil {
			v, f = al.Lookup(key)
		} else {
			v, f = c.tree.Lookup(key)
		}
		c.ret(t, f, v)
	case "put", "puta", "putr":
		for try := 0; ; try++ {
			if c.enough(t, op, try) {
				return
			}
			c.add("call", t+1, "pu", op.K)
			var f bool
			var u *radix.UpdateOperation
			if al != nil {
				f, u = al.PrepareUpdate(key)
			} else {
				f, u = c.tree.PrepareUpdate(key)
			}
			var v uint64
			if f {
				v = u.Value
				u.FetchedKey = c.st.fetch(u.FetchedKey[:0], v)
				u.Match = bytes.Equal(u.FetchedKey, key)
			}
			c.ret(t, f, v)
			vshim.Point()
			if f && c.st.owner(v) < 0 {
				return // the trace is rejected anyway
			}
			if op.O == "puta" {
				c.add("call", t+1, "abort")
				u.Abort()
				c.add("ret", t+1)
				return
			}
			nv := c.st.fresh(op.K)
			c.add("call", t+1, "fin", c.st.val(nv))
			ok := u.Finalize(nv)
			c.add("ret", t+1, ok)
			if ok {
				return
			}
		}
	case "del", "dela", "probed", "delr":
		for try := 0; ; try++ {
			if c.enough(t, op, try) {
				return
			}
			if op.O == "probed" {
				op.K = c.st.idx[string(op.P)]
				c.add("call", t+1, "pd", op.K, ints(op.P))
			} else {
				c.add("call", t+1, "pd", op.K)
			}
			var f bool
			var d *radix.DeleteOperation
			if al != nil {
				f, d = al.PrepareDelete(key)
			} else {
				f, d = c.tree.PrepareDelete(key)
			}
			var v uint64
			if f {
				v = d.Value
				d.FetchedKey = c.st.fetch(d.FetchedKey[:0], v)
			}
			c.ret(t, f, v)
			if !f {
				return
			}
			vshim.Point()
			if op.O == "dela" || op.O == "probed" || !bytes.Equal(d.FetchedKey, key) {
				c.add("call", t+1, "abort")
				d.Abort()
				c.add("ret", t+1)
				return
			}
			c.add("call", t+1, "fin", 0)
			ok := d.Finalize()
			c.add("ret", t+1, ok)
			if ok {
				return
			}
		}
	case "len":
		c.add("call", t+1, "len")
		c.add("ret", t+1, c.tree.Len())
	case "admin":
		// nothing is said about what it shows of a tree that changes
		c.add("call", t+1, "admin", string(op.P))
		var out bytes.Buffer
		c.tree.Admin(&out, strings.Fields(string(op.P)))
		if op.N == 1 {
			// and the nodes it has shown
			for _, m := range nodeID.FindAllSubmatch(append([]byte(nil), out.Bytes()...), 5) {
				c.tree.Admin(&out, []string{"node", string(m[1])})
			}
		}
		c.add("ret", t+1, out.Len() > 0)
	case "stats":
		c.add("call", t+1, "admin", "stats")
		s := map[string]interface{}{}
		c.tree.Stats(s)
		c.add("ret", t+1, len(s) > 0)
	case "min", "max":
		c.add("call", t+1, op.O, ints(op.P))
		var v uint64
		var f bool
		if op.O == "min" {
			v, f = c.tree.MinKey(key)
		} else {
			v, f = c.tree.MaxKey(key)
		}
		c.ret(t, f, v)
	case "cnt":
		c.add("call", t+1, "cnt", ints(op.P))
		_, leaves := c.tree.Count(key)
		c.add("ret", t+1, leaves)
	case "inew":
		if c.its[t] != nil {
			c.its[t].Reset(key)
		} else {
			c.its[t] = c.tree.NewIterator(key)
		}
		c.add("inew", t+1, ints(op.P))
	case "next":
		// to the end, or N items
		for n := 0; op.N == 0 || n < op.N; n++ {
			c.add("call", t+1, "next")
			f := c.its[t].Next()
			var v uint64
			if f {
				v = c.its[t].Value()
			}
			c.ret(t, f, v)
			if !f || n > 2*len(c.sc.Keys)+10 {
				break
			}
		}
	case "bulk":
		c.bulk(t, op)
	default:
		panic("unknown op " + op.O)
	}
}

// bulk makes N changes to the keys Keys[K-1:B], without interruption unless it has to wait. It ends with what V's bits say.
func (c *conc) bulk(t int, op Op) {
	vshim.Quiet(true)
	defer vshim.Quiet(false)
	type rng struct{ lo, hi, end int }
	m := map[int]*rng{}
	r := newRnd(op.V)
	lo, hi := op.K, op.B
	content := make([]int, len(c.sc.Keys))
	for i := 0; i < op.N; i++ {
		k := lo + r.n(hi-lo+1)
		if op.A == 1 {
			// round robin: all in, all out
			k = lo + (i/2)%(hi-lo+1)
			if i%2 == 1 {
				k = -k
			}
		} else if r.n(2) == 0 {
			k = -k
		}
		c.apply(k, content)
		if k < 0 {
			k = -k
		}
		x := m[k]
		if x == nil {
			x = &rng{int(c.st.next), 0, 0}
			m[k] = x
			if content[k-1] == 0 {
				x.lo = int(c.st.next) + 1
			}
		}
		if content[k-1] != 0 {
			x.hi = content[k-1]
		}
		x.end = content[k-1]
	}
	e := []interface{}{}
	for k := lo; k <= hi; k++ {
		if x := m[k]; x != nil {
			if x.hi == 0 {
				x.hi = x.lo - 1
			}
			e = append(e, []int{k, x.lo, x.hi, x.end})
		}
	}
	c.add("bulk", t+1, e)
}

// audit asks about everything, and changes the hot keys once more.
func (c *conc) audit() {
	sc, st := c.sc, c.st
	if sc.Own {
		for _, a := range c.alloc {
			c.tree.ReleaseAllocator(a)
		}
	}
	gets := func() {
		res := []interface{}{}
		for _, key := range sc.Keys {
			v, f := c.tree.Lookup(key)
			if f {
				res = append(res, []interface{}{true, st.val(v), st.owner(v)})
			} else {
				res = append(res, []interface{}{false, 0, 0})
			}
		}
		c.add("gets", res)
	}
	iter := func() {
		it := c.tree.NewIterator(nil)
		vals := []interface{}{}
		for it.Next() && len(vals) < 2*len(sc.Keys)+10 {
			vals = append(vals, st.val(it.Value()))
		}
		it.Close()
		c.add("iter", []int{}, vals)
	}
	cnt := func() {
		n := radix.NewCounter(c.tree)
		nodes, leaves := n.Count(nil)
		c.add("cnt", []int{}, counted(n, leaves, nodes))
	}
	gets()
	iter()
	c.add("len", c.tree.Len())
	cnt()
	for i, mx := range []bool{false, true} {
		v, f := c.tree.MinKey(nil)
		if i == 1 {
			v, f = c.tree.MaxKey(nil)
		}
		if !f {
			v = 0
		}
		c.add("ext", []int{}, mx, f, st.val(v))
	}
	for _, k := range sc.Hot {
		key := sc.Keys[k-1]
		f, u := c.tree.PrepareUpdate(key)
		var v uint64
		owner := 0
		if f {
			v = u.Value
			owner = st.owner(v)
			u.FetchedKey = st.fetch(u.FetchedKey[:0], v)
			u.Match = bytes.Equal(u.FetchedKey, key)
		}
		if owner < 0 {
			c.add("put", k, f, st.val(v), owner, 0, false)
			return
		}
		nv := st.fresh(k)
		ok := u.Finalize(nv)
		c.add("put", k, f, st.val(v), owner, st.val(nv), ok)
	}
	for _, k := range sc.Hot {
		key := sc.Keys[k-1]
		f, d := c.tree.PrepareDelete(key)
		if !f {
			c.add("del", k, false, 0, 0, false)
			continue
		}
		v := d.Value
		d.FetchedKey = st.fetch(d.FetchedKey[:0], v)
		if !bytes.Equal(d.FetchedKey, key) {
			d.Abort()
			c.add("del", k, true, st.val(v), st.owner(v), false)
			continue
		}
		ok := d.Finalize()
		c.add("del", k, true, st.val(v), st.owner(v), ok)
	}
	if len(sc.Hot) > 0 {
		gets()
		c.add("len", c.tree.Len())
		cnt()
	}
}

// ---------------------------------------------------------------- deciders

type seg struct{ t, n int }

// segments runs a list of (thread, number of steps), then everything that is left in turn.
type segments struct {
	segs []seg
	done int
}

func (d *segments) Next(s *vshim.Sched, cur int, forced bool) int {
	for len(d.segs) > 0 {
		x := &d.segs[0]
		if d.done >= x.n || !s.Runnable(x.t) || (forced && cur == x.t && d.done > 0) {
			d.segs = d.segs[1:]
			d.done = 0
			continue
		}
		d.done++
		return x.t
	}
	if cur >= 0 && !forced && s.Runnable(cur) {
		return cur
	}
	for i := 1; i <= s.N(); i++ {
		if t := (cur + i + s.N()) % s.N(); s.Runnable(t) {
			return t
		}
	}
	return 0
}

// random switches with a probability of one in n at every point.
type random struct {
	r *rnd
	n int
}

func (d *random) Next(s *vshim.Sched, cur int, forced bool) int {
	if cur >= 0 && !forced && s.Runnable(cur) && d.r.n(d.n) != 0 {
		return cur
	}
	for i := 0; i < 20; i++ {
		t := d.r.n(s.N())
		if s.Runnable(t) && (t != cur || i > 10) {
			return t
		}
	}
	for t := 0; t < s.N(); t++ {
		if s.Runnable(t) {
			return t
		}
	}
	return 0
}

// pct is the priority based scheduler with a few random change points.
type pct struct {
	prio    []int
	changes map[int]bool
	n       int
	low     int
}

func newPct(r *rnd, threads, d, length int) *pct {
	p := &pct{prio: r.perm(threads), changes: map[int]bool{}}
	for i := 0; i < d; i++ {
		p.changes[r.n(length)] = true
	}
	return p
}

func (p *pct) Next(s *vshim.Sched, cur int, forced bool) int {
	p.n++
	if cur >= 0 && (forced || p.changes[p.n]) {
		p.low--
		p.prio[cur] = p.low
	}
	best := -1
	for t := 0; t < s.N(); t++ {
		if s.Runnable(t) && (best < 0 || p.prio[t] > p.prio[best]) {
			best = t
		}
	}
	return best
}

// ---------------------------------------------------------------- exploration

type explorer struct {
	o    *output
	over func() bool
	runs int
	bad  int
}

// one runs a scene once, and keeps the trace if its history is new.
func (x *explorer) one(sc *Scene, dec vshim.Decider, seen map[string]bool) *conc {
	var c *conc
	if sc.Pool {
		c = runPool(sc, dec)
	} else {
		c = runScene(sc, dec)
	}
	x.runs++
	x.o.mu.Lock()
	x.o.ops += len(c.tr.Ev)
	x.o.mu.Unlock()
	b, _ := json.Marshal(c.tr.Ev)
	if c.bad {
		x.bad++
		c.discard()
	}
	x.o.mu.Lock()
	x.o.total++
	x.o.mu.Unlock()
	if !seen[string(b)] {
		seen[string(b)] = true
		x.o.total--
		x.o.add(c.tr, "")
	}
	if x.bad > 20 {
		// enough evidence; the process has goroutines left behind
		x.o.close()
		os.Exit(0)
	}
	return c
}

// explore runs a scene under at most limit schedules.
func (x *explorer) explore(sc *Scene, r *rnd, limit int) {
	seen := map[string]bool{}
	n := len(sc.Threads)
	runs := 0
	var steps []int
	total := 0
	// no preemption, in every order of the threads
	for _, p := range perms(n) {
		var sg []seg
		for _, t := range p {
			sg = append(sg, seg{t, math.MaxInt32})
		}
		c := x.one(sc, &segments{segs: sg}, seen)
		runs++
		if len(c.steps) == n {
			if steps == nil {
				steps = make([]int, n)
			}
			for i := range steps {
				if c.steps[i] > steps[i] {
					steps[i] = c.steps[i]
				}
			}
		}
	}
	for _, s := range steps {
		total += s
	}
	if steps == nil || total == 0 {
		return
	}
	if sc.Three {
		// the writer stops, the epochs advance, the reader stops, the writer goes on
		a, b := steps[1]+1, steps[0]+1
		stride := a*b/limit + 1
		k := r.n(stride)
		for i := 1; i <= a; i++ {
			for j := 1; j <= b; j++ {
				k++
				if k%stride != 0 {
					continue
				}
				if x.over() {
					return
				}
				x.one(sc, &segments{segs: []seg{{1, i}, {2, math.MaxInt32}, {0, j}, {1, math.MaxInt32}, {0, math.MaxInt32}}}, seen)
			}
		}
		return
	}
	// one preemption: a runs i steps, then the others run, then a goes on
	one := 0
	for _, s := range steps {
		one += s * fact(n-1)
	}
	stride := 1
	if one > limit/2 {
		stride = one/(limit/2) + 1
	}
	k := r.n(stride)
	for _, p := range perms(n) {
		for i := 1; i < steps[p[0]]; i++ {
			k++
			if k%stride != 0 {
				continue
			}
			if x.over() || runs >= limit {
				return
			}
			sg := []seg{{p[0], i}}
			for _, t := range p[1:] {
				sg = append(sg, seg{t, math.MaxInt32})
			}
			x.one(sc, &segments{segs: sg}, seen)
			runs++
		}
	}
	// two preemptions, all of them if there are few enough
	two := 0
	for a := range steps {
		for b := range steps {
			if a != b {
				two += steps[a] * steps[b] * fact(n-2)
			}
		}
	}
	if two <= limit-runs {
		for _, p := range perms(n) {
			for i := 1; i < steps[p[0]]; i++ {
				for j := 1; j < steps[p[1]]; j++ {
					if x.over() {
						return
					}
					sg := []seg{{p[0], i}, {p[1], j}}
					for _, t := range p[2:] {
						sg = append(sg, seg{t, math.MaxInt32})
					}
					x.one(sc, &segments{segs: append(sg, seg{p[0], math.MaxInt32})}, seen)
					runs++
				}
			}
		}
	}
	for runs < limit && !x.over() {
		var d vshim.Decider
		switch r.n(4) {
		case 0:
			d = &random{r, r.pick(2, 4, 8, 20)}
		case 1:
			d = newPct(r, n, r.pick(1, 2, 3), total+1)
		default:
			// two or three preemptions
			p := r.perm(n)
			sg := []seg{{p[0], 1 + r.n(steps[p[0]])}, {p[1%n], 1 + r.n(steps[p[1%n]])}}
			if r.n(2) == 0 {
				sg = append(sg, seg{p[r.n(n)], 1 + r.n(steps[p[0]])})
			}
			if n > 2 && r.n(2) == 0 {
				sg = append(sg, seg{p[2], 1 + r.n(steps[p[2]])})
			}
			d = &segments{segs: append(sg, seg{p[0], math.MaxInt32})}
		}
		x.one(sc, d, seen)
		runs++
	}
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}
