// Command drv runs the real tree through scripts and schedules and records what it answers as traces, which are judged
// by the trace specifications in /verif/spec.  The driver itself takes no verdicts.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
	"verif/harness/vshim"
)

// Op is one step of a script.
type Op struct {
	O string `json:"o"`
	K int    `json:"k,omitempty"` // key, 1 based
	P []byte `json:"p,omitempty"` // prefix or probe
	N int    `json:"n,omitempty"`
	A int    `json:"a,omitempty"` // 0: tree level call, n: the n:th allocator held by the script
	T int    `json:"t,omitempty"` // tree, 0 means 1
	B int    `json:"b,omitempty"` // saved state, iterator
	C int    `json:"c,omitempty"`
	V uint64 `json:"v,omitempty"`
}

// Script is a sequence of steps on one or more trees.
type Script struct {
	Keys   [][]byte
	Big    bool
	Allocs int
	Ops    []Op
	NT     int // trees
	NB     int // saved states
	NI     int // iterators
	Tag    string
	Warm   int  // rounds before the memory limit applies
	Node   int  // the largest node in words
	Cross  bool // insertions through one allocator, deletions through another
	Pf     bool // keys may be prefixes of others
}

type ev []interface{}

// Trace is what is given to TLC.
type Trace struct {
	Keys  [][]int `json:"keys"`
	Big   int     `json:"big"`
	NT    int     `json:"nt"`
	NB    int     `json:"nb"`
	NI    int     `json:"ni"`
	Warm  int     `json:"warm"`
	Node  int     `json:"node"`
	Cross int     `json:"cross"`
	Pf    int     `json:"pf"`
	NA    int     `json:"na"`
	Ev    []ev    `json:"ev"`
	Tag   string  `json:"tag"`
	Info  string  `json:"info,omitempty"`
}

// touch tells the watchdog that something happens.
func (r *run) touch() { atomic.AddInt64(&r.prog, 1) }

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

const valueMask = 1<<55 - 1

// store is the permanent storage of the user: it knows the key of every value.
type store struct {
	keys [][]byte
	idx  map[string]int
	own  map[uint64]int
	next uint64
	big  bool
	rnd  *rnd
}

func newStore(keys [][]byte, big bool, seed uint64) *store {
	s := &store{keys: keys, idx: map[string]int{}, own: map[uint64]int{}, big: big, rnd: newRnd(seed)}
	for i, k := range keys {
		s.idx[string(k)] = i + 1
	}
	return s
}

// fresh returns a value never used before, to be stored under key k.
func (s *store) fresh(k int) uint64 {
	s.next++
	v := s.next
	if s.big {
		// random bits above, and beyond the 55 kept
		v |= s.rnd.u64() << 20
		switch s.rnd.n(6) {
		case 0:
			v |= 1<<64 - 1<<20
		case 1:
			v |= 1 << 54
		case 2:
			v = s.next | 1<<55
		}
		if s.next == 1 && s.rnd.n(2) == 0 {
			v = 0
		}
	}
	s.own[v&valueMask] = k
	return v
}

func (s *store) owner(v uint64) int {
	if k, ok := s.own[v]; ok {
		return k
	}
	return -1
}

// fetch is what a user does to get the key of a candidate.
func (s *store) fetch(dst []byte, v uint64) []byte {
	if k, ok := s.own[v]; ok {
		return append(dst, s.keys[k-1]...)
	}
	return dst
}

// val is how a value looks in a trace.
func (s *store) val(v uint64) interface{} {
	if s.big {
		return []int{int(v >> 44), int(v>>22) & (1<<22 - 1), int(v & (1<<22 - 1))}
	}
	if v > 1<<30 {
		return -1 // foreign
	}
	return int(v)
}

type rnd struct{ s uint64 }

func newRnd(seed uint64) *rnd {
	// scrambled, as the streams of neighbouring seeds would overlap otherwise
	r := &rnd{seed}
	r.s = r.u64() ^ 0x1234567
	r.s = r.u64()
	return r
}

func (r *rnd) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rnd) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rnd) pick(a ...int) int { return a[r.n(len(a))] }
func (r *rnd) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}
func (r *rnd) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// output collects traces, the same trace is kept once only.
type output struct {
	f     *os.File
	w     *bufio.Writer
	n     int
	seen  map[string]bool
	total int
	mu    sync.Mutex
	ops   int
}

func newOutput(path string) *output {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o := &output{f: f, w: bufio.NewWriterSize(f, 1<<20), seen: map[string]bool{}}
	o.w.WriteString("[")
	return o
}

func (o *output) add(t interface{}, key string) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.total++
	if key != "" {
		if o.seen[key] {
			return false
		}
		o.seen[key] = true
	}
	b, err := json.Marshal(t)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if o.n > 0 {
		o.w.WriteString(",\n")
	}
	o.w.Write(b)
	o.n++
	return true
}

func (o *output) close() {
	o.mu.Lock()
	o.w.WriteString("]\n")
	o.w.Flush()
	o.f.Close()
	fmt.Printf("{\"runs\": %d, \"traces\": %d, \"ops\": %d}\n", o.total, o.n, o.ops)
}

var journal *os.File

func init() {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(128 << 20)
	if p := os.Getenv("DRV_JOURNAL"); p != "" {
		journal, _ = os.Create(p)
	}
	go func() {
		// a run that eats the memory is as bad as one that does not end
		for {
			time.Sleep(200 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				atomic.StoreInt32(&memoryOut, 1)
			}
		}
	}()
}

var memoryOut int32

// run is the execution of a script.
type run struct {
	sc    *Script
	st    *store
	tr    *Trace
	trees []*radix.Tree
	alloc map[int][]*radix.Allocator
	blobs [][]byte
	its   []*radix.Iterator
	reuse map[*radix.Tree]*radix.Iterator
	prog  int64
	base  int
	// changes since the last look at the memory
	changes int
	holding bool
	mu      sync.Mutex
	dead    bool
	loans
	made int
}

func (r *run) add(e ...interface{}) {
	r.mu.Lock()
	if !r.dead {
		r.tr.Ev = append(r.tr.Ev, e)
		if journal != nil {
			b, _ := json.Marshal(e)
			journal.Write(append(b, '\n'))
		}
	}
	r.mu.Unlock()
	atomic.AddInt64(&r.prog, 1)
}

// hangAfter is how long a single call may take
var hangAfter = 20 * time.Second

// runScript executes a script, and returns false if the process should not go on after it.
func runScript(sc *Script, seed uint64) (tr *Trace, ok bool) {
	if sc.NT == 0 {
		sc.NT = 1
	}
	r := &run{sc: sc, st: newStore(sc.Keys, sc.Big, seed), alloc: map[int][]*radix.Allocator{}, reuse: map[*radix.Tree]*radix.Iterator{}}
	r.tr = &Trace{NA: sc.Allocs, NT: sc.NT, NB: sc.NB, NI: sc.NI, Warm: sc.Warm, Node: sc.Node, Tag: sc.Tag, Ev: []ev{}}
	for _, k := range sc.Keys {
		r.tr.Keys = append(r.tr.Keys, ints(k))
	}
	if sc.Big {
		r.tr.Big = 1
	}
	if sc.Cross {
		r.tr.Cross = 1
	}
	if sc.Pf {
		r.tr.Pf = 1
	}
	if journal != nil {
		journal.Truncate(0)
		journal.Seek(0, 0)
		b, _ := json.Marshal(r.tr)
		journal.Write(append(b, '\n'))
	}
	r.trees = make([]*radix.Tree, sc.NT+1)
	r.blobs = make([][]byte, sc.NB+1)
	r.its = make([]*radix.Iterator, sc.NI+1)
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				r.add("panic", fmt.Sprint(e))
				r.mu.Lock()
				r.tr.Info = string(debug.Stack())
				r.mu.Unlock()
				done <- false
				return
			}
			done <- true
		}()
		if strings.Contains(sc.Tag, "close") {
			for i := 0; i < 100; i++ {
				if r.base = background(); r.base == 0 {
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
		r.trees[1] = radix.NewTree(&radix.Options{NumAllocators: sc.Allocs})
		for _, op := range sc.Ops {
			r.step(op)
		}
	}()
	last, idle := int64(-1), 0
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	ok = true
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			p := atomic.LoadInt64(&r.prog)
			if p != last {
				last, idle = p, 0
			} else {
				idle++
			}
			if time.Duration(idle)*100*time.Millisecond > hangAfter || atomic.LoadInt32(&memoryOut) != 0 {
				r.add("hang", 0)
				ok = false
				break loop
			}
		}
	}
	r.mu.Lock()
	r.dead = true
	r.mu.Unlock()
	if ok {
		r.cleanup()
	}
	return r.tr, ok
}

// cleanup ends the background goroutines of the trees; what this does is not part of the trace.
func (r *run) cleanup() {
	c := make(chan bool)
	go func() {
		defer func() { recover(); close(c) }()
		for t, as := range r.alloc {
			for _, a := range as {
				r.trees[t].ReleaseAllocator(a)
			}
		}
		for _, t := range r.trees {
			if t != nil {
				t.Close()
			}
		}
	}()
	select {
	case <-c:
	case <-time.After(200 * time.Millisecond):
		// left behind
	}
}

func (r *run) allocator(t, a int) *radix.Allocator {
	for len(r.alloc[t]) < a {
		r.alloc[t] = append(r.alloc[t], r.trees[t].GetAllocator())
	}
	return r.alloc[t][a-1]
}

func (r *run) releaseAll(t int) {
	for _, a := range r.alloc[t] {
		r.trees[t].ReleaseAllocator(a)
	}
	r.alloc[t] = nil
}

var errWriter = errors.New("the writer's error")

// failWriter fails after a number of bytes, or at the n-th write if n > 0.
type failWriter struct {
	left  int
	n     int
	short bool // takes what fits
	once  bool // recovers
	full  bool // reports an error although everything was taken
	down  bool
	count int
	total int
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.count++
	w.total += len(p)
	if w.down {
		if w.once {
			return len(p), nil
		}
		return 0, errWriter
	}
	if w.n > 0 && w.count < w.n || w.n == 0 && len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	w.down = true
	switch {
	case w.full:
		return len(p), errWriter
	case w.short && w.n > 0:
		return len(p) / 2, errWriter
	case w.short:
		return w.left, errWriter
	}
	return 0, errWriter
}

// pieceReader reads a few bytes at a time, and then fails if it has an error.
type pieceReader struct {
	data []byte
	err  error
	r    *rnd
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		if p.err != nil {
			return 0, p.err
		}
		return 0, io.EOF
	}
	n := 1 + p.r.n(p.r.pick(1, 20, 3000, 100000))
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 && p.r.n(2) == 0 {
		// the last bytes together with the end
		if p.err != nil {
			return n, p.err
		}
		return n, io.EOF
	}
	return n, nil
}

func (r *run) step(op Op) {
	if r.holding {
		// not for longer than something may depend on those held
		c := time.AfterFunc(400*time.Millisecond, vshim.ReleaseOthers)
		defer c.Stop()
	}
	t := op.T
	if t == 0 {
		t = 1
	}
	tree := r.trees[t]
	st := r.st
	defer func() {
		if r.back() {
			r.add("written", t, op.O)
		}
	}()
	switch op.O {
	case "get":
		key := r.lend(r.sc.Keys[op.K-1])
		var v uint64
		var f bool
		if op.A > 0 {
			v, f = r.allocator(t, op.A).Lookup(key)
		} else {
			v, f = tree.Lookup(key)
		}
		r.found("get", t, op.K, f, v)

	case "gets":
		res := []interface{}{}
		for _, key := range r.sc.Keys {
			v, f := tree.Lookup(r.lend(key))
			if f {
				res = append(res, []interface{}{true, st.val(v), st.owner(v)})
			} else {
				res = append(res, []interface{}{false, st.val(0), 0})
			}
		}
		r.add("gets", t, res)

	case "probe":
		var v uint64
		var f bool
		if op.N == 1 {
			var d *radix.DeleteOperation
			if op.A > 0 {
				f, d = r.allocator(t, op.A).PrepareDelete(r.lend(op.P))
			} else {
				f, d = tree.PrepareDelete(r.lend(op.P))
			}
			if f {
				v = d.Value
				d.Abort()
			} else if d != nil {
				// documented: nil if and only if not found
				r.add("notnil")
			}
		} else if op.A > 0 {
			v, f = r.allocator(t, op.A).Lookup(r.lend(op.P))
		} else {
			v, f = tree.Lookup(r.lend(op.P))
		}
		if f {
			r.add("probe", t, ints(op.P), true, st.val(v), st.owner(v))
		} else {
			r.add("probe", t, ints(op.P), false, st.val(0), 0)
		}

	case "put", "puta":
		key := r.lend(r.sc.Keys[op.K-1])
		var f bool
		var u *radix.UpdateOperation
		if op.A > 0 {
			f, u = r.allocator(t, op.A).PrepareUpdate(key)
		} else {
			f, u = tree.PrepareUpdate(key)
		}
		var v uint64
		owner := 0
		if f {
			v = u.Value
			owner = st.owner(v)
			u.FetchedKey = r.fetched(u.FetchedKey, v)
			u.Match = bytes.Equal(u.FetchedKey, key)
		}
		if op.O == "puta" {
			u.Abort()
			r.add("abort", t, op.K, f, st.val(v), owner)
			return
		}
		if owner < 0 {
			// finalizing would only add to the mess
			r.add("put", t, op.K, f, st.val(v), owner, st.val(0), false)
			return
		}
		nv := st.fresh(op.K)
		ok := u.Finalize(nv)
		r.add("put", t, op.K, f, st.val(v), owner, st.val(nv), ok)

	case "del", "dela":
		key := r.lend(r.sc.Keys[op.K-1])
		var f bool
		var d *radix.DeleteOperation
		if op.A > 0 {
			f, d = r.allocator(t, op.A).PrepareDelete(key)
		} else {
			f, d = tree.PrepareDelete(key)
		}
		name := op.O
		if name == "dela" {
			name = "abort"
		}
		if !f {
			if d != nil {
				r.add("notnil")
			}
			if name == "del" {
				r.add(name, t, op.K, false, st.val(0), 0, false)
			} else {
				r.add(name, t, op.K, false, st.val(0), 0)
			}
			return
		}
		v := d.Value
		owner := st.owner(v)
		d.FetchedKey = r.fetched(d.FetchedKey, v)
		match := bytes.Equal(d.FetchedKey, key)
		if name == "abort" || !match {
			d.Abort()
			if name == "del" {
				r.add(name, t, op.K, true, st.val(v), owner, false)
			} else {
				r.add(name, t, op.K, true, st.val(v), owner)
			}
			return
		}
		ok := d.Finalize()
		r.add(name, t, op.K, true, st.val(v), owner, ok)

	case "iter", "iterp":
		// N: number of items for iterp; B=1: reuse of one iterator
		var it *radix.Iterator
		if op.B == 1 {
			it = r.reuse[tree]
			if it == nil {
				it = radix.NewIterator(tree, r.lend(op.P))
				r.reuse[tree] = it
			} else {
				it.Reset(r.lend(op.P))
			}
		} else {
			it = tree.NewIterator(r.lend(op.P))
		}
		dirty := r.back()
		vals := []interface{}{}
		for op.O == "iter" || len(vals) < op.N {
			if !it.Next() {
				break
			}
			vals = append(vals, st.val(it.Value()))
			if len(vals) > 2*len(r.sc.Keys)+10 {
				break
			}
		}
		if op.O == "iter" && it.Next() {
			vals = append(vals, st.val(it.Value()))
		}
		if op.B != 1 {
			it.Close()
		}
		r.add(op.O, t, ints(op.P), vals)
		if dirty {
			r.add("written", t, op.O)
		}

	case "min", "max":
		var v uint64
		var f bool
		if op.O == "min" {
			v, f = tree.MinKey(r.lend(op.P))
		} else {
			v, f = tree.MaxKey(r.lend(op.P))
		}
		if !f {
			v = 0
		}
		r.add("ext", t, ints(op.P), op.O == "max", f, st.val(v))

	case "len":
		r.add("len", t, tree.Len())

	case "cnt":
		c := radix.NewCounter(tree)
		if op.B == 1 {
			// a used counter must forget
			c.Count(nil)
		}
		nodes, leaves := c.Count(r.lend(op.P))
		r.add("cnt", t, ints(op.P), counted(c, leaves, nodes))

	case "leaves":
		_, leaves := tree.Count(r.lend(op.P))
		r.add("leaves", t, ints(op.P), leaves)

	case "inew":
		if r.its[op.B] != nil && op.N == 1 {
			r.its[op.B].Reset(r.lend(op.P))
		} else {
			r.its[op.B] = tree.NewIterator(r.lend(op.P))
		}
		r.add("inew", op.B, t, ints(op.P))

	case "iclose":
		if r.its[op.B] != nil {
			r.its[op.B].Close()
		}
		r.its[op.B] = nil

	case "inext":
		n := op.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			f := r.its[op.B].Next()
			var v uint64
			owner := 0
			if f {
				v = r.its[op.B].Value()
				owner = st.owner(v)
			}
			r.add("inext", op.B, f, st.val(v), owner)
			if !f {
				break
			}
		}

	case "release":
		r.releaseAll(t)
	case "stop":
		r.releaseAll(t)
		tree.Stop()
		r.add("stop", t)
	case "start":
		tree.Start()
		r.add("start", t)
	case "save":
		var b bytes.Buffer
		n, err := tree.WriteState(&b)
		res := "ok"
		if err != nil {
			res = "error: " + err.Error()
		} else if n != b.Len() {
			res = fmt.Sprintf("wrong length %d", n-b.Len())
		}
		r.blobs[op.B] = b.Bytes()
		r.add("save", t, op.B, res)
	case "load":
		var rd io.Reader = bytes.NewReader(r.blobs[op.B])
		if op.N == 1 {
			rd = &pieceReader{data: r.blobs[op.B], r: newRnd(uint64(op.B + t))}
		}
		nt, err := radix.NewTreeFromState(rd)
		res := "ok"
		if err != nil {
			res = "error: " + err.Error()
		}
		if o := r.trees[t]; o != nil {
			r.releaseAll(t)
			o.Close()
		}
		r.trees[t] = nt
		r.add("load", op.B, t, res)
		if err != nil {
			panic("no tree")
		}
	case "cut":
		// K bytes of the state; the outcome of loading
		r.add("cut", op.B, op.K, r.cut(op.B, op.K, op.A))
	case "cuts":
		// every cut in [K, N), one event for all with the same outcome
		out := map[string][]int{}
		for c := op.K; c < op.N && c < len(r.blobs[op.B]); c++ {
			res := r.cut(op.B, c, op.A)
			out[res] = append(out[res], c)
			atomic.AddInt64(&r.prog, 1)
		}
		names := []string{}
		for n := range out {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			r.add("cut", op.B, out[n][0], n, len(out[n]))
		}
	case "cutr":
		// somewhere
		if l := len(r.blobs[op.B]); l > 0 {
			c := int(op.V % uint64(l))
			r.add("cut", op.B, c, r.cut(op.B, c, op.A))
		}
	case "failsave":
		// somewhere within the state last saved as B
		if l := len(r.blobs[op.B]); l > 0 {
			op.K = int(op.V % uint64(l))
			if op.N&8 != 0 {
				// at one of its writes
				w := &failWriter{left: 1 << 40}
				r.trees[t].WriteState(w)
				op.C = 1 + int(op.V%uint64(w.count))
				op.K = op.C
			}
			r.failSave(t, op)
		}
	case "mem":
		r.add("mem", t, words(tree), r.changes)
		r.changes = 0
	case "new":
		// A: how the number of allocators is given
		n := runtime.NumCPU()
		switch op.A {
		case 0:
			tree = radix.NewTree(nil)
		case 1:
			tree = radix.NewTree(&radix.Options{})
		case 2:
			tree = radix.NewTree(&radix.Options{NumAllocators: -op.N})
		default:
			n = op.N
			tree = radix.NewTree(&radix.Options{NumAllocators: n})
		}
		if o := r.trees[t]; o != nil {
			r.releaseAll(t)
			o.Close()
		}
		r.trees[t] = tree
		r.add("new", t, n)
	case "closeall":
		for i, o := range r.trees {
			if o != nil {
				r.step(Op{O: "close", T: i})
			}
		}
	case "close":
		r.releaseAll(t)
		tree.Close()
		r.trees[t] = nil
		// the goroutines left are counted when the last tree is closed
		left, others := 0, false
		for _, o := range r.trees {
			others = others || o != nil
		}
		for i := 0; i < 500 && !others; i++ {
			left = background() - r.base
			if left <= 0 {
				left = 0
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		r.add("close", t, left)
	default:
		if !r.extra(op) {
			panic("unknown op " + op.O)
		}
	}
}

// fetched is the key of a candidate, in the buffer offered for it or in one of our own.
func (r *run) fetched(buf []byte, v uint64) []byte {
	if r.made++; r.made%3 > 0 {
		return r.st.fetch(buf[:0], v)
	}
	return r.lend(r.st.fetch([]byte{}, v))
}

func (r *run) found(name string, t, k int, f bool, v uint64) {
	if f {
		r.add(name, t, k, true, r.st.val(v), r.st.owner(v))
	} else {
		r.add(name, t, k, false, r.st.val(0), 0)
	}
}

// blobLimit makes a "cut" also look at trees that should not exist
func (r *run) cut(b, n, how int) (res string) {
	type result struct {
		t   *radix.Tree
		err error
		p   interface{}
	}
	c := make(chan result, 1)
	go func() {
		var x result
		defer func() {
			x.p = recover()
			c <- x
		}()
		var rd io.Reader = bytes.NewReader(r.blobs[b][:n])
		switch how {
		case 1:
			rd = &pieceReader{data: r.blobs[b][:n], r: newRnd(uint64(n))}
		case 2:
			rd = &pieceReader{data: r.blobs[b][:n], r: newRnd(uint64(n)), err: errors.New("the reader's error")}
		}
		x.t, x.err = radix.NewTreeFromState(rd)
	}()
	select {
	case x := <-c:
		switch {
		case x.p != nil:
			return fmt.Sprint("panic: ", x.p)
		case x.err != nil:
			return "error"
		}
		if x.t != nil {
			go func() {
				defer func() { recover() }()
				x.t.Close()
			}()
		}
		return "a tree"
	case <-time.After(hangAfter / 2):
		return "hang"
	}
}

func (r *run) failSave(t int, op Op) {
	c := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				c <- fmt.Sprint("panic: ", e)
			}
		}()
		_, err := r.trees[t].WriteState(&failWriter{left: op.K, n: op.C, short: op.N&1 != 0, once: op.N&2 != 0, full: op.N&4 != 0})
		switch {
		case err == nil:
			c <- "no error"
		case errors.Is(err, errWriter) || strings.Contains(err.Error(), errWriter.Error()):
			c <- "its error"
		default:
			c <- "error: " + err.Error()
		}
	}()
	select {
	case res := <-c:
		r.add("failsave", t, op.K, res)
	case <-time.After(hangAfter / 2):
		r.add("failsave", t, op.K, "hang")
	}
}

// words of memory a tree has
func words(tree *radix.Tree) int {
	s := map[string]interface{}{}
	tree.Stats(s)
	n, _ := s["bytes_allocated"].(int)
	return n / 8
}

// background counts goroutines started by the code of the tree.
func background() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Count(string(buf), "created by github.com/jayloop/radix")
}

// counted is what a counter tells: see CountOK in MapOps.tla
func counted(c *radix.Counter, leaves, nodes int) []interface{} {
	sizes := [][]int{}
	for i, n := range c.NodeSizes {
		if n != 0 {
			sizes = append(sizes, []int{i, n})
		}
	}
	return []interface{}{leaves, nodes, c.NodesWithPrefix, c.LargePrefixes, c.TotalPrefixLength, c.TotalPrefixBytes, sizes}
}
