package main

import (
	"bytes"
	"encoding/binary"
	"sort"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// Op is one step of a history.
type Op struct {
	K string   `json:"k"`           // kind
	I int      `json:"i,omitempty"` // key index
	Q hx       `json:"q,omitempty"` // raw query, prefix
	V int      `json:"v,omitempty"` // 0: tree-level method, n: n-th held allocator
	N int      `json:"n,omitempty"` // number, flags
	T int      `json:"t,omitempty"` // tree
	S int      `json:"s,omitempty"` // iterator or operation slot
	A []string `json:"a,omitempty"` // admin arguments
}

// Case is one generated input; it is also the replay format.
type Case struct {
	Property string         `json:"property"`
	Stage    string         `json:"stage"`
	Build    string         `json:"build"`
	Seed     uint64         `json:"seed"`
	Index    int            `json:"index"`
	Kind     string         `json:"universe,omitempty"`
	Keys     []hx           `json:"keys,omitempty"`
	NAlloc   int            `json:"allocators"`
	NTrees   int            `json:"trees,omitempty"`
	Vmode    int            `json:"value_mode"`
	P        map[string]int `json:"params,omitempty"`
	Setup    []Op           `json:"setup,omitempty"`
	Ops      []Op           `json:"ops,omitempty"`
	Tasks    [][]Op         `json:"tasks,omitempty"`
	Data     hx             `json:"data,omitempty"`
	Inputs   []hx           `json:"inputs,omitempty"`
	Sched    *Sched         `json:"sched,omitempty"`
	Failure  string         `json:"failure,omitempty"`
}

// Sched describes how the tasks of a case are interleaved.
type Sched struct {
	Mode  string         `json:"mode"` // list, random, pct
	Seed  uint64         `json:"seed,omitempty"`
	First int            `json:"first"`
	Stmt  int            `json:"stmt,omitempty"`
	Atom  int            `json:"atom,omitempty"`
	Harn  int            `json:"harn,omitempty"`
	Limit uint64         `json:"limit,omitempty"`
	Depth int            `json:"depth,omitempty"`
	Len   uint64         `json:"len,omitempty"`
	List  []sched.Switch `json:"list,omitempty"`
}

// Outcome is what running a case showed.
type Outcome struct {
	Fail       string
	Nontrivial bool
	Execs      int // executions of the code under test (>1 if a case enumerates)
	Classes    map[string]int
	Digest     uint64
	Refined    *Case // a more specific case that fails
	Trace      []sched.Switch
}

func (o *Outcome) class(k string) { o.add(k, 1) }
func (o *Outcome) add(k string, n int) {
	if o.Classes == nil {
		o.Classes = map[string]int{}
	}
	o.Classes[k] += n
}

const valueMask = 1<<55 - 1

// valueFor gives distinct values (after reduction to 55 bits) for distinct n, including the extremes.
func valueFor(mode int, n uint64) uint64 {
	switch mode {
	case 1:
		return n * 0x9E3779B97F4A7C15 & valueMask
	case 2: // high bits set, must be cut off
		return n*0x9E3779B97F4A7C15&valueMask | (n*7+1)<<55
	}
	if n&1 == 1 {
		return valueMask - n/2
	}
	return n / 2
}

type iterState struct {
	it       *radix.Iterator
	prefix   []byte
	lo, hi   int
	always   []bool          // key was in the tree ever since the iteration began
	possible map[uint64]bool // values stored at some moment since
	deleted  bool
	wasEmpty bool // at some moment no matching key was in the tree
	seen     []int
	last     int
	repeats  int
	count    int
	ended    bool
}

type pending struct {
	up    *radix.UpdateOperation
	del   *radix.DeleteOperation
	key   int // index, or -1
	q     []byte
	match bool
	val   uint64
	found bool
	a     *radix.Allocator // the reserved allocator it uses, or nil
	buf   []byte           // the caller's key, from lend
}

// Tree is a tree under test together with its model.
type Tree struct {
	w       *World
	t       *radix.Tree
	live    []bool
	val     []uint64
	n       int
	held    []*radix.Allocator
	parked  []*radix.Allocator // reserved for the time of the concurrent phase
	stopped bool
	nalloc  int
	iters   map[int]*iterState
	pend    map[int]*pending
	counter *radix.Counter
	closed  bool
}

// World is the state of one case.
type World struct {
	hist   map[int][]uint64 // values of each key so far, with P["again"]
	calls  map[int]int
	c      *Case
	keys   []hx
	store  map[uint64]int // value -> key index, the user's storage
	rawSto map[uint64][]byte
	next   uint64
	trees  []*Tree
	out    *Outcome
	digest uint64
	flat   bool // no branching point of the universe has 128 children
	step   int
	sweeps bool // full verification after every step
	trace  []uint64
	keepTr bool
	turns  bool // let other tasks run between the steps

	scribble bool // see lend
}

func newWorld(c *Case) *World {
	w := &World{c: c, keys: expandKeys(c), store: map[uint64]int{}, out: &Outcome{}, digest: 1469598103934665603}
	ks := make([][]byte, len(w.keys))
	for i := range ks {
		ks[i] = w.keys[i]
	}
	w.flat = figures(ks).MaxFan < 128
	w.scribble = c.P["scribble"] > 0
	n := c.NTrees
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.trees = append(w.trees, w.newTree(c.NAlloc))
	}
	return w
}

// expandKeys returns the keys of a case, with the run of P["run"] bytes before each if there is one.
func expandKeys(c *Case) []hx {
	ks := c.Keys
	if n := c.P["bulk"]; n > 0 {
		// n pairs of keys, each pair sharing a run of its own
		r := newRng("bulk", c.P["bulkseed"])
		ks = nil
		for i := 0; i < n; i++ {
			run := make([]byte, c.P["bulkrun"]+r.N(64))
			for j := 0; j+8 <= len(run); j += 8 {
				binary.BigEndian.PutUint64(run[j:], r.U64())
			}
			for j := 0; j < 2; j++ {
				ks = append(ks, cat([]byte{byte(i >> 8), byte(i)}, run, []byte{byte(j * 255)}))
			}
		}
	}
	if n := c.P["run"]; n > 0 {
		run := runBytes(n, c.P["runseed"])
		o := make([]hx, len(ks))
		for i, k := range ks {
			o[i] = cat(run, k)
		}
		ks = o
	}
	return ks
}

func runBytes(n, seed int) []byte {
	r := newRng("run", seed)
	b := make([]byte, n)
	for i := range b {
		switch seed % 4 {
		case 0:
			b[i] = byte(r.N(256))
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xFF
		case 3:
			b[i] = byte(i)
		}
	}
	return b
}

func (w *World) newTree(nalloc int) *Tree {
	t := &Tree{w: w, nalloc: nalloc, live: make([]bool, len(w.keys)), val: make([]uint64, len(w.keys)), iters: map[int]*iterState{}, pend: map[int]*pending{}}
	if nalloc == 0 {
		t.t = radix.NewTree(nil)
		st := map[string]interface{}{}
		t.t.Stats(st)
		t.nalloc = st["allocators"].(int)
	} else {
		if n := w.c.P["spread"]; n > 0 {
			t.nalloc = n*(nalloc-1) + 1
		}
		t.t = radix.NewTree(&radix.Options{NumAllocators: t.nalloc})
	}
	return t
}

// park reserves all allocators but every n-th, so that those in use are far apart.
func (t *Tree) park(n int) {
	if n == 0 {
		return
	}
	for i := 0; i < t.nalloc; i++ {
		t.parked = append(t.parked, t.t.GetAllocator())
		sched.OpDone()
	}
	rest := t.parked[:0:0]
	for i, a := range t.parked {
		if i%n == 0 {
			t.t.ReleaseAllocator(a)
		} else {
			rest = append(rest, a)
		}
	}
	t.parked = rest
}

func (t *Tree) unpark() {
	for _, a := range t.parked {
		t.t.ReleaseAllocator(a)
	}
	t.parked = nil
}

// fresh returns a value to store for a key. With P["again"] that percentage are values the key had before.
func (w *World) fresh(key int) (passed, kept uint64) {
	if p := w.c.P["again"]; p > 0 {
		if w.hist == nil {
			w.hist = map[int][]uint64{}
			w.calls = map[int]int{}
		}
		w.calls[key]++
		h := w.hist[key]
		x := hashU(hashU(1469598103934665603, uint64(key)), uint64(w.calls[key]))
		if n := uint64(len(h)); n > 0 && int(x>>20%100) < p {
			v := h[n-1]
			if x>>40&1 == 0 {
				v = h[x>>41%n]
			}
			return v, v
		}
		defer func() { w.hist[key] = append(w.hist[key], kept) }()
	}
	v := valueFor(w.c.Vmode, w.next)
	w.next++
	w.store[v&valueMask] = key
	return v, v & valueMask
}

func (w *World) note(vs ...uint64) {
	for _, v := range vs {
		w.digest = hashU(w.digest, v)
		if w.keepTr {
			w.trace = append(w.trace, v)
		}
	}
}

// closeAll ends the background goroutines of all trees.
func (w *World) closeAll() {
	for _, t := range w.trees {
		t.shut()
	}
}

func (t *Tree) shut() {
	if t.closed {
		return
	}
	t.closed = true
	t.abortPending()
	t.releaseAll()
	t.t.Close()
}

func (t *Tree) releaseAll() {
	for _, p := range t.pend {
		if p.a != nil {
			t.abortPending()
			break
		}
	}
	for _, a := range t.held {
		t.t.ReleaseAllocator(a)
	}
	t.held = nil
}

func (t *Tree) abortPending() {
	var slots []int
	for s := range t.pend {
		slots = append(slots, s)
	}
	sort.Ints(slots)
	for _, s := range slots {
		p := t.pend[s]
		if p.up != nil {
			p.up.Abort()
		} else if p.del != nil {
			p.del.Abort()
		}
		delete(t.pend, s)
	}
}

// rng returns the range of keys having the prefix.
func (w *World) prefixRange(p []byte) (lo, hi int) {
	lo = sort.Search(len(w.keys), func(i int) bool { return bytes.Compare(w.keys[i], p) >= 0 })
	hi = lo + sort.Search(len(w.keys)-lo, func(i int) bool { return !bytes.HasPrefix(w.keys[lo+i], p) })
	return
}

func (t *Tree) liveIn(lo, hi int) (ks []int) {
	for i := lo; i < hi; i++ {
		if t.live[i] {
			ks = append(ks, i)
		}
	}
	return
}

func (t *Tree) liveValue(v uint64) (int, bool) {
	k, ok := t.w.store[v]
	if !ok || !t.live[k] || t.val[k] != v {
		return 0, false
	}
	return k, true
}

// candidate checks that v is the current value of a key in the tree and returns that key.
func (t *Tree) candidate(what string, v uint64) int {
	k, ok := t.liveValue(v)
	if !ok {
		if kk, ok := t.w.store[v]; ok {
			failf("%s presented value %d, which is not in the tree any more (it was stored for key #%d)", what, v, kk)
		}
		failf("%s presented value %d, which was never stored", what, v)
	}
	return k
}

func (t *Tree) set(i int, v uint64) {
	if !t.live[i] {
		t.live[i] = true
		t.n++
	}
	t.val[i] = v
	for _, it := range t.iters {
		it.possible[v] = true
	}
}

func (t *Tree) remove(i int) {
	t.live[i] = false
	t.n--
	for _, it := range t.iters {
		if !it.ended {
			it.deleted = true
			it.always[i] = false
			if !it.wasEmpty && len(t.liveIn(it.lo, it.hi)) == 0 {
				it.wasEmpty = true
			}
		}
	}
}

// alloc picks what an operation goes through: nil means a tree-level method.
func (t *Tree) alloc(v int) *radix.Allocator {
	idle := t.idle()
	if v > 0 && len(idle) > 0 {
		return idle[(v-1)%len(idle)]
	}
	if t.free() <= 0 {
		if len(idle) > 0 {
			return idle[0]
		}
		t.abortPending()
		if t.free() <= 0 {
			return t.held[0]
		}
	}
	return nil
}

// idle lists the reserved allocators that no pending operation uses.
func (t *Tree) idle() []*radix.Allocator {
	if len(t.pend) == 0 {
		return t.held
	}
	var l []*radix.Allocator
	for _, a := range t.held {
		if !t.busy(a) {
			l = append(l, a)
		}
	}
	return l
}

func (t *Tree) busy(a *radix.Allocator) bool {
	for _, p := range t.pend {
		if p.a == a {
			return true
		}
	}
	return false
}

// free is the number of allocators nobody holds.
func (t *Tree) free() int {
	n := t.nalloc - len(t.held)
	for _, p := range t.pend {
		if p.a == nil {
			n--
		}
	}
	return n
}

// needFree makes sure a tree-level call can get an allocator.
func (t *Tree) needFree() {
	if t.free() > 0 {
		return
	}
	for l := len(t.held) - 1; l >= 0; l-- {
		if !t.busy(t.held[l]) {
			t.t.ReleaseAllocator(t.held[l])
			t.held = append(t.held[:l:l], t.held[l+1:]...)
			return
		}
	}
	t.abortPending()
	if t.free() <= 0 {
		t.releaseAll()
	}
}

func (t *Tree) needAll() {
	t.abortPending()
	t.releaseAll()
}

func (t *Tree) needStarted() {
	if t.stopped {
		t.t.Start()
		t.stopped = false
	}
}
