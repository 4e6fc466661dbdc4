package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// rec is one completed operation on a key: it found the key holding pre (or absent) and left it holding post.
type rec struct {
	task      int
	kind      string
	key       int
	s, e      int64
	pre, post uint64 // 0: absent, otherwise value+1
}

func (r rec) write() bool { return r.pre != r.post }

func (r rec) String() string {
	f := func(v uint64) string {
		if v == 0 {
			return "absent"
		}
		return fmt.Sprint(v - 1)
	}
	if !r.write() {
		return fmt.Sprintf("task %d %s of key #%d during [%d,%d] saw %s", r.task, r.kind, r.key, r.s, r.e, f(r.pre))
	}
	return fmt.Sprintf("task %d %s of key #%d during [%d,%d] replaced %s with %s", r.task, r.kind, r.key, r.s, r.e, f(r.pre), f(r.post))
}

// claim: value v was presented to an operation on another key during [s,e].
type claim struct {
	what string
	v    uint64
	s, e int64
}

// scanRec is one scan and its results.
type scanRec struct {
	task   int
	kind   string // scan, count, min, max
	prefix []byte
	s, e   int64
	vals   []uint64
	ok     bool
	leaves int
	nodes  int
}

// conc executes concurrent tasks on one tree and records what they see.
type conc struct {
	w     *World
	t     *Tree
	real  bool
	clk   atomic.Int64
	mu    sync.Mutex
	recs  []rec
	clms  []claim
	scans []scanRec
	init  []uint64 // per key, value+1 or 0
	false int
	vals  map[uint64]int // all values ever passed to a finalize, by key
	book  *booker        // who holds allocators (C15)
	noLen bool           // some tasks hold an allocator while they need another
}

func newConc(w *World) *conc {
	x := &conc{w: w, t: w.trees[0], vals: map[uint64]int{}}
	x.begin()
	return x
}

// begin starts a new window of history from the model's state.
func (x *conc) begin() {
	x.init = make([]uint64, len(x.w.keys))
	for i := range x.init {
		if x.t.live[i] {
			x.init[i] = x.t.val[i] + 1
		}
	}
	x.recs, x.clms, x.scans = nil, nil, nil
}

func (x *conc) now() int64 {
	if x.real {
		return x.clk.Add(1)
	}
	return sched.Now()
}

func (x *conc) fresh(key int) (passed, kept uint64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.w.fresh(key)
}

func (x *conc) keyOf(v uint64) (int, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	k, ok := x.w.store[v]
	return k, ok
}

func (x *conc) addRec(r rec) {
	x.mu.Lock()
	x.recs = append(x.recs, r)
	x.mu.Unlock()
}

func (x *conc) addClaim(c claim) {
	x.mu.Lock()
	x.clms = append(x.clms, c)
	x.mu.Unlock()
}

// candidate returns the key a presented value belongs to.
func (x *conc) candidate(what string, v uint64) int {
	k, ok := x.keyOf(v)
	if !ok {
		failf("%s presented value %d, which was never stored", what, v)
	}
	return k
}

// see turns a presented candidate into the state of the key.
func (x *conc) see(kind string, task, key int, q []byte, found bool, v uint64, s int64) (pre uint64) {
	if !found {
		return 0
	}
	k := x.candidate(kind, v)
	if k == key {
		return v + 1
	}
	x.addClaim(claim{fmt.Sprintf("task %d %s of %s", task, kind, short(q)), v, s, x.now()})
	return 0
}

func (x *conc) update(task, key, mode int, a *radix.Allocator) {
	q := []byte(x.w.keys[key])
	for {
		s := x.now()
		found, op := x.t.prepUpdate(q, a)
		if op == nil {
			failf("PrepareUpdate returned no operation")
		}
		if a == nil {
			x.book.got(task, "PrepareUpdate", op)
		}
		if op.Match || len(op.FetchedKey) != 0 || !bytes.Equal(op.Key, q) {
			failf("PrepareUpdate of key #%d shows Key=%s Match=%v FetchedKey=%s", key, short(op.Key), op.Match, short(op.FetchedKey))
		}
		val := op.Value
		pre := x.see("update", task, key, q, found, val, s)
		if found {
			op.FetchedKey = append(op.FetchedKey[:0], x.w.keys[x.candidate("update", val)]...)
			op.Match = pre != 0
		}
		if mode == 1 && pre != 0 || mode == 2 && pre == 0 || mode == 3 {
			e := x.now()
			sched.H()
			if a == nil {
				x.book.drop(task)
			}
			op.Abort()
			x.addRec(rec{task, "aborted update", key, s, e, pre, pre})
			return
		}
		sched.H()
		if !bytes.Equal(op.Key, q) || op.Match != (pre != 0) || found && op.Value != val {
			failf("a pending update of key #%d changed its Key, Value or Match", key)
		}
		v, kept := x.fresh(key)
		if a == nil {
			x.book.drop(task)
		}
		ok := op.Finalize(v)
		e := x.now()
		if ok {
			x.addRec(rec{task, "update", key, s, e, pre, kept + 1})
			return
		}
		x.mu.Lock()
		x.false++
		x.mu.Unlock()
		sched.H()
	}
}

func (x *conc) remove(task, key int, abort bool, a *radix.Allocator) {
	q := []byte(x.w.keys[key])
	for {
		s := x.now()
		during := x.book.enter()
		found, op := x.t.prepDelete(q, a)
		if found != (op != nil) {
			failf("PrepareDelete returned found=%v with op present=%v", found, op != nil)
		}
		if a == nil && found {
			x.book.got(task, "PrepareDelete", op)
		}
		if !found {
			x.book.leave("PrepareDelete", during)
			x.addRec(rec{task, "delete", key, s, x.now(), 0, 0})
			return
		}
		val := op.Value
		pre := x.see("delete", task, key, q, true, val, s)
		if pre == 0 || abort {
			e := x.now()
			sched.H()
			if a == nil {
				x.book.drop(task)
			}
			op.Abort()
			x.addRec(rec{task, "aborted delete", key, s, e, pre, pre})
			return
		}
		sched.H()
		if op.Value != val {
			failf("a pending delete of key #%d changed its Value", key)
		}
		if a == nil {
			x.book.drop(task)
		}
		ok := op.Finalize()
		e := x.now()
		if ok {
			x.addRec(rec{task, "delete", key, s, e, pre, 0})
			return
		}
		x.mu.Lock()
		x.false++
		x.mu.Unlock()
		sched.H()
	}
}

func (x *conc) do(task int, op *Op, a *radix.Allocator) {
	n := len(x.w.keys)
	k := ((op.I % n) + n) % n
	t := x.t
	switch op.K {
	case "put":
		x.update(task, k, 0, a)
	case "ins":
		x.update(task, k, 1, a)
	case "upd":
		x.update(task, k, 2, a)
	case "abu":
		x.update(task, k, 3, a)
	case "del":
		x.remove(task, k, false, a)
	case "abd":
		x.remove(task, k, true, a)
	case "get":
		s := x.now()
		during := x.book.enter()
		v, found := t.lookup(x.w.keys[k], a)
		x.book.leave("Lookup", during)
		e := x.now()
		pre := x.see("lookup", task, k, x.w.keys[k], found, v, s)
		x.addRec(rec{task, "lookup", k, s, e, pre, pre})
	case "getq":
		s := x.now()
		if len(op.Q) == 0 {
			return
		}
		if v, found := t.lookup(op.Q, a); found {
			k := t.indexOf(op.Q)
			x.see("lookup", task, k, op.Q, found, v, s)
		}
	case "scan":
		r := scanRec{task: task, kind: "scan", prefix: op.Q, s: x.now()}
		it := t.t.NewIterator(op.Q)
		for it.Next() {
			r.vals = append(r.vals, it.Value())
			if len(r.vals) > 4*n+1000 {
				failf("iteration with prefix %s does not end: %d items from %d keys", short(op.Q), len(r.vals), n)
			}
			if op.N&1 == 1 && (len(r.vals)%256 < 2 || n < 64) {
				sched.H()
			}
		}
		r.e = x.now()
		it.Close()
		x.addScan(r)
	case "count":
		r := scanRec{task: task, kind: "count", prefix: op.Q, s: x.now()}
		if op.N&1 == 1 {
			r.nodes, r.leaves = radix.NewCounter(t.t).Count(op.Q)
		} else {
			r.nodes, r.leaves = t.t.Count(op.Q)
		}
		r.e = x.now()
		x.addScan(r)
	case "min", "max":
		r := scanRec{task: task, kind: op.K, prefix: op.Q, s: x.now()}
		var v uint64
		if op.K == "min" {
			v, r.ok = t.t.MinKey(op.Q)
		} else {
			v, r.ok = t.t.MaxKey(op.Q)
		}
		r.e = x.now()
		if r.ok {
			r.vals = []uint64{v}
		}
		x.addScan(r)
	case "flush":
		if a != nil {
			a.FlushStats()
		}
	case "len":
		// only by tasks that hold no allocator
		r := scanRec{task: task, kind: "len", s: x.now()}
		r.leaves = t.t.Len()
		r.e = x.now()
		x.addScan(r)
	case "stats":
		r := scanRec{task: task, kind: "stats", s: x.now()}
		t.checkStats()
		r.e = x.now()
		x.addScan(r)
	case "admin":
		args := op.A
		if len(args) > 0 && (args[0] == "flushed" || args[0] == "allocators" && x.noLen) {
			args = []string{"info"}
		}
		r := scanRec{task: task, kind: "admin", s: x.now()}
		x.admin(args)
		r.e = x.now()
		x.addScan(r)
	default:
		panic("unknown concurrent operation " + op.K)
	}
	sched.OpDone()
	sched.H()
}

// admin runs an admin command; "@n" stands for the n-th node found from the root.
func (x *conc) admin(args []string) {
	resolved := append([]string(nil), args...)
	for i, a := range resolved {
		if strings.HasPrefix(a, "@") {
			resolved[i] = x.t.resolveNode(a)
			sched.H()
		}
	}
	var buf bytes.Buffer
	x.t.t.Admin(&buf, resolved)
}

func (x *conc) addScan(r scanRec) {
	x.mu.Lock()
	x.scans = append(x.scans, r)
	x.mu.Unlock()
}

// runTask executes the operations of a task, through its own allocator if own is set.
func (x *conc) runTask(task int, ops []Op, own bool) {
	var a *radix.Allocator
	if own {
		a = x.t.t.GetAllocator()
	}
	for i := range ops {
		via := a
		if ops[i].V == 0 {
			via = nil
		}
		x.do(task, &ops[i], via)
	}
	if a != nil {
		x.t.t.ReleaseAllocator(a)
	}
}

const forever = int64(1) << 60

// readBack reads every key when all tasks are done and makes that the model's state.
func (x *conc) readBack() {
	t := x.t
	t.n = 0
	for i := range x.w.keys {
		pre := uint64(0)
		if v, found := t.t.Lookup(x.w.keys[i]); found {
			if x.candidate("lookup", v) == i {
				pre = v + 1
			} else {
				x.clms = append(x.clms, claim{fmt.Sprintf("final lookup of key #%d", i), v, forever, forever})
			}
		}
		x.recs = append(x.recs, rec{-1, "final lookup", i, forever, forever, pre, pre})
		t.live[i] = pre != 0
		if pre != 0 {
			t.val[i] = pre - 1
			t.n++
		}
		sched.OpDone()
	}
}

// span is the time during which a value may have been in the tree.
type span struct {
	key  int
	s, e int64
}

// judge checks the recorded history.
func (x *conc) judge() {
	byKey := make([][]rec, len(x.w.keys))
	spans := map[uint64]span{}
	for i, v := range x.init {
		if v != 0 {
			spans[v-1] = span{i, -1, forever + 1}
		}
	}
	again := map[uint64]bool{} // stored more than once
	for _, r := range x.recs {
		byKey[r.key] = append(byKey[r.key], r)
		if r.write() && r.post != 0 {
			sp := span{r.key, r.s, forever + 1}
			if old, ok := spans[r.post-1]; ok {
				again[r.post-1] = true
				if old.s < sp.s {
					sp.s = old.s
				}
			}
			spans[r.post-1] = sp
		}
	}
	for _, r := range x.recs {
		if r.write() && r.pre != 0 && !again[r.pre-1] {
			sp, ok := spans[r.pre-1]
			if !ok {
				failf("%v, but that value was never successfully stored", r)
			}
			if r.e < sp.e {
				sp.e = r.e
			}
			spans[r.pre-1] = sp
		}
	}
	for _, c := range x.clms {
		sp, ok := spans[c.v]
		if !ok {
			failf("%s presented value %d, which was never successfully stored", c.what, c.v)
		}
		if sp.s > c.e || sp.e < c.s {
			failf("%s during [%d,%d] presented value %d of key #%d, which was in the tree at most during [%d,%d]", c.what, c.s, c.e, c.v, sp.key, sp.s, sp.e)
		}
	}
	for k, rs := range byKey {
		if !linearizable(rs, x.init[k]) {
			var b strings.Builder
			sort.Slice(rs, func(i, j int) bool { return rs[i].s < rs[j].s })
			for i, r := range rs {
				if i < 30 {
					fmt.Fprintf(&b, "\n  %v", r)
				}
			}
			st := "absent"
			if x.init[k] != 0 {
				st = fmt.Sprint("holding ", x.init[k]-1)
			}
			failf("the operations on key #%d (%s) have no sequential explanation; initially it was %s:%s", k, short(x.w.keys[k]), st, b.String())
		}
	}
	for _, s := range x.scans {
		x.judgeScan(s, byKey, spans)
	}
}

// linearizable searches an order of the operations on one key that respects real time and explains every result.
func linearizable(rs []rec, init uint64) bool {
	// reads that agree with an untouched key need no search
	writes := false
	for _, r := range rs {
		if r.write() {
			writes = true
		}
	}
	if !writes {
		for _, r := range rs {
			if r.pre != init {
				return false
			}
		}
		return true
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].s < rs[j].s })
	n := len(rs)
	if n > 2000 {
		return true
	}
	done := make([]bool, n)
	type key struct {
		low   int
		set   uint64
		state uint64
	}
	seen := map[key]bool{}
	low := 0
	budget := 3_000_000
	var rec func(left int, state uint64) bool
	rec = func(left int, state uint64) bool {
		if left == 0 {
			return true
		}
		for low < n && done[low] {
			low++
		}
		save := low
		// operations beyond low that are done, relative to low
		set := uint64(0)
		ok := true
		for i := low; i < n; i++ {
			if done[i] {
				if i-low < 64 {
					set |= 1 << uint(i-low)
				} else {
					ok = false
				}
			}
		}
		k := key{low, set, state}
		if ok {
			if seen[k] {
				return false
			}
		}
		if budget--; budget < 0 {
			return true // undecided counts as explained
		}
		// the earliest end among the remaining limits what can come first
		end := forever + 2
		for i := low; i < n; i++ {
			if !done[i] && rs[i].e < end {
				end = rs[i].e
			}
		}
		for i := low; i < n && rs[i].s <= end; i++ {
			if done[i] || rs[i].pre != state {
				continue
			}
			done[i] = true
			if rec(left-1, rs[i].post) {
				return true
			}
			done[i] = false
			low = save
			if !rs[i].write() {
				// a read that is possible now can be taken now without loss
				break
			}
		}
		if ok {
			seen[k] = true
		}
		return false
	}
	return rec(n, init)
}

// present reports whether a key was in the tree during the whole of [s,e].
func (x *conc) present(k int, rs []rec, s, e int64) bool {
	lastDel := int64(-2)
	for _, r := range rs {
		if r.write() && r.post == 0 && r.s <= e && r.e > lastDel {
			lastDel = r.e
		}
	}
	if lastDel == -2 && x.init[k] != 0 {
		return true
	}
	for _, r := range rs {
		if r.write() && r.post != 0 && r.e < s && r.s > lastDel {
			return true
		}
	}
	return false
}

// deletions counts the successful deletes of any key that overlap [s,e].
func (x *conc) deletions(s, e int64) int {
	n := 0
	for _, r := range x.recs {
		if r.write() && r.post == 0 && r.s <= e && r.e >= s {
			n++
		}
	}
	return n
}

func (x *conc) judgeScan(sc scanRec, byKey [][]rec, spans map[uint64]span) {
	if sc.kind == "admin" || sc.kind == "stats" {
		return
	}
	what := fmt.Sprintf("task %d: %s with prefix %s during [%d,%d]", sc.task, sc.kind, short(sc.prefix), sc.s, sc.e)
	lo, hi := x.w.prefixRange(sc.prefix)
	var must []int
	possible := map[int]bool{}
	for k := lo; k < hi; k++ {
		if x.present(k, byKey[k], sc.s, sc.e) {
			must = append(must, k)
		}
	}
	for _, sp := range spans {
		if sp.key >= lo && sp.key < hi && sp.s <= sc.e && sp.e >= sc.s {
			possible[sp.key] = true
		}
	}
	if sc.kind == "len" {
		if sc.leaves < len(must) || sc.leaves > len(possible) {
			failf("%s reported %d keys, but %d keys were in the tree all the time and %d at some moment", what, sc.leaves, len(must), len(possible))
		}
		return
	}
	if sc.kind == "count" {
		max := len(possible)
		if len(must) == 0 && max == 0 {
			max = 1
		}
		if sc.leaves < len(must) || sc.leaves > max && !(len(must) == 0 && sc.leaves <= 1) {
			failf("%s reported %d leaves, but %d matching keys were in the tree all the time and %d at some moment", what, sc.leaves, len(must), len(possible))
		}
		return
	}
	seen := map[int]int{}
	last, repeats, others := -1, 0, 0
	for _, v := range sc.vals {
		sp, ok := spans[v]
		if !ok {
			failf("%s returned value %d, which was never successfully stored", what, v)
		}
		if sp.s > sc.e || sp.e < sc.s {
			failf("%s returned value %d of key #%d, which was in the tree at most during [%d,%d]", what, v, sp.key, sp.s, sp.e)
		}
		k := sp.key
		if k < lo || k >= hi {
			others++
			if len(must) > 0 || others > 1 {
				failf("%s returned key #%d, which does not have the prefix", what, k)
			}
			continue
		}
		seen[k]++
		if k <= last {
			repeats++
		} else {
			last = k
		}
	}
	switch sc.kind {
	case "scan":
		for _, k := range must {
			if seen[k] == 0 {
				failf("%s missed key #%d (%s), which was in the tree all the time", what, k, short(x.w.keys[k]))
			}
		}
		if repeats > 0 {
			if x.deletions(sc.s, sc.e) == 0 {
				failf("%s returned a key twice or out of order although nothing was deleted meanwhile", what)
			}
			if repeats > len(sc.vals)/256 {
				failf("%s repeated or misplaced %d of %d keys", what, repeats, len(sc.vals))
			}
		}
	case "min", "max":
		if len(must) == 0 {
			return
		}
		if !sc.ok {
			failf("%s found nothing, but key #%d was in the tree all the time", what, must[0])
		}
		if sc.kind == "min" && last > must[0] {
			failf("%s gave key #%d although key #%d was in the tree all the time", what, last, must[0])
		}
		if m := must[len(must)-1]; sc.kind == "max" && last < m {
			failf("%s gave key #%d although key #%d was in the tree all the time", what, last, m)
		}
	}
}

// overlapped reports whether some operation or scan ran while another task changed a key.
func (x *conc) overlapped() bool {
	for _, w := range x.recs {
		if !w.write() {
			continue
		}
		for _, r := range x.recs {
			if r.task != w.task && r.task >= 0 && r.s < w.e && w.s < r.e {
				return true
			}
		}
		for _, r := range x.scans {
			if r.task != w.task && r.s < w.e && w.s < r.e {
				return true
			}
		}
	}
	return false
}

const concLimit = 5_000_000

func applySched(r *sched.Run, s *Sched) int {
	r.OpLimit = concLimit
	if s == nil {
		r.SetList(nil)
		return 0
	}
	switch s.Mode {
	case "random":
		l := s.Limit
		if l == 0 {
			l = 1 << 40
		}
		r.SetRandom(s.Seed, s.Stmt, s.Atom, s.Harn, l)
	case "pct":
		r.SetPCT(s.Seed, s.Depth, s.Len)
	default:
		r.SetList(s.List)
	}
	return s.First
}

// execConc runs the tasks of a case under one schedule. It returns the run for its point counts.
func execConc(c *Case, s *Sched) (out *Outcome, run *sched.Run) {
	out = &Outcome{Execs: 1}
	var w *World
	var x *conc
	msg := inRun(seqLimit, func() {
		w = newWorld(c)
		w.run(c.Setup)
		for _, t := range w.trees {
			t.releaseAll()
		}
		w.trees[0].park(c.P["spread"])
		x = newConc(w)
		x.noLen = c.P["own"] != 0
	})
	if msg == "" {
		var fns []func()
		for i := range c.Tasks {
			i := i
			fns = append(fns, func() { x.runTask(i, c.Tasks[i], c.P["own"]>>uint(i)&1 == 1) })
		}
		run = sched.NewRun(fns...)
		first := applySched(run, s)
		if n := c.P["writers"]; n > 0 && n < len(c.Tasks) {
			run.Readers = n
			run.OpLimit = 600_000
		}
		msg = run.Exec(first)
		out.Trace = run.Trace
	}
	if msg == "" {
		msg = inRun(seqLimit, func() {
			w.trees[0].unpark()
			x.readBack()
			x.judge()
			w.trees[0].verifyAll()
			if n := c.P["save"]; n > 0 {
				w.trees[0].saveLoad(n - 1)
				sched.OpDone()
				w.trees[0].verifyAll()
			}
			// nothing may have stayed locked: change every key once more
			t := w.trees[0]
			step := 1 + len(w.keys)/24
			for i := c.Index % step; i < len(w.keys); i += step {
				if t.live[i] && (i+c.Index)%2 == 0 {
					t.del(w.keys[i], 0)
				} else {
					t.put(i, 0, 0)
				}
				sched.OpDone()
			}
			for i := 0; i < len(w.keys); i += step {
				t.query(w.keys[i], 0)
			}
			t.length()
			w.closeAll()
		})
	}
	out.Fail = msg
	if x != nil && msg == "" {
		out.Nontrivial = x.overlapped()
		if x.false > 0 {
			out.add("finalize-false", x.false)
		}
		for _, r := range x.recs {
			if r.task >= 0 {
				out.class("conc-" + r.kind)
			}
		}
		for _, r := range x.scans {
			out.class("conc-" + r.kind)
			if len(r.vals) > 256 {
				out.class("conc-scan>256")
			}
		}
	}
	return
}

// runConc runs a case under its schedule; mode "enum" means: every single preemption of every task by every other.
func runConc(c *Case) *Outcome { return runSched(c, execConc) }

type execFn func(c *Case, s *Sched) (*Outcome, *sched.Run)

func runSched(c *Case, exec execFn) *Outcome {
	if c.Sched != nil && c.Sched.Mode == "cross" {
		return crossConc(c, int(c.Sched.Limit), exec)
	}
	if c.Sched == nil || c.Sched.Mode != "enum" {
		o, _ := exec(c, c.Sched)
		if o.Fail != "" && c.Sched != nil && c.Sched.Mode != "list" && len(o.Trace) < 4000 {
			// the trace as an explicit list replays the same way and can be shrunk
			x := clone(c)
			x.Sched = &Sched{Mode: "list", First: c.Sched.First, List: o.Trace}
			if c.Sched.Mode == "pct" && len(o.Trace) > 0 {
				x.Sched.First = o.Trace[0].Task
			}
			if o2, _ := exec(x, x.Sched); o2.Fail != "" {
				o.Refined = x
			}
		}
		return o
	}
	return enumConc(c, c.Sched.Limit, exec)
}

func merge(dst, src *Outcome) {
	dst.Execs += src.Execs
	dst.Nontrivial = dst.Nontrivial || src.Nontrivial
	for k, v := range src.Classes {
		dst.add(k, v)
	}
}

func enumConc(c *Case, max uint64, exec execFn) *Outcome {
	out := &Outcome{}
	n := len(c.Tasks)
	r := newRng("enum", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := exec(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	for i := 0; i < n; i++ {
		base := try(&Sched{Mode: "list", First: i})
		if base == nil {
			return out
		}
		points := base.Local(i)
		step := uint64(1)
		if max > 0 && points > max {
			step = (points + max - 1) / max
		}
		for j := 0; j < n; j++ {
			if j == i {
				continue
			}
			at := uint64(1)
			if step > 1 {
				at += uint64(r.N(int(step)))
			}
			for ; at <= points; at += step {
				l := []sched.Switch{{Task: i, Local: at, To: j}}
				if n > 2 || c.P["second"] > 0 {
					// the other one is interrupted too, somewhere
					if r.P(50) {
						l = append(l, sched.Switch{Task: j, Local: 1 + uint64(r.N(int(base.Local(j))+1)), To: r.N(n)})
					}
				}
				if try(&Sched{Mode: "list", First: i, List: l}) == nil {
					return out
				}
			}
		}
	}
	return out
}

// crossConc lets the first two tasks take turns up to random places, where both stand still while the others run to
// their end; then the first continues, and then the second.
func crossConc(c *Case, execs int, exec execFn) *Outcome {
	out := &Outcome{}
	r := newRng("cross", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := exec(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	// places to stand still: atomic operations and harness steps of an undisturbed run, and sometimes any statement
	var marks [2][]uint64
	var points [2]int
	for i := range marks {
		base := try(&Sched{Mode: "list", First: i})
		if base == nil {
			return out
		}
		marks[i], points[i] = base.Marks(i), int(base.Local(i))
		if len(marks[i]) == 0 {
			marks[i] = []uint64{1}
		}
	}
	for ; execs > 0; execs-- {
		cur := r.N(2)
		s := &Sched{Mode: "list", First: cur}
		var at [2]uint64
		for turns := r.pick(2, 3, 3, 3, 4); turns > 0; turns-- {
			p := at[cur]
			rest := sort.Search(len(marks[cur]), func(i int) bool { return marks[cur][i] > p })
			if rest < len(marks[cur]) && !r.P(15) {
				p = marks[cur][rest+r.N(len(marks[cur])-rest)]
			} else if int(p) < points[cur] {
				p += 1 + uint64(r.N(points[cur]-int(p)))
			} else {
				break
			}
			at[cur] = p
			to := 1 - cur
			if turns == 1 {
				to = 2 + r.N(len(c.Tasks)-2)
			}
			s.List = append(s.List, sched.Switch{Task: cur, Local: p, To: to})
			cur = 1 - cur
		}
		if try(s) == nil {
			return out
		}
	}
	return out
}
