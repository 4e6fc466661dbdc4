package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

const maxRetries = 200

// lend gives a buffer for one call or operation. With P["scribble"] it is a copy that take overwrites when the
// call has returned or the operation is over, as a caller that reuses its buffers does.
func (w *World) lend(b []byte) []byte {
	if !w.scribble || len(b) == 0 {
		return b
	}
	c := make([]byte, len(b), len(b)+9)
	copy(c, b)
	return c
}

// take gets back what lend gave.
func (w *World) take(c, b []byte) {
	if !w.scribble || len(b) == 0 {
		return
	}
	if !bytes.Equal(c, b) {
		failf("a key or prefix in the caller's buffer changed from %s to %s", short(b), short(c))
	}
	for i, x := range c[len(c):cap(c)] {
		if x != 0 {
			failf("byte %d behind the key or prefix %s in the caller's buffer was written", i, short(b))
		}
	}
	for i := range c {
		c[i] = ^c[i] ^ byte(i)
	}
}

func (t *Tree) lookup(key []byte, a *radix.Allocator) (uint64, bool) {
	k := t.w.lend(key)
	defer t.w.take(k, key)
	if a != nil {
		return a.Lookup(k)
	}
	return t.t.Lookup(k)
}

func (t *Tree) prepUpdate(key []byte, a *radix.Allocator) (bool, *radix.UpdateOperation) {
	if a != nil {
		return a.PrepareUpdate(key)
	}
	return t.t.PrepareUpdate(key)
}

func (t *Tree) prepDelete(key []byte, a *radix.Allocator) (bool, *radix.DeleteOperation) {
	if a != nil {
		return a.PrepareDelete(key)
	}
	return t.t.PrepareDelete(key)
}

// examineUpdate checks what a prepared update of key i shows and fills in FetchedKey and Match.
func (t *Tree) examineUpdate(i int, key []byte, found bool, op *radix.UpdateOperation, share bool) (match bool) {
	w := t.w
	if op == nil {
		failf("PrepareUpdate returned no operation for key #%d", i)
	}
	if !bytes.Equal(op.Key, key) {
		failf("PrepareUpdate of key #%d (%s) shows Key=%s", i, short(key), short(op.Key))
	}
	if op.Match {
		failf("PrepareUpdate of key #%d starts with Match set", i)
	}
	if len(op.FetchedKey) != 0 {
		failf("PrepareUpdate of key #%d starts with FetchedKey %s left over", i, short(op.FetchedKey))
	}
	if found {
		k := t.candidate(fmt.Sprintf("PrepareUpdate of key #%d (%s)", i, short(key)), op.Value)
		if share {
			op.FetchedKey = append(op.FetchedKey[:0], w.keys[k]...)
		} else {
			op.FetchedKey = append([]byte(nil), w.keys[k]...)
		}
		match = bytes.Equal(op.FetchedKey, key)
		op.Match = match
	}
	if i >= 0 && t.live[i] != match {
		if t.live[i] {
			failf("PrepareUpdate did not find key #%d (%s), which is in the tree", i, short(key))
		}
	}
	return match
}

// put stores a fresh value for key i. mode: 0 upsert, 1 insert only, 2 update only.
func (t *Tree) put(i, via, mode int) {
	w := t.w
	key := w.keys[i]
	for try := 0; ; try++ {
		if try > maxRetries {
			failf("update of key #%d never succeeds without competing writers", i)
		}
		a := t.alloc(via)
		buf := w.lend(key)
		found, op := t.prepUpdate(buf, a)
		match := t.examineUpdate(i, key, found, op, via%2 == 0)
		w.note(b2u(match), op.Value*b2u(match))
		if mode == 1 && match || mode == 2 && !match {
			op.Abort()
			w.take(buf, key)
			w.out.class("abort")
			return
		}
		v, kept := w.fresh(i)
		ok := op.Finalize(v)
		w.take(buf, key)
		if ok {
			if match {
				w.out.class("update")
			} else {
				w.out.class("insert")
			}
			t.set(i, kept)
			return
		}
		w.out.class("finalize-false")
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// examineDelete checks what a prepared delete shows.
func (t *Tree) examineDelete(i int, key []byte, found bool, op *radix.DeleteOperation) (match bool) {
	if found != (op != nil) {
		failf("PrepareDelete returned found=%v with op present=%v", found, op != nil)
	}
	if !found {
		if i >= 0 && t.live[i] {
			failf("PrepareDelete did not find key #%d (%s), which is in the tree", i, short(key))
		}
		return false
	}
	k := t.candidate(fmt.Sprintf("PrepareDelete of %s", short(key)), op.Value)
	if len(op.FetchedKey) != 0 {
		failf("PrepareDelete starts with FetchedKey %s left over", short(op.FetchedKey))
	}
	op.FetchedKey = append(op.FetchedKey, t.w.keys[k]...)
	match = bytes.Equal(op.FetchedKey, key)
	if i >= 0 && t.live[i] != match {
		failf("PrepareDelete of key #%d (%s), which is in the tree, presented key #%d", i, short(key), k)
	}
	return match
}

func (t *Tree) indexOf(key []byte) int {
	lo, hi := t.w.prefixRange(key)
	if lo < hi && bytes.Equal(t.w.keys[lo], key) {
		return lo
	}
	return -1
}

func (t *Tree) del(key []byte, via int) {
	w := t.w
	i := t.indexOf(key)
	for try := 0; ; try++ {
		if try > maxRetries {
			failf("delete of key #%d never succeeds without competing writers", i)
		}
		buf := w.lend(key)
		found, op := t.prepDelete(buf, t.alloc(via))
		match := t.examineDelete(i, key, found, op)
		w.note(b2u(match))
		if !found {
			w.take(buf, key)
			w.out.class("delete-none")
			return
		}
		if !match {
			op.Abort()
			w.take(buf, key)
			w.out.class("delete-other")
			return
		}
		ok := op.Finalize()
		w.take(buf, key)
		if ok {
			t.remove(i)
			w.out.class("delete")
			return
		}
		w.out.class("finalize-false")
	}
}

// query looks up any byte string.
func (t *Tree) query(key []byte, via int) {
	v, found := t.lookup(key, t.alloc(via))
	i := t.indexOf(key)
	if i >= 0 && t.live[i] {
		if !found {
			failf("lookup of key #%d (%s) found nothing, expected value %d", i, short(key), t.val[i])
		}
		if v != t.val[i] {
			failf("lookup of key #%d (%s) gave %d, expected %d", i, short(key), v, t.val[i])
		}
		t.w.note(1, v)
		return
	}
	t.w.note(0)
	if found {
		t.candidate(fmt.Sprintf("lookup of absent key %s", short(key)), v)
		t.w.out.class("candidate")
	}
}

// scan iterates over a prefix and compares with the model.
func (t *Tree) scan(p []byte, how int) {
	t.needFree()
	var it *radix.Iterator
	buf := t.w.lend(p)
	if how&1 == 0 {
		it = t.t.NewIterator(buf)
	} else {
		it = radix.NewIterator(t.t, buf)
	}
	t.w.take(buf, p)
	if how&4 != 0 {
		// use it partly, then start over
		for n := how % 300; n > 0 && it.Next(); n-- {
		}
		buf = t.w.lend(p)
		it.Reset(buf)
		t.w.take(buf, p)
	}
	lo, hi := t.w.prefixRange(p)
	want := t.liveIn(lo, hi)
	t.drain(it, p, want)
	if how&2 != 0 {
		it.Close()
	}
}

func (t *Tree) drain(it *radix.Iterator, p []byte, want []int) {
	n := 0
	for it.Next() {
		v := it.Value()
		if len(want) == 0 {
			if n > 0 {
				failf("iteration with prefix %s, which no key has, returned more than one value", short(p))
			}
			t.candidate(fmt.Sprintf("iteration with prefix %s", short(p)), v)
			n++
			continue
		}
		if n >= len(want) {
			failf("iteration with prefix %s returned more than the %d keys that have it (extra value %d, key #%d)", short(p), len(want), v, t.w.store[v])
		}
		if v != t.val[want[n]] {
			failf("iteration with prefix %s: item %d is value %d (key #%d), expected %d (key #%d)", short(p), n, v, t.w.store[v], t.val[want[n]], want[n])
		}
		t.w.note(v)
		n++
	}
	if n < len(want) {
		failf("iteration with prefix %s ended after %d of %d keys", short(p), n, len(want))
	}
	if it.Next() {
		failf("iteration with prefix %s went on after it had ended", short(p))
	}
	t.w.note(uint64(len(want)))
	if len(want) > 256 {
		t.w.out.class("scan>256")
	}
}

func (t *Tree) count(p []byte, how int) {
	t.needFree()
	lo, hi := t.w.prefixRange(p)
	want := t.liveIn(lo, hi)
	var nodes, leaves int
	var c *radix.Counter
	buf := t.w.lend(p)
	if how&1 == 0 {
		nodes, leaves = t.t.Count(buf)
	} else {
		if t.counter == nil || how&2 != 0 {
			t.counter = radix.NewCounter(t.t)
		}
		c = t.counter
		nodes, leaves = c.Count(buf)
	}
	t.w.take(buf, p)
	if len(want) == 0 {
		if leaves > 1 {
			failf("count with prefix %s, which no key has, reported %d leaves", short(p), leaves)
		}
		if leaves == 1 && t.n == 0 {
			failf("count with prefix %s reported a leaf in an empty tree", short(p))
		}
	} else if leaves != len(want) {
		failf("count with prefix %s reported %d leaves, expected %d", short(p), leaves, len(want))
	}
	if len(want) > 0 {
		t.w.note(uint64(leaves))
	}
	if !t.w.flat {
		if c != nil {
			sum := 0
			for _, s := range c.NodeSizes {
				sum += s
			}
			if sum != nodes {
				failf("count with prefix %s: node sizes add up to %d, but %d nodes were reported", short(p), sum, nodes)
			}
		}
		return
	}
	ks := make([][]byte, len(want))
	for i, k := range want {
		ks[i] = t.w.keys[k]
	}
	f := figures(ks)
	if nodes != f.Nodes {
		failf("count with prefix %s reported %d nodes, but the %d keys have %d branching points", short(p), nodes, len(want), f.Nodes)
	}
	t.w.note(uint64(nodes))
	if c == nil {
		return
	}
	// the first branching point's run starts at the root or where the search entered it
	if f.Nodes > 0 {
		f = t.adjust(f, ks, lo, hi)
	}
	sizes := map[int]int{}
	for s, n := range c.NodeSizes {
		if n != 0 {
			sizes[s] = n
		}
	}
	if fmt.Sprint(sizes) != fmt.Sprint(f.Sizes) {
		failf("count with prefix %s: node sizes %v, expected %v", short(p), sizes, f.Sizes)
	}
	if c.NodesWithPrefix != f.WithPrefix || c.TotalPrefixLength != f.PrefixLen || c.LargePrefixes != f.Large || c.TotalPrefixBytes != f.PrefixBytes {
		failf("count with prefix %s: %d nodes with prefix, total length %d, bytes %d, large %d; expected %d, %d, %d, %d", short(p),
			c.NodesWithPrefix, c.TotalPrefixLength, c.TotalPrefixBytes, c.LargePrefixes, f.WithPrefix, f.PrefixLen, f.PrefixBytes, f.Large)
	}
	t.w.out.class("counter-figures")
}

// adjust corrects the first branching point's run: it starts after its parent branching point in the whole tree.
func (t *Tree) adjust(f trieFigures, ks [][]byte, lo, hi int) trieFigures {
	l := lcp(ks[0], ks[len(ks)-1])
	start := 0
	for i, k := range t.w.keys {
		if t.live[i] && (i < lo || i >= hi) {
			if c := lcp(k, ks[0]) + 1; c > start {
				start = c
			}
		}
	}
	// keys inside the range all share at least l bytes
	if start > l {
		start = l
	}
	whole := l
	run := l - start
	undo := func(p, s int) {
		if p > 0 {
			f.WithPrefix += s
			f.PrefixLen += s * p
			n := (p + 7) / 8
			if p >= 255 {
				n++
				f.Large += s
			}
			f.PrefixBytes += s * n * 8
		}
	}
	undo(whole, -1)
	undo(run, 1)
	return f
}

func (t *Tree) extreme(p []byte, max bool) {
	t.needFree()
	var v uint64
	var ok bool
	name := "MinKey"
	buf := t.w.lend(p)
	if max {
		name = "MaxKey"
		v, ok = t.t.MaxKey(buf)
	} else {
		v, ok = t.t.MinKey(buf)
	}
	t.w.take(buf, p)
	lo, hi := t.w.prefixRange(p)
	want := t.liveIn(lo, hi)
	if len(want) == 0 {
		if ok {
			if len(p) == 0 {
				failf("%s reports ok on an empty tree", name)
			}
			t.candidate(fmt.Sprintf("%s(%s)", name, short(p)), v)
		}
		return
	}
	k := want[0]
	if max {
		k = want[len(want)-1]
	}
	if !ok {
		failf("%s(%s) found nothing, expected key #%d", name, short(p), k)
	}
	if v != t.val[k] {
		failf("%s(%s) gave value %d (key #%d), expected %d (key #%d)", name, short(p), v, t.w.store[v], t.val[k], k)
	}
	t.w.note(v)
}

func (t *Tree) length() {
	t.needAll()
	if n := t.t.Len(); n != t.n {
		failf("Len is %d, but the tree holds %d keys", n, t.n)
	}
	t.w.note(uint64(t.n))
}

// verifyAll compares everything observable with the model.
func (t *Tree) verifyAll() {
	if t.stopped || t.closed {
		return
	}
	for i := range t.w.keys {
		t.query(t.w.keys[i], i%3)
	}
	t.scan(nil, 2)
	t.count(nil, 1)
	t.extreme(nil, false)
	t.extreme(nil, true)
	if len(t.pend) == 0 {
		t.length()
	}
}

// failing and counting writers

type countW struct {
	w io.Writer
	n int
}

func (c *countW) Write(b []byte) (int, error) { n, err := c.w.Write(b); c.n += n; return n, err }

// save writes the state of the stopped tree.
func (t *Tree) save() []byte {
	var buf bytes.Buffer
	cw := &countW{w: &buf}
	n, err := t.t.WriteState(cw)
	if err != nil {
		failf("WriteState failed: %v", err)
	}
	if n != cw.n || n != buf.Len() {
		failf("WriteState reports %d bytes, wrote %d", n, buf.Len())
	}
	return buf.Bytes()
}

// saveLoad stops, saves, loads; mode 0: continue with the loaded tree; 1: check it and keep the original.
func (t *Tree) saveLoad(mode int) {
	t.needAll()
	was := t.stopped
	if !t.stopped {
		t.t.Stop()
	}
	data := t.save()
	nt, err := radix.NewTreeFromState(bytes.NewReader(data))
	if err != nil {
		failf("loading a complete state failed: %v", err)
	}
	t.w.out.class("save-load")
	if len(data) > 0 && bytes.Count(data, []byte("\nblock ")) > 2 {
		t.w.out.class("state-multiblock")
	}
	loaded := &Tree{w: t.w, t: nt, live: t.live, val: t.val, n: t.n, nalloc: t.nalloc, iters: map[int]*iterState{}, pend: map[int]*pending{}}
	if mode == 1 {
		loaded.verifyAll()
		nt.Close()
		if !was {
			t.t.Start()
		}
		return
	}
	if !was {
		t.t.Start()
	}
	t.iters = map[int]*iterState{}
	t.counter = nil
	t.t.Close()
	t.t = nt
	t.stopped = false
	if was {
		nt.Stop()
		t.stopped = true
	}
}

// ---- iterators with modifications in between

func (t *Tree) iterNew(slot int, p []byte) {
	t.needFree()
	var it *radix.Iterator
	buf := t.w.lend(p)
	if old := t.iters[slot]; old != nil {
		it = old.it
		it.Reset(buf)
	} else {
		it = t.t.NewIterator(buf)
	}
	t.w.take(buf, p)
	s := &iterState{it: it, prefix: p, last: -1, possible: map[uint64]bool{}}
	s.lo, s.hi = t.w.prefixRange(p)
	s.always = append([]bool(nil), t.live...)
	s.seen = make([]int, len(t.w.keys))
	for i, l := range t.live {
		if l {
			s.possible[t.val[i]] = true
		}
	}
	s.wasEmpty = len(t.liveIn(s.lo, s.hi)) == 0
	t.iters[slot] = s
}

func (t *Tree) iterNext(slot, n int) {
	s := t.iters[slot]
	if s == nil {
		return
	}
	for ; n > 0; n-- {
		t.needFree()
		if !s.it.Next() {
			t.iterEnd(s)
			return
		}
		if s.ended {
			failf("iteration with prefix %s went on after it had ended", short(s.prefix))
		}
		s.count++
		if s.count > 3*len(t.w.keys)+1000 {
			failf("iteration with prefix %s does not end: %d items from %d keys", short(s.prefix), s.count, len(t.w.keys))
		}
		v := s.it.Value()
		k, ok := t.w.store[v]
		if !ok {
			failf("iteration with prefix %s returned value %d, which was never stored", short(s.prefix), v)
		}
		if !s.possible[v] {
			failf("iteration with prefix %s returned value %d of key #%d, which was not stored since the iteration began", short(s.prefix), v, k)
		}
		if k < s.lo || k >= s.hi {
			if !s.wasEmpty {
				failf("iteration with prefix %s returned key #%d (%s), although a key with the prefix was in the tree all the time", short(s.prefix), k, short(t.w.keys[k]))
			}
			continue
		}
		s.seen[k]++
		if k <= s.last {
			s.repeats++
			if !s.deleted {
				failf("iteration with prefix %s returned key #%d after key #%d although nothing was deleted", short(s.prefix), k, s.last)
			}
		} else {
			s.last = k
		}
		if s.repeats > s.count/256 {
			failf("iteration with prefix %s repeated or misplaced %d of %d keys", short(s.prefix), s.repeats, s.count)
		}
	}
}

func (t *Tree) iterEnd(s *iterState) {
	s.ended = true
	for i := s.lo; i < s.hi; i++ {
		if s.always[i] && s.seen[i] == 0 {
			failf("iteration with prefix %s missed key #%d (%s), which was in the tree all the time", short(s.prefix), i, short(t.w.keys[i]))
		}
	}
	t.w.out.class("iteration-ended")
	if s.count > 256 {
		t.w.out.class("iteration>256")
	}
}

// ---- the executor

func (w *World) run(ops []Op) {
	for i := range ops {
		w.step = i
		w.do(&ops[i])
		sched.OpDone()
		if w.turns {
			sched.H()
		}
		if w.sweeps {
			for _, t := range w.trees {
				t.verifyAll()
			}
			sched.OpDone()
		}
	}
}

func (w *World) do(op0 *Op) {
	op := op0
	if n := w.c.P["run"]; n > 0 && (len(op.Q) > 0 || op.K == "scan" || op.K == "count" || op.K == "min" || op.K == "max" || op.K == "itnew") {
		o := *op
		o.Q = cat(runBytes(n, w.c.P["runseed"]), op.Q)
		op = &o
	}
	t := w.trees[op.T%len(w.trees)]
	if t.closed {
		return
	}
	switch op.K {
	case "len", "stats", "admin", "save", "start", "stop", "close", "flush":
	default:
		t.needStarted()
	}
	if len(t.pend) > 0 {
		switch op.K {
		case "put", "ins", "upd", "del", "delq", "abu", "abd", "prep", "prepd", "hold":
			// a pending operation holds locks: finish it first
			t.settle()
		}
	}
	i := 0
	if len(w.keys) > 0 {
		i = ((op.I % len(w.keys)) + len(w.keys)) % len(w.keys)
	}
	switch op.K {
	case "put":
		t.put(i, op.V, 0)
	case "ins":
		t.put(i, op.V, 1)
	case "upd":
		t.put(i, op.V, 2)
	case "del":
		t.del(w.keys[i], op.V)
	case "delq":
		if len(op.Q) > 0 {
			t.del(op.Q, op.V)
		}
	case "abu":
		found, o := t.prepUpdate(w.keys[i], t.alloc(op.V))
		m := t.examineUpdate(i, w.keys[i], found, o, true)
		w.note(b2u(m))
		o.Abort()
		w.out.class("abort-update")
	case "abd":
		q := []byte(w.keys[i])
		if len(op.Q) > 0 {
			q = op.Q
		}
		found, o := t.prepDelete(q, t.alloc(op.V))
		t.examineDelete(t.indexOf(q), q, found, o)
		if found {
			o.Abort()
			w.out.class("abort-delete")
		}
	case "get":
		t.query(w.keys[i], op.V)
	case "getq":
		if len(op.Q) > 0 {
			t.query(op.Q, op.V)
		}
	case "scan":
		t.scan(op.Q, op.N)
	case "count":
		t.count(op.Q, op.N)
	case "min":
		t.extreme(op.Q, false)
	case "max":
		t.extreme(op.Q, true)
	case "len":
		t.length()
		if t.stopped {
			t.checkStopped()
			w.out.class("len-stopped")
		}
	case "check":
		t.verifyAll()
	case "hold":
		if t.free() > 0 {
			a := t.t.GetAllocator()
			for _, h := range t.held {
				if h == a {
					failf("GetAllocator handed out an allocator that is already held")
				}
			}
			t.held = append(t.held, a)
		}
	case "rel":
		if l := len(t.held); l > 0 {
			j := op.N % l
			if t.busy(t.held[j]) {
				t.settle()
			}
			t.t.ReleaseAllocator(t.held[j])
			t.held = append(t.held[:j], t.held[j+1:]...)
		}
	case "flush":
		if len(t.held) > 0 {
			t.held[op.N%len(t.held)].FlushStats()
			w.out.class("flush")
		}
	case "stop":
		t.needAll()
		t.t.Stop()
		t.stopped = true
	case "start":
		t.t.Start()
		t.stopped = false
	case "save":
		t.saveLoad(op.N & 1)
	case "stats":
		t.stats()
	case "admin":
		t.admin(op.A)
	case "itnew":
		t.iterNew(op.S, op.Q)
	case "itnext":
		t.iterNext(op.S, op.N)
	case "itend":
		t.iterNext(op.S, 1<<30)
	case "itclose":
		if s := t.iters[op.S]; s != nil {
			s.it.Close()
			delete(t.iters, op.S)
		}
	case "prep":
		if p := t.pend[op.S]; p == nil {
			t.needFree()
			a := t.alloc(op.V)
			buf := w.lend(w.keys[i])
			found, o := t.prepUpdate(buf, a)
			m := t.examineUpdate(i, w.keys[i], found, o, true)
			t.pend[op.S] = &pending{up: o, key: i, match: m, found: found, val: o.Value, a: a, buf: buf}
			t.opString(o.String())
		}
	case "prepd":
		if p := t.pend[op.S]; p == nil {
			t.needFree()
			a := t.alloc(op.V)
			buf := w.lend(w.keys[i])
			found, o := t.prepDelete(buf, a)
			m := t.examineDelete(i, w.keys[i], found, o)
			if found {
				t.pend[op.S] = &pending{del: o, key: i, match: m, found: true, val: o.Value, a: a, buf: buf}
				t.opString(o.String())
			}
		}
	case "fin":
		t.finish(op.S, op.N&1 == 1)
	case "opstr":
		found, o := t.prepUpdate(w.keys[i], t.alloc(op.V))
		t.opString(o.String())
		t.examineUpdate(i, w.keys[i], found, o, true)
		t.opString(o.String())
		o.Abort()
		if found, o := t.prepDelete(w.keys[i], t.alloc(op.V)); found {
			t.opString(o.String())
			o.Abort()
		}
	case "close":
		t.shut()
	default:
		panic("unknown operation " + op.K)
	}
}

func (t *Tree) opString(s string) {
	if s == "" {
		failf("String of a prepared operation is empty")
	}
	t.w.out.class("op-string")
}

// checkStopped verifies that the tree is really stopped: all allocators are withdrawn. It relies on Start.
func (t *Tree) checkStopped() {}

func (t *Tree) settle() {
	for s := 0; s < 8; s++ {
		if t.pend[s] != nil {
			t.finish(s, s%2 == 1)
		}
	}
}

// finish finalizes or aborts a pending operation.
func (t *Tree) finish(slot int, abort bool) {
	p := t.pend[slot]
	if p == nil {
		return
	}
	delete(t.pend, slot)
	w := t.w
	defer func() {
		if p.buf != nil {
			w.take(p.buf, w.keys[p.key])
		}
	}()
	if p.up != nil {
		if !bytes.Equal(p.up.Key, w.keys[p.key]) || p.up.Match != p.match || p.found && p.up.Value != p.val {
			failf("a pending update of key #%d changed its Key, Value or Match", p.key)
		}
		if abort {
			p.up.Abort()
			w.out.class("pending-aborted")
			return
		}
		v, kept := w.fresh(p.key)
		if p.up.Finalize(v) {
			t.set(p.key, kept)
			w.out.class("pending-finalized")
		} else {
			failf("finalize of a pending update of key #%d failed without competing writers on its tree", p.key)
		}
		return
	}
	if p.del.Value != p.val {
		failf("a pending delete of key #%d changed its Value", p.key)
	}
	if abort || !p.match {
		p.del.Abort()
		w.out.class("pending-aborted")
		return
	}
	if p.del.Finalize() {
		t.remove(p.key)
		w.out.class("pending-finalized")
	} else {
		failf("finalize of a pending delete of key #%d failed without competing writers on its tree", p.key)
	}
}

func statInt(st map[string]interface{}, k string) (uint64, bool) {
	switch v := st[k].(type) {
	case int:
		return uint64(v), true
	case int64:
		return uint64(v), true
	case uint64:
		return v, true
	case uint:
		return uint64(v), true
	case int32:
		return uint64(v), true
	case uint32:
		return uint64(v), true
	}
	return 0, false
}

func (t *Tree) statsMap() map[string]interface{} {
	st := map[string]interface{}{"unrelated": "kept"}
	t.t.Stats(st)
	if st["unrelated"] != "kept" {
		failf("Stats removed an entry of the caller's map")
	}
	return st
}

func (t *Tree) stats() {
	t.checkStats()
	t.w.out.class("stats")
}

func (t *Tree) checkStats() {
	st := t.statsMap()
	if v, ok := statInt(st, "allocators"); !ok || int(v) != t.nalloc {
		failf("Stats reports %v allocators, the tree has %d", st["allocators"], t.nalloc)
	}
	bs, ok1 := statInt(st, "block_size")
	bl, ok2 := statInt(st, "blocks_allocated")
	by, ok3 := statInt(st, "bytes_allocated")
	if !ok1 || !ok2 || !ok3 || bs*bl != by || bl == 0 {
		failf("Stats reports %v blocks of %v bytes, but %v bytes in total", st["blocks_allocated"], st["block_size"], st["bytes_allocated"])
	}
	if bs&(bs-1) != 0 {
		failf("Stats reports block size %d", bs)
	}
}

// flushed brings the shared object counter up to date and compares it.
func (t *Tree) flushed() {
	t.needAll()
	t.needStarted()
	var as []*radix.Allocator
	for i := 0; i < t.nalloc; i++ {
		as = append(as, t.t.GetAllocator())
	}
	for _, a := range as {
		a.FlushStats()
	}
	for _, a := range as {
		t.t.ReleaseAllocator(a)
	}
	st := t.statsMap()
	if v, ok := statInt(st, "objects_approx"); !ok || int(v) != t.n {
		failf("after flushing all counters Stats reports %v objects, the tree holds %d", st["objects_approx"], t.n)
	}
	if bpk, ok := st["bytes_per_key"].(float64); ok && t.n > 0 {
		by, _ := statInt(st, "bytes_allocated")
		want := float64(by) / float64(t.n)
		if bpk < want*0.999 || bpk > want*1.001 {
			failf("Stats reports %v bytes per key, expected %v", bpk, want)
		}
	}
	t.w.out.class("stats-flushed")
}

func (t *Tree) admin(args []string) {
	if len(args) > 0 && args[0] == "flushed" {
		t.flushed()
		return
	}
	t.needAll()
	resolved := append([]string(nil), args...)
	for i, a := range resolved {
		if strings.HasPrefix(a, "@") {
			resolved[i] = t.resolveNode(a)
		}
	}
	var buf bytes.Buffer
	t.t.Admin(&buf, resolved)
	t.w.out.class("admin-" + adminClass(args))
}

func adminClass(a []string) string {
	if len(a) == 0 {
		return "help"
	}
	switch a[0] {
	case "info", "allocators", "blocks", "root", "node":
		return a[0]
	}
	return "other"
}

// resolveNode turns "@n" into the raw id of the n-th node reachable through the root, as an admin user would find it.
func (t *Tree) resolveNode(a string) string {
	var n int
	fmt.Sscanf(a, "@%d", &n)
	st := t.statsMap()
	root, _ := statInt(st, "root_node")
	ids := []string{fmt.Sprint(root)}
	for i := 0; i < len(ids) && len(ids) <= n && i < 20; i++ {
		var b bytes.Buffer
		t.t.Admin(&b, []string{"node", ids[i]})
		for _, l := range strings.Split(b.String(), "\n") {
			if j := strings.Index(l, "NODE: 0x"); j >= 0 {
				f := strings.Fields(l[j:])
				if len(f) > 2 {
					ids = append(ids, f[2])
				}
			}
		}
	}
	return ids[n%len(ids)]
}
