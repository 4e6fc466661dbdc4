package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// ---- C13: failing writers

var errInjected = errors.New("injected write failure")

// faultW fails at the at-th write, or once limit bytes were accepted.
type faultW struct {
	at    int // index of the failing write, -1: none
	limit int // bytes accepted, -1: any
	part  int // bytes of the failing write that are accepted
	once  bool
	n     int
	bytes int
	hit   bool
}

func (f *faultW) Write(p []byte) (int, error) {
	i := f.n
	f.n++
	if f.at >= 0 && (i == f.at || i > f.at && !f.once) {
		f.hit = true
		n := minInt(f.part, len(p)-1)
		if n < 0 {
			n = 0
		}
		f.bytes += n
		return n, errInjected
	}
	if f.limit >= 0 && f.bytes+len(p) > f.limit {
		f.hit = true
		n := f.limit - f.bytes
		f.bytes = f.limit
		return n, errInjected
	}
	f.bytes += len(p)
	return len(p), nil
}

// guarded runs f in a goroutine of its own and reports if it waits for something that will never happen.
func guarded(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(sched.Violation); ok {
					done <- v.Msg
					return
				}
				done <- fmt.Sprintf("panic: %v\n%s", e, firstLines(dumpSelf(), 40))
			}
		}()
		f()
		done <- ""
	}()
	start, cpu := time.Now(), cpuSeconds()
	blocked := 0
	for wait := 200 * time.Microsecond; ; {
		select {
		case m := <-done:
			return m
		case <-time.After(wait):
		}
		if wait < 20*time.Millisecond {
			wait *= 2
			continue
		}
		all := true
		for _, s := range stacks() {
			if strings.Contains(s, "jayloop/radix.") && !isBlocked(s) {
				all = false
			}
		}
		if !all {
			blocked = 0
		} else if blocked++; blocked > 20 {
			select {
			case m := <-done:
				return m
			default:
			}
			return "it never returns: every goroutine involved waits for another one\n" + dumpRadix()
		}
		if time.Since(start) > 60*time.Second && cpuSeconds()-cpu > 60 {
			return "it does not return"
		}
	}
}

func faultGen(kind string) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var c *Case
		switch kind {
		case "many":
			// many blocks
			ks, kd := genUniverse(r, uniOpts{kind: "ladder", maxKeys: 40})
			c = &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.In(1, 4), Vmode: r.N(3), P: map[string]int{"run": r.In(600, 2500), "runseed": r.N(1000)}}
			c.Ops = genHistory(r, c.Keys, histOpts{w: weights{{"get", 1}}, n: r.In(60, 240), via: true})
			if r.P(60) {
				c.P = map[string]int{"bulk": r.In(20, 90), "bulkseed": r.N(1 << 30), "bulkrun": r.In(300, 3800)}
				c.Keys, c.Kind = nil, "bulk"
				c.Ops = nil
				for _, i := range r.perm(2 * c.P["bulk"]) {
					c.Ops = append(c.Ops, Op{K: "put", I: i, V: r.N(3)})
				}
			}
		case "plain":
			c = bulkGen(r, i)
			c.P["bulk"] = r.In(60, 700)
			c.Setup = nil
			for _, i := range r.perm(2 * c.P["bulk"]) {
				c.Setup = append(c.Setup, Op{K: "put", I: i, V: r.N(3)})
			}
			c.P["bulkrun"] = 100000
		default:
			c = seqGen(weights{{"hold", 2}, {"rel", 1}, {"flush", 1}, {"len", 1}}, 200, 120, "", nil)(r, i)
			if c.NAlloc == 0 {
				c.NAlloc = 3
			}
		}
		if c.P == nil {
			c.P = map[string]int{}
		}
		c.P["points"] = r.In(8, 30)
		c.P["fseed"] = r.N(1 << 30)
		return c
	}
}

func runFault(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	w := newWorld(c)
	out.Classes = map[string]int{}
	w.out = out
	t := w.trees[0]
	if msg := inRun(seqLimit, func() {
		w.run(c.Setup)
		w.run(c.Ops)
		t.settle()
		t.needStarted()
		t.needAll()
		t.t.Stop()
		t.stopped = true
	}); msg != "" {
		out.Fail = msg
		return out
	}
	var good []byte
	if msg := guarded(func() { good = t.save() }); msg != "" {
		out.Fail = "WriteState: " + msg
		return out
	}
	probe := &faultW{at: -1, limit: -1}
	if msg := guarded(func() {
		if _, err := t.t.WriteState(probe); err != nil {
			failf("WriteState failed: %v", err)
		}
	}); msg != "" {
		out.Fail = "WriteState: " + msg
		return out
	}
	r := newRng("fault", c.P["fseed"])
	type point struct{ at, limit, part, once int }
	var pts []point
	if m, ok := c.P["fat"]; ok {
		pts = append(pts, point{m, c.P["flimit"], c.P["fpart"], c.P["fonce"]})
	} else {
		n := c.P["points"]
		if probe.n <= 2*n {
			for i := 0; i < probe.n; i++ {
				pts = append(pts, point{i, -1, r.pick(0, 0, 1, 1<<30), r.N(2)})
			}
		} else {
			for _, i := range []int{0, 1, 2, probe.n - 1, probe.n - 2, probe.n / 2} {
				pts = append(pts, point{i, -1, r.pick(0, 1, 1<<30), r.N(2)})
			}
			for i := 0; i < n; i++ {
				pts = append(pts, point{r.N(probe.n), -1, r.pick(0, 1, 1<<30), r.N(2)})
			}
		}
		for i := 0; i < n; i++ {
			l := r.N(probe.bytes)
			if i < 3 {
				l = []int{0, probe.bytes - 1, r.N(minInt(200, probe.bytes))}[i]
			}
			pts = append(pts, point{-1, l, 0, 0})
		}
	}
	fail := func(p point, msg string) *Outcome {
		out.Fail = msg
		x := clone(c)
		x.P["fat"], x.P["flimit"], x.P["fpart"], x.P["fonce"] = p.at, p.limit, p.part, p.once
		out.Refined = x
		return out
	}
	for _, p := range pts {
		f := &faultW{at: p.at, limit: p.limit, part: p.part, once: p.once > 0}
		what := fmt.Sprintf("WriteState to a writer failing at write %d of %d", p.at, probe.n)
		if p.at < 0 {
			what = fmt.Sprintf("WriteState to a writer accepting %d of %d bytes", p.limit, probe.bytes)
		}
		var err error
		if msg := guarded(func() { _, err = t.t.WriteState(f) }); msg != "" {
			return fail(p, what+": "+msg)
		}
		out.Execs++
		if !f.hit {
			continue
		}
		if err == nil {
			return fail(p, what+" reported no error")
		}
		if p.at >= 0 {
			out.class("fault-write")
		} else {
			out.class("fault-bytes")
		}
		if p.once > 0 {
			out.class("fault-transient")
		}
	}
	// a later save is complete
	var later []byte
	if msg := guarded(func() { later = t.save() }); msg != "" {
		out.Fail = "WriteState after failed attempts: " + msg
		return out
	}
	if len(later) != len(good) {
		out.class("size-differs")
	}
	if msg := inRun(seqLimit, func() {
		nt, err := radix.NewTreeFromState(bytes.NewReader(later))
		if err != nil {
			failf("loading a state saved after failed attempts failed: %v", err)
		}
		loaded := t.sibling(nt)
		t.needStarted()
		t.verifyAll()
		loaded.verifyAll()
		for n := 0; n < 40; n++ {
			x := []*Tree{t, loaded}[r.N(2)]
			i := r.N(len(w.keys))
			if x.live[i] && r.P(60) {
				x.del(w.keys[i], 0)
			} else {
				x.put(i, 0, 0)
			}
		}
		t.verifyAll()
		loaded.verifyAll()
		t.shut()
		loaded.shut()
	}); msg != "" {
		out.Fail = msg
		return out
	}
	if blocks := len(good) / 100; blocks > 0 && probe.n > 80 {
		out.class("many-writes")
	}
	out.Nontrivial = out.Classes["fault-write"]+out.Classes["fault-bytes"] >= 4 && t.n > 0
	return out
}

// sibling makes a model of a tree loaded from t's state.
func (t *Tree) sibling(nt *radix.Tree) *Tree {
	return &Tree{w: t.w, t: nt, live: append([]bool(nil), t.live...), val: append([]uint64(nil), t.val...), n: t.n, nalloc: t.nalloc, iters: map[int]*iterState{}, pend: map[int]*pending{}}
}

// ---- C14: incomplete and foreign states

type failR struct{ r io.Reader }

func (f failR) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errInjected
	}
	return n, err
}

func cutReader(b []byte, mode int) io.Reader {
	var r io.Reader = bytes.NewReader(b)
	switch mode {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	case 3:
		r = iotest.HalfReader(r)
	case 4:
		r = failR{r}
	case 5:
		r = failR{iotest.DataErrReader(r)}
	}
	return r
}

func cutGen(max int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		c := seqGen(weights{{"hold", 2}, {"rel", 1}, {"flush", 1}, {"save", 1}}, 150, 120, "", nil)(r, i)
		if c.NAlloc == 0 {
			c.NAlloc = 3
		}
		if r.P(10) {
			c.Setup, c.Ops = nil, c.Ops[:r.N(2)]
		}
		c.P = map[string]int{"cseed": r.N(1 << 30), "max": max}
		if r.P(15) {
			c.P["run"], c.P["runseed"] = r.In(300, 2000), r.N(1000)
			if len(c.Keys) > 20 {
				delete(c.P, "run")
			}
		}
		return c
	}
}

// saveCase runs a history and returns the tree, stopped, with its state.
func saveCase(c *Case, out *Outcome) (w *World, data []byte, msg string) {
	msg = inRun(seqLimit, func() {
		w = newWorld(c)
		w.out = out
		w.run(c.Setup)
		w.run(c.Ops)
		t := w.trees[0]
		t.settle()
		t.needStarted()
		t.needAll()
		t.t.Stop()
		t.stopped = true
	})
	if msg == "" {
		msg = guarded(func() { data = w.trees[0].save() })
	}
	return
}

func tryLoad(rd io.Reader) (t *radix.Tree, err error, msg string) {
	msg = inRun(seqLimit, func() { t, err = radix.NewTreeFromState(rd) })
	return
}

func runCut(c *Case) *Outcome {
	out := &Outcome{Execs: 1, Classes: map[string]int{}}
	w, data, msg := saveCase(c, out)
	if msg != "" {
		out.Fail = msg
		return out
	}
	t := w.trees[0]
	r := newRng("cut", c.P["cseed"])
	cuts := map[int]bool{}
	max := c.P["max"]
	if at, ok := c.P["cut"]; ok {
		cuts[at] = true
	} else if len(data) <= max {
		for i := range data {
			cuts[i] = true
		}
		out.class("all-offsets")
	} else {
		for i := 0; i < max/4; i++ {
			cuts[i] = true
			cuts[len(data)-1-i] = true
		}
		// around the ends of lines, where one section ends and the next begins
		var lines []int
		for i, b := range data {
			if b == '\n' {
				lines = append(lines, i)
			}
		}
		for i := 0; i < max/8 && len(lines) > 0; i++ {
			l := lines[r.N(len(lines))]
			for d := -1; d <= 2; d++ {
				if l+d >= 0 && l+d < len(data) {
					cuts[l+d] = true
				}
			}
		}
		for len(cuts) < max {
			cuts[r.N(len(data))] = true
		}
	}
	list := make([]int, 0, len(cuts))
	for i := range cuts {
		list = append(list, i)
	}
	sort.Ints(list)
	for _, n := range list {
		mode := 0
		if r.P(25) {
			mode = r.N(6)
		}
		if m, ok := c.P["rmode"]; ok {
			mode = m
		}
		if n >= len(data) {
			continue
		}
		lt, err, msg := tryLoad(cutReader(data[:n:n], mode))
		if msg == "" && err == nil {
			msg = fmt.Sprintf("a state of %d bytes cut off after %d bytes was loaded without error", len(data), n)
			if lt == nil {
				msg = "loading returned neither a tree nor an error"
			}
		} else if msg == "" && lt != nil {
			msg = "loading returned a tree together with an error"
		} else if msg != "" {
			msg = fmt.Sprintf("loading a state of %d bytes cut off after %d bytes: %s", len(data), n, msg)
		}
		if msg != "" {
			out.Fail = msg
			out.Refined = clone(c)
			out.Refined.P["cut"], out.Refined.P["rmode"] = n, mode
			return out
		}
		out.Execs++
		out.class("cut")
	}
	// the complete state is accepted however it is delivered
	for mode := 0; mode < 4; mode++ {
		if len(data) > 100000 && mode == 1 {
			continue
		}
		lt, err, msg := tryLoad(cutReader(data, mode))
		if msg == "" && (err != nil || lt == nil) {
			msg = fmt.Sprintf("loading a complete state failed: %v", err)
		}
		if msg == "" {
			msg = inRun(seqLimit, func() {
				l := t.sibling(lt)
				l.verifyAll()
				l.shut()
			})
		}
		if msg != "" {
			out.Fail = fmt.Sprintf("complete state, reader %d: %s", mode, msg)
			return out
		}
	}
	msg = inRun(seqLimit, func() {
		t.needStarted()
		t.verifyAll()
		w.closeAll()
	})
	out.Fail = msg
	out.Nontrivial = out.Classes["cut"] > 50 && t.n > 0
	return out
}

// states are exchanged between builds through files in the directory of the run.
func shareDir() string { return os.Getenv("RV_SHARE") }

func shareGen(r *Rng, i int) *Case {
	c := seqGen(weights{{"hold", 1}, {"rel", 1}}, 100, 60, "", nil)(r, i)
	if c.NAlloc == 0 {
		c.NAlloc = 2
	}
	if i == 0 {
		c.Setup, c.Ops = nil, nil
	}
	if i == 1 {
		c.Setup, c.Ops = nil, []Op{{K: "put"}}
	}
	return c
}

func runShare(c *Case) *Outcome {
	out := &Outcome{Execs: 1, Classes: map[string]int{}}
	w, data, msg := saveCase(c, out)
	out.Fail = msg
	if msg == "" && shareDir() != "" {
		name := fmt.Sprintf("state-%s-%d", buildName, c.Index)
		if err := os.WriteFile(filepath.Join(shareDir(), name), data, 0o644); err != nil {
			panic(err)
		}
	}
	if msg == "" {
		w.trees[0].needStarted()
		w.closeAll()
	}
	return out
}

func noGen(r *Rng, i int) *Case { return &Case{} }

// runForeign loads the states of other builds.
func runForeign(c *Case) *Outcome {
	out := &Outcome{Classes: map[string]int{}}
	load := func(name string, data []byte) bool {
		lt, err, msg := tryLoad(bytes.NewReader(data))
		if msg == "" && (err == nil || lt != nil) {
			msg = "was loaded without error"
		}
		if msg != "" {
			out.Fail = fmt.Sprintf("a state of %d bytes written by a build with another block size (%s), loaded by build %s: %s", len(data), name, buildName, msg)
			out.Refined = clone(c)
			out.Refined.Data = data
			return false
		}
		out.Execs++
		out.class("foreign")
		return true
	}
	if len(c.Data) > 0 {
		load("replayed", c.Data)
		return out
	}
	if shareDir() == "" {
		return out
	}
	files, _ := filepath.Glob(filepath.Join(shareDir(), "state-*"))
	sort.Strings(files)
	sort.SliceStable(files, func(i, j int) bool { return len(files[i]) < len(files[j]) })
	n := 0
	for _, f := range files {
		name := filepath.Base(f)
		if strings.HasPrefix(name, "state-"+buildName+"-") {
			continue
		}
		if strings.HasSuffix(name, "-0") && c.Index > 0 {
			continue
		}
		if n++; n%8 != c.Index%8 {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if !load(name, b) {
			return out
		}
	}
	out.Nontrivial = out.Classes["foreign"] > 0
	return out
}

// ---- C16: bounded memory

func cycleGen(plain bool) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		mk := r.pick(2, 3, 4, 6, 10, 20, 40)
		if r.P(10) {
			mk = 200
		}
		var ks [][]byte
		var kd string
		if r.P(50) && mk >= 3 {
			ks, kd = concUniverse(r, mk)
		} else {
			ks, kd = genUniverse(r, uniOpts{maxKeys: mk, maxRun: 300})
		}
		if len(ks) > 40 && hugeNodes(ks) {
			// the property is about nodes of at most 257 words
			ks = ks[:40]
		}
		c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: 1, Vmode: r.N(3), P: map[string]int{}}
		nk := len(ks)
		base := map[int]bool{}
		p := r.pick(0, 0, 30, 70)
		for i := range ks {
			if r.P(p) {
				base[i] = true
				c.Setup = append(c.Setup, Op{K: "put", I: i})
			}
		}
		live := map[int]bool{}
		for i := range base {
			live[i] = true
		}
		// a cycle starts and ends with the same set of keys
		n := r.In(1, minInt(2*nk, 60))
		if r.P(50) {
			for _, i := range r.perm(nk) {
				if !live[i] {
					c.Ops = append(c.Ops, Op{K: "put", I: i, V: 1})
					live[i] = true
				}
			}
		} else {
			for ; n > 0; n-- {
				i := r.N(nk)
				if live[i] {
					c.Ops = append(c.Ops, Op{K: "del", I: i, V: 1})
				} else {
					c.Ops = append(c.Ops, Op{K: "put", I: i, V: 1})
				}
				live[i] = !live[i]
			}
		}
		for _, i := range r.perm(nk) {
			if live[i] && !base[i] {
				c.Ops = append(c.Ops, Op{K: "del", I: i, V: 1})
			} else if !live[i] && base[i] {
				c.Ops = append(c.Ops, Op{K: "put", I: i, V: 1})
			}
		}
		// in between, things that need no memory
		for n := r.pick(0, 0, 1, 3, 8); n > 0; n-- {
			op := genOther(r, c.Keys, weights{{"get", 3}, {"getq", 2}, {"abu", 3}, {"abd", 3}, {"scan", 2}, {"count", 1}, {"min", 1}, {"max", 1}, {"upd", 3}, {"flush", 1}, {"len", 1}, {"delq", 1}}.pick(r), 1)
			at := r.N(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:at:at], append([]Op{op}, c.Ops[at:]...)...)
		}
		work := 60000
		c.P["cycles"] = maxInt(1600, minInt(work/(len(c.Ops)+1), 8000))
		if plain {
			// 2 MiB blocks: four blocks of the smallest nodes
			c.P["cycles"] = maxInt(100000, minInt(12000000/(len(c.Ops)+1), 600000))
		}
		c.P["own"] = r.N(2)
		if !plain && r.P(10) {
			c.P["saves"] = 1
		}
		return c
	}
}

// idleGen: before the cycle starts other allocators do something, and are idle from then on.
func idleGen(r *Rng, i int) *Case {
	c := cycleGen(false)(r, i)
	base := map[int]bool{}
	for _, op := range c.Setup {
		base[op.I] = true
	}
	k := r.In(1, 3)
	for j := 0; j < k; j++ {
		var ops []Op
		for n := r.pick(1, 1, 2, 5); n > 0; n-- {
			op := genOther(r, c.Keys, weights{{"abu", 6}, {"abd", 6}, {"delq", 4}, {"get", 2}, {"getq", 2}, {"upd", 3}, {"put", 3}, {"del", 3}}.pick(r), 1)
			if op.K == "put" || op.K == "del" {
				// twice, so that the set of keys stays
				o2 := Op{K: "del", I: op.I, V: 1}
				if base[op.I] {
					op.K, o2.K = "del", "put"
				} else {
					op.K = "put"
				}
				ops = append(ops, op)
				op = o2
			}
			op.V = 1
			ops = append(ops, op)
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.NAlloc = 1 + k
	c.P["own"], c.P["saves"] = 1, 0
	c.P["back"] = r.N(2)
	var ops []Op
	for _, op := range c.Ops {
		switch op.K {
		case "scan", "count", "min", "max", "len":
		default:
			op.V = 1
			ops = append(ops, op)
		}
	}
	c.Ops = ops
	return c
}

// hugeNodes tells if the tree over some of the keys can have a node with room for all 256 children and a run of more
// than 7 bytes: such a node is larger than anything the allocators take back.
func hugeNodes(ks [][]byte) bool {
	kids := map[string]map[byte]bool{}
	for _, k := range ks {
		for d := 8; d < len(k); d++ {
			p := string(k[:d])
			if kids[p] == nil {
				kids[p] = map[byte]bool{}
			}
			kids[p][k[d]] = true
			if len(kids[p]) >= 48 {
				return true
			}
		}
	}
	return false
}

func runCycles(c *Case) *Outcome {
	out := &Outcome{Execs: 1, Classes: map[string]int{}}
	n := c.P["cycles"]
	var marks []uint64
	var blockSize uint64
	out.Fail = inRun(1<<62, func() {
		w := newWorld(c)
		w.out = out
		w.run(c.Setup)
		t := w.trees[0]
		var parked []*radix.Allocator
		for _, ops := range c.Tasks {
			a := t.t.GetAllocator()
			parked = append(parked, a)
			t.held = []*radix.Allocator{a}
			w.run(ops)
			t.held = nil
			t.nalloc--
		}
		if len(parked) > 0 {
			t.held = append(t.held, t.t.GetAllocator())
			for c.P["back"] > 0 && len(parked) > 0 {
				t.t.ReleaseAllocator(parked[0])
				parked = parked[1:]
				t.nalloc++
			}
		} else if c.P["own"] > 0 && c.P["saves"] == 0 && !needsTree(c) {
			t.held = append(t.held, t.t.GetAllocator())
		}
		start := w.next + 1
		for i := 0; i < n; i++ {
			// values are reused too, so that the model stays small
			for k := range t.live {
				if t.live[k] {
					delete(w.store, t.val[k])
				}
			}
			w.store = map[uint64]int{}
			for k := range t.live {
				if t.live[k] {
					w.store[t.val[k]] = k
				}
			}
			w.next = start + uint64(i)*uint64(len(c.Ops)+1)
			w.run(c.Ops)
			if len(c.Tasks) == 0 && (i < 3 || i%(1+n/40) == 0) {
				t.verifyAll()
			}
			if c.P["saves"] > 0 && i%97 == 96 {
				t.saveLoad(0)
			}
			if i%(1+n/64) == 0 || i == n-1 {
				sched.YieldReal()
				st := t.statsMap()
				by, _ := statInt(st, "bytes_allocated")
				blockSize, _ = statInt(st, "block_size")
				marks = append(marks, by)
			}
		}
		for _, a := range parked {
			t.t.ReleaseAllocator(a)
			t.nalloc++
		}
		t.verifyAll()
		w.closeAll()
	})
	if out.Fail != "" {
		return out
	}
	first, last := marks[len(marks)/2], marks[len(marks)-1]
	g := (int64(last) - int64(first)) / int64(blockSize)
	out.add(fmt.Sprintf("growth-in-second-half-%d-blocks", g), 1)
	if g > 2 {
		out.Fail = fmt.Sprintf("memory grew from %d to %d and then to %d bytes while a cycle of %d steps was repeated %d times", marks[0], first, last, len(c.Ops), n)
	}
	out.Nontrivial = out.Classes["insert"] > 0 && out.Classes["delete"] > 0
	return out
}

// runIdle: what other allocators have done before must not make a difference to the memory the cycles need.
func runIdle(c *Case) *Outcome {
	o := runCycles(c)
	if strings.HasPrefix(o.Fail, "memory grew") {
		x := clone(c)
		x.Tasks, x.NAlloc = nil, 1
		if runCycles(x).Fail != "" {
			o.Fail = ""
			o.add("grows-anyway", 1)
		}
	}
	return o
}

// needsTree: some steps take an allocator of their own.
func needsTree(c *Case) bool {
	for _, o := range c.Ops {
		switch o.K {
		case "scan", "count", "min", "max", "len":
			return true
		}
	}
	return false
}

func init() {
	addProp(Property{ID: "C13", Level: "fault_enumeration",
		Rule: "trees of up to hundreds of blocks saved to writers that fail at each write (or a sample of them) and at sampled byte offsets, for good or once, with or without a partial write; a hang is recognised by all goroutines involved waiting; a later save must be complete; non-trivial if at least four faults hit on a non-empty tree",
		Stages: []Stage{
			{Name: "small", Build: "tiny", Quick: 7500, Gen: faultGen("small"), Run: runFault},
			{Name: "many", Build: "tiny", Quick: 2500, Gen: faultGen("many"), Run: runFault},
			{Name: "plain", Build: "plain", Quick: 80, Gen: faultGen("plain"), Run: runFault, NoShrink: true},
		}})
	addProp(Property{ID: "C14", Level: "fault_enumeration",
		Rule: "saved states cut off at every byte offset (small states) or at sampled offsets around section ends, read through whole, byte-wise and failing readers, and states written by builds with other block sizes; loading must return an error and no tree; the complete state must load; non-trivial if more than 50 cuts of a state of a non-empty tree were tried, or a foreign state was loaded",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 640, Gen: cutGen(1200), Run: runCut},
			{Name: "full", Build: "tiny", Quick: 40, Gen: cutGen(30000), Run: runCut},
			{Name: "plain", Build: "plain", Quick: 32, Gen: cutGen(400), Run: runCut},
			{Name: "mk-tiny", Build: "tiny", Quick: 8, Thorough: 40, Gen: shareGen, Run: runShare},
			{Name: "mk-plain", Build: "plain", Quick: 8, Thorough: 40, Gen: shareGen, Run: runShare},
			{Name: "mk-bs8", Build: "bs8", Quick: 8, Thorough: 40, Gen: shareGen, Run: runShare},
			{Name: "mk-bs16", Build: "bs16", Quick: 8, Thorough: 40, Gen: shareGen, Run: runShare},
			{Name: "foreign-tiny", Build: "tiny", Quick: 8, Thorough: 8, Gen: noGen, Run: runForeign, NoShrink: true},
			{Name: "foreign-plain", Build: "plain", Quick: 8, Thorough: 8, Gen: noGen, Run: runForeign, NoShrink: true},
			{Name: "foreign-bs8", Build: "bs8", Quick: 8, Thorough: 8, Gen: noGen, Run: runForeign, NoShrink: true},
			{Name: "foreign-bs16", Build: "bs16", Quick: 8, Thorough: 8, Gen: noGen, Run: runForeign, NoShrink: true},
		}})
	addProp(Property{ID: "C16", Level: "exploration",
		Rule: "a random cycle of inserts and deletes (plus operations that need no memory) repeated with one allocator so often that losing one smallest node per cycle would show as several blocks; reported bytes may not grow by more than two blocks in the second half; non-trivial if the cycle inserted and deleted",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 500, Gen: cycleGen(false), Run: runCycles},
			{Name: "idle", Build: "tiny", Quick: 200, Gen: idleGen, Run: runCycles},
			{Name: "plain", Build: "plain", Quick: 8, Gen: cycleGen(true), Run: runCycles, NoShrink: true},
			{Name: "large", Build: "tiny", Quick: 80, Gen: largeGen(6000, 12000, 24000), Run: runLargeCycles, NoShrink: true},
		}})
}
