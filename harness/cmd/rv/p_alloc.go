package main

import (
	"bytes"
	"reflect"
	"sync"
	"unsafe"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// ---- C15: allocators have one holder; Stop means stopped

// booker keeps track of who certainly holds an allocator and when the tree is certainly stopped.
type booker struct {
	mu      sync.Mutex
	n       int
	held    map[int]*radix.Allocator // by task; nil if the allocator is not known
	starts  int                      // calls of Start so far
	active  int                      // calls of Start that have not returned
	window  int                      // number of the current stopped period, 0 if none
	windows int
	stopIdl int
}

// allocatorOf finds the allocator a pending operation refers to, if it shows one.
func allocatorOf(op interface{}) *radix.Allocator {
	if a, ok := op.(*radix.Allocator); ok {
		return a
	}
	v := reflect.ValueOf(op).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*radix.Allocator)(nil)) && f.CanAddr() {
			return *(**radix.Allocator)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

// got books an allocator that was just obtained.
func (b *booker) got(task int, what string, op interface{}) {
	if b == nil {
		return
	}
	a := allocatorOf(op)
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.window > 0 {
		failf("%s returned to task %d while the tree was stopped", what, task)
	}
	if a != nil {
		for t, h := range b.held {
			if h == a {
				failf("%s of task %d got an allocator that task %d holds", what, task, t)
			}
		}
	}
	b.held[task] = a
	if len(b.held) > b.n {
		failf("%d allocators are held at the same time, but the tree has %d", len(b.held), b.n)
	}
}

// drop is called right before an allocator is given back.
func (b *booker) drop(task int) {
	if b == nil {
		return
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	delete(b.held, task)
}

// enter and leave surround an operation that takes and returns an allocator.
func (b *booker) enter() int {
	if b == nil {
		return 0
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.window
}

func (b *booker) leave(what string, during int) {
	if b == nil || during == 0 {
		return
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.window == during {
		failf("%s began and completed while the tree was stopped", what)
	}
}

func (b *booker) stop(t *radix.Tree, task int) {
	b.mu.Lock()
	starts, active := b.starts, b.active
	b.mu.Unlock()
	t.Stop()
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.starts != starts || active > 0 {
		return
	}
	if len(b.held) > 0 {
		failf("Stop returned to task %d while %d allocators were held", task, len(b.held))
	}
	if b.window == 0 {
		b.windows++
		b.window = b.windows
	}
}

func (b *booker) start(t *radix.Tree) {
	b.mu.Lock()
	b.starts++
	b.active++
	b.window = 0
	b.mu.Unlock()
	t.Start()
	b.mu.Lock()
	b.active--
	b.mu.Unlock()
}

type poolTask struct {
	x     *conc
	id    int
	a     *radix.Allocator
	stops bool
	out   *Outcome
}

func (p *poolTask) release() {
	if p.a != nil {
		p.x.book.drop(p.id)
		p.x.t.t.ReleaseAllocator(p.a)
		p.a = nil
	}
}

func (p *poolTask) do(op *Op) {
	x, b, t := p.x, p.x.book, p.x.t.t
	switch op.K {
	case "acq":
		if p.a == nil && !p.stops {
			p.a = t.GetAllocator()
			b.got(p.id, "GetAllocator", p.a)
		}
	case "rel":
		p.release()
	case "stop":
		if p.a == nil {
			b.stop(t, p.id)
			p.stops = true
		}
	case "start":
		if p.a == nil {
			b.start(t)
			p.stops = false
		}
	case "len":
		if p.a == nil {
			r := scanRec{task: p.id, kind: "len", s: x.now()}
			r.leaves = t.Len()
			r.e = x.now()
			x.addScan(r)
		}
	case "admin":
		if p.a == nil {
			var o bytes.Buffer
			t.Admin(&o, op.A)
		}
	case "flush":
		if p.a != nil {
			p.a.FlushStats()
		}
	case "pause":
	default:
		if !p.stops {
			x.do(p.id, op, p.a)
		}
	}
	if x.real {
		x.clk.Add(1)
	}
	sched.OpDone()
	sched.H()
}

func (p *poolTask) run(ops []Op) {
	for i := range ops {
		p.do(&ops[i])
	}
	p.release()
	if p.stops {
		p.x.book.start(p.x.t.t)
	}
}

// poolEnd checks that nothing was lost.
func poolEnd(x *conc) {
	t, b := x.t, x.book
	if len(b.held) > 0 {
		failf("internal: %d allocators still booked", len(b.held))
	}
	sched.OpDone()
	var as []*radix.Allocator
	for i := 0; i < b.n; i++ {
		a := t.t.GetAllocator()
		b.got(-2-i, "GetAllocator", a)
		as = append(as, a)
		sched.OpDone()
	}
	for i, a := range as {
		b.drop(-2 - i)
		t.t.ReleaseAllocator(a)
	}
	x.readBack()
	x.judge()
	t.verifyAll()
	// a stopped tree counts too, and stays stopped
	t.t.Stop()
	if n := t.t.Len(); n != t.n {
		failf("Len of the stopped tree is %d, but it holds %d keys", n, t.n)
	}
	t.t.Start()
	t.length()
}

func poolGen(mode string, limit uint64) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		ks, kd := genUniverse(r, uniOpts{kind: "tiny", maxKeys: r.pick(2, 4, 8)})
		nt := r.In(2, 4)
		if mode == "enum" {
			nt = r.In(2, 3)
		}
		c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 1, 2, 2, 3, 3, 4, r.In(5, 9), r.In(5, 18)), Vmode: r.N(3), P: map[string]int{}}
		for _, k := range r.perm(len(ks)) {
			if r.P(50) {
				c.Setup = append(c.Setup, Op{K: "put", I: k})
			}
		}
		if r.P(20) {
			c.Setup = append(c.Setup, Op{K: "save", N: r.N(8)})
		}
		for t := 0; t < nt; t++ {
			c.Tasks = append(c.Tasks, poolOps(r, c.Keys, mode == "enum"))
		}
		c.Sched = genSched(r, mode, limit)
		return c
	}
}

func poolOps(r *Rng, ks []hx, brief bool) (ops []Op) {
	n := r.In(2, 6)
	if brief {
		n = r.In(1, 2)
	}
	for ; n > 0; n-- {
		switch r.N(11) {
		case 0, 1:
			ops = append(ops, Op{K: "acq"})
			for k := r.N(4); k > 0; k-- {
				op := genOther(r, ks, weights{{"put", 5}, {"del", 4}, {"get", 3}, {"abu", 2}, {"abd", 1}, {"flush", 1}}.pick(r), 0)
				op.Q = nil
				ops = append(ops, op)
			}
			ops = append(ops, Op{K: "rel"})
		case 2, 3, 4:
			ops = append(ops, genOther(r, ks, weights{{"put", 5}, {"del", 4}, {"get", 3}, {"abu", 2}, {"abd", 1}, {"ins", 1}}.pick(r), 0))
			ops[len(ops)-1].Q = nil
		case 5, 6, 7:
			ops = append(ops, Op{K: "stop"})
			for k := r.N(3); k > 0; k-- {
				ops = append(ops, []Op{{K: "len"}, {K: "len"}, {K: "pause"}, {K: "stop"}, {K: "admin", A: []string{"allocators"}}}[r.N(5)])
			}
			ops = append(ops, Op{K: "start"})
		case 8:
			ops = append(ops, Op{K: "len"})
		case 9:
			ops = append(ops, Op{K: "start"})
		case 10:
			ops = append(ops, Op{K: "admin", A: [][]string{{"allocators"}, {"allocators"}, {"info"}, {"blocks"}}[r.N(4)]})
		}
	}
	return
}

// execPool runs one case under one schedule.
func execPool(c *Case, s *Sched) (out *Outcome, run *sched.Run) {
	out = &Outcome{Execs: 1}
	var w *World
	var x *conc
	msg := inRun(seqLimit, func() {
		w = newWorld(c)
		w.run(c.Setup)
		w.trees[0].releaseAll()
		x = newConc(w)
		x.book = &booker{n: c.NAlloc, held: map[int]*radix.Allocator{}}
	})
	if msg == "" {
		var fns []func()
		for i := range c.Tasks {
			p := &poolTask{x: x, id: i, out: out}
			ops := c.Tasks[i]
			fns = append(fns, func() { p.run(ops) })
		}
		run = sched.NewRun(fns...)
		first := applySched(run, s)
		run.OpLimit = 400_000
		msg = run.Exec(first)
		out.Trace = run.Trace
	}
	if msg == "" {
		msg = inRun(seqLimit, func() {
			poolEnd(x)
			w.closeAll()
		})
	}
	out.Fail = msg
	if msg == "" {
		if x.book.windows > 0 {
			out.add("stopped-periods", x.book.windows)
		}
		for _, t := range c.Tasks {
			for _, o := range t {
				out.class("pool-" + o.K)
			}
		}
		out.Nontrivial = len(out.Trace) > 0 && x.book.starts > 0
	}
	return
}

func runPool(c *Case) *Outcome { return runSched(c, execPool) }

func poolParGen(r *Rng, i int) *Case {
	ks, kd := genUniverse(r, uniOpts{kind: "tiny", maxKeys: 12})
	return &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 2, 2, 3, 4, r.In(5, 9), r.pick(16, 33, 65)), Vmode: r.N(3), P: map[string]int{"rounds": 300, "tasks": r.In(2, 6), "seed": r.N(1 << 30)}}
}

func runPoolPar(c *Case) *Outcome {
	out := &Outcome{}
	w := newWorld(c)
	t := w.trees[0]
	x := newConc(w)
	x.real = true
	r := newRng("poolpar", c.P["seed"])
	for round := 0; round < c.P["rounds"]; round++ {
		x.begin()
		x.book = &booker{n: c.NAlloc, held: map[int]*radix.Allocator{}}
		var fns []func()
		for i := 0; i < c.P["tasks"]; i++ {
			p := &poolTask{x: x, id: i}
			ops := poolOps(r, w.keys, false)
			fns = append(fns, func() { p.run(ops) })
		}
		if msg := together(x, fns); msg != "" {
			failf("round %d: %s", round, msg)
		}
		if msg := together(x, []func(){func() { poolEnd(x) }}); msg != "" {
			failf("after round %d: %s", round, msg)
		}
		out.Execs++
		if x.book.windows > 0 {
			out.Nontrivial = true
			out.add("stopped-periods", x.book.windows)
		}
	}
	t.verifyAll()
	w.closeAll()
	return out
}

func init() {
	addProp(Property{ID: "C15", Level: "exploration",
		Rule: "2-6 goroutines acquire, use and release allocators, run tree-level operations, Stop, Start, Len and admin calls on trees with 1-4 allocators, under enumerated single preemptions, random and priority schedules, and really in parallel; non-trivial if the tree was started again and tasks interleaved, or (parallel) if it was certainly stopped",
		Stages: []Stage{
			{Name: "enum", Build: "tiny", Quick: 1000, Gen: poolGen("enum", 120), Run: runPool},
			{Name: "mixed", Build: "tiny", Quick: 120000, Gen: poolGen("mixed", 0), Run: runPool},
			{Name: "std", Build: "std", Quick: 800, Gen: poolGen("mixed", 0), Run: runPool},
			{Name: "parallel", Build: "plain", Quick: 640, Gen: poolParGen, Run: runPoolPar, NoShrink: true},
		}})
}
