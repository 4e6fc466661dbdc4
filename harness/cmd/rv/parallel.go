package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"radixverif/shim/sched"
)

// parGen makes rounds of operations for real goroutines: many small windows on the same tree, each judged by itself.
func parGen(r *Rng, i int) *Case {
	var ks [][]byte
	var kd string
	switch r.N(3) {
	case 0:
		ks, kd = concUniverse(r, 12)
	case 1:
		ks, kd = genUniverse(r, uniOpts{kind: "wide", maxKeys: 260})
	default:
		ks, kd = genUniverse(r, uniOpts{maxKeys: 60})
	}
	return &Case{Kind: kd, Keys: toHx(ks), NAlloc: 10, Vmode: r.N(3), P: map[string]int{"rounds": 400, "tasks": r.In(2, 4), "ops": r.pick(3, 6, 12), "seed": r.N(1 << 30), "focus": r.pick(1, 2, 4, 30), "again": r.pick(0, 0, 0, 20)}}
}

func parScanGen(r *Rng, i int) *Case {
	c := parGen(r, i)
	if r.P(60) {
		d := staticGen(262, 700)(r, i)
		c.Keys, c.Kind = d.Keys, d.Kind
		c.P["rounds"] = 60
		c.P["ops"] = 30
		c.P["focus"] = r.pick(4, 40, 700)
	}
	c.P["scan"] = r.In(1, c.P["tasks"]-1)
	return c
}

// parMixGen: rounds with other kinds of operations.
func parMixGen(mix int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		c := parGen(r, i)
		c.P["mix"] = mix
		return c
	}
}

var parMixes = []weights{
	{{"put", 8}, {"ins", 4}, {"upd", 4}, {"del", 9}, {"get", 6}, {"abu", 2}, {"abd", 2}},
	{{"put", 8}, {"ins", 2}, {"upd", 3}, {"del", 9}, {"abu", 1}, {"abd", 1}, {"len", 3}, {"flush", 4}},
	{{"put", 8}, {"upd", 2}, {"del", 9}, {"admin", 12}, {"stats", 4}, {"len", 1}},
	{{"put", 4}, {"upd", 2}, {"del", 4}, {"get", 2}, {"abu", 9}, {"abd", 9}},
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func runParallel(c *Case) *Outcome {
	out := &Outcome{}
	w := newWorld(c)
	t := w.trees[0]
	x := newConc(w)
	x.real = true
	r := newRng("parallel", c.P["seed"])
	nk := len(w.keys)
	for _, i := range r.perm(nk) {
		if r.P(80) {
			t.put(i, 0, 0)
		}
	}
	upd := parMixes[c.P["mix"]]
	for round := 0; round < c.P["rounds"]; round++ {
		x.begin()
		focus := r.N(nk)
		var tasks [][]Op
		owns := 0
		for n := 0; n < c.P["tasks"]; n++ {
			own := r.P(50)
			if own {
				owns |= 1 << uint(n)
			}
			var ops []Op
			for k := 0; k < c.P["ops"]; k++ {
				op := genOther(r, w.keys, upd.pick(r), r.N(2))
				if own && c.P["mix"] > 0 {
					op.V = 1
					if op.K == "len" {
						op.K = "flush"
					}
				}
				op.I = (((focus + r.In(-c.P["focus"], c.P["focus"])) % nk) + nk) % nk
				ops = append(ops, op)
			}
			tasks = append(tasks, ops)
		}
		x.noLen = owns != 0
		for n := 0; n < c.P["scan"]; n++ {
			tasks[n] = nil
			for k := 0; k < 3; k++ {
				tasks[n] = append(tasks[n], genOther(r, w.keys, weights{{"scan", 6}, {"count", 2}, {"min", 1}, {"max", 1}}.pick(r), 0))
				if r.P(60) {
					tasks[n][k].Q = nil
				}
			}
		}
		var fns []func()
		for i := range tasks {
			i := i
			own := owns>>uint(i)&1 == 1
			fns = append(fns, func() { x.runTask(i, tasks[i], own) })
		}
		if msg := together(x, fns); msg != "" {
			failf("round %d: %s", round, msg)
		}
		x.readBack()
		x.judge()
		if round%16 == 0 {
			t.verifyAll()
		}
		out.Execs++
		if x.overlapped() {
			out.Nontrivial = true
			out.class("parallel-overlap")
		}
	}
	t.verifyAll()
	w.closeAll()
	return out
}

// waitProgress waits for a round. It gives up when the process has burnt a lot of CPU time without any operation
// completing: then the operations wait for each other forever.
func waitProgress(done chan bool, x *conc, failed *atomic.Pointer[string]) string {
	last, cpu, start := int64(-1), cpuSeconds(), time.Now()
	for {
		select {
		case <-done:
			return ""
		case <-time.After(100 * time.Millisecond):
		}
		if f := failed.Load(); f != nil && time.Since(start) > 2*time.Second {
			// what the others wait for is not coming
			return *f
		}
		if n := x.clk.Load(); n != last {
			last, cpu, start = n, cpuSeconds(), time.Now()
			continue
		}
		if cpuSeconds()-cpu > 30 && time.Since(start) > 15*time.Second {
			return fmt.Sprintf("no operation completed while %.0f s of CPU time passed (deadlock or livelock)\n%s", cpuSeconds()-cpu, dumpRadix())
		}
	}
}

// together runs functions in real goroutines that start at the same moment.
func together(x *conc, fns []func()) string {
	var wg sync.WaitGroup
	var ready atomic.Int32
	var failed atomic.Pointer[string]
	fails := make([]string, len(fns))
	for i := range fns {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(sched.Violation); ok {
						fails[i] = v.Msg
					} else {
						s := debug.Stack()
						if len(s) > 3000 {
							s = s[:3000]
						}
						fails[i] = fmt.Sprintf("panic: %v\n%s", e, s)
					}
					failed.CompareAndSwap(nil, &fails[i])
				}
			}()
			ready.Add(1)
			for ready.Load() < int32(len(fns)) {
				runtime.Gosched()
			}
			fns[i]()
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	if msg := waitProgress(done, x, &failed); msg != "" {
		return msg
	}
	for _, f := range fails {
		if f != "" {
			return f
		}
	}
	return ""
}
