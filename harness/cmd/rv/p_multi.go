package main

import (
	"runtime"

	"github.com/jayloop/radix/fuzzing"
	"radixverif/shim/sched"
)

// ---- worlds side by side: every task has trees, model and history of its own

func worldsGen(w weights, maxKeys, maxOps int, mode string) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		c := seqGen(w, maxKeys, maxOps, "", nil)(r, i)
		c.Setup, c.Ops = nil, nil
		c.NTrees = r.pick(1, 1, 1, 2)
		if c.NAlloc == 0 {
			c.NAlloc = r.In(1, 2)
		}
		n := r.In(2, 4)
		for t := 0; t < n; t++ {
			ops := genHistory(r, c.Keys, histOpts{w: w, n: r.In(1, maxOps), via: r.P(50), trees: c.NTrees})
			if r.P(60) {
				// start with some of the keys
				p := r.pick(30, 60, 100)
				var fill []Op
				for _, k := range r.perm(len(c.Keys)) {
					if r.P(p) {
						fill = append(fill, Op{K: "put", I: k})
					}
				}
				ops = append(fill, ops...)
			}
			c.Tasks = append(c.Tasks, ops)
		}
		c.Sched = genSched(r, mode, 0)
		if c.P == nil {
			c.P = map[string]int{}
		}
		c.P["scribble"] = r.N(2)
		return c
	}
}

// worldTask is the whole life of one world.
func worldTask(c *Case, i int, keep *Outcome) {
	w := newWorld(c)
	w.turns = true
	w.next = uint64(i) << 24
	w.run(c.Tasks[i])
	for _, t := range w.trees {
		if !t.closed {
			t.settle()
			t.needStarted()
			t.verifyAll()
		}
		sched.OpDone()
	}
	w.closeAll()
	*keep = *w.out
}

func execWorlds(c *Case, s *Sched) (out *Outcome, run *sched.Run) {
	out = &Outcome{Execs: 1}
	outs := make([]Outcome, len(c.Tasks))
	var fns []func()
	for i := range c.Tasks {
		i := i
		fns = append(fns, func() { worldTask(c, i, &outs[i]) })
	}
	run = sched.NewRun(fns...)
	first := applySched(run, s)
	run.OpLimit = seqLimit * uint64(len(fns))
	out.Fail = run.Exec(first)
	out.Trace = run.Trace
	for i := range outs {
		merge(out, &outs[i])
	}
	out.Execs = 1
	out.Nontrivial = len(run.Trace) > len(fns) && out.Classes["insert"] > 0
	return
}

func runWorlds(c *Case) *Outcome { return runSched(c, execWorlds) }

// runWorldsPar runs every world in a real goroutine, several times.
func runWorldsPar(c *Case) *Outcome {
	out := &Outcome{}
	for round := 0; round < c.P["rounds"]; round++ {
		outs := make([]Outcome, len(c.Tasks))
		x := &conc{real: true}
		var fns []func()
		for i := range c.Tasks {
			i := i
			fns = append(fns, func() { worldTask(c, i, &outs[i]); x.clk.Add(1) })
		}
		if msg := together(x, fns); msg != "" {
			failf("round %d: %s", round, msg)
		}
		for i := range outs {
			merge(out, &outs[i])
		}
		out.Execs++
	}
	out.Nontrivial = len(c.Tasks) > 1 && runtime.GOMAXPROCS(0) > 1 && out.Classes["insert"] > 0
	return out
}

func worldsParGen(w weights) func(r *Rng, i int) *Case {
	g := worldsGen(w, 300, 600, "harness")
	return func(r *Rng, i int) *Case {
		c := g(r, i)
		c.Sched = nil
		c.P["rounds"] = 4
		return c
	}
}

// ---- concurrent calls of the fuzz entry point

func fuzzParGen(r *Rng, i int) *Case {
	c := &Case{P: map[string]int{}}
	g := fuzzGen(3000)
	for n := r.In(2, 6); n > 0; n-- {
		c.Inputs = append(c.Inputs, g(r, i).Data)
	}
	return c
}

func runFuzzPar(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	before := radixGoroutines()
	x := &conc{real: true}
	var fns []func()
	clean := true
	for i := range c.Inputs {
		d := c.Inputs[i]
		want, keys := fuzzWant(d)
		if want != 1 {
			clean = false
		} else if keys >= 2 {
			out.Nontrivial = true
		}
		fns = append(fns, func() {
			for k := 0; k < 4; k++ {
				if got := fuzzing.Fuzz(append([]byte(nil), d...)); got != want {
					failf("Fuzz returned %d for %s, expected %d, while other calls ran", got, short(d), want)
				}
				x.clk.Add(1)
			}
		})
	}
	if msg := together(x, fns); msg != "" {
		out.Fail = msg
		return out
	}
	if clean {
		out.class("all-accepted")
		if !waitGoroutines(before) {
			out.Fail = "concurrent calls of Fuzz left a goroutine behind for accepted inputs"
		}
	}
	return out
}
