package main

import "radixverif/shim/sched"

// ---- worn trees: epochs, generations and counters are far from their first values

// wornGen: as churnGen, on one tree for many rounds, after as many removals as it takes for the epochs to outgrow 8 or 16 bits.
func wornGen(r *Rng, i int) *Case {
	c := churnGen(false)(r, i)
	for len(c.Keys) > 40 {
		c = churnGen(false)(r, i)
	}
	c.P["rounds"] = 80
	c.P["seed"] = r.N(1 << 30)
	c.P["wear"] = r.pick(300, 300, 70000, 70000, 140000)
	c.Sched = nil
	return c
}

func runWorn(c *Case) *Outcome {
	out := &Outcome{}
	r := newRng("worn", c.P["seed"])
	var w *World
	var x *conc
	epoch := metaInt("epoch")
	if epoch == 0 {
		epoch = 1000
	}
	removals := minInt(c.P["wear"]*epoch, 1500000)
	out.Fail = inRun(1<<40, func() {
		w = newWorld(c)
		w.run(c.Setup)
		t := w.trees[0]
		t.releaseAll()
		t.held = append(t.held, t.t.GetAllocator())
		// one key comes and goes: at least one node is replaced each time
		spot := r.N(len(w.keys))
		for n := 0; n < removals; n++ {
			if n%5000 == 0 {
				spot = r.N(len(w.keys))
			}
			if t.live[spot] {
				t.del(w.keys[spot], 1)
			} else {
				t.put(spot, 1, 0)
			}
			sched.OpDone()
		}
		t.releaseAll()
		t.verifyAll()
		x = newConc(w)
		x.noLen = c.P["own"] != 0
	})
	if out.Fail != "" {
		return out
	}
	points := uint64(20)
	for round := 0; round < c.P["rounds"] && out.Fail == ""; round++ {
		x.begin()
		var fns []func()
		for i := range c.Tasks {
			i := i
			fns = append(fns, func() { x.runTask(i, c.Tasks[i], c.P["own"]>>uint(i)&1 == 1) })
		}
		run := sched.NewRun(fns...)
		run.OpLimit = concLimit
		run.SetList([]sched.Switch{{Task: 0, Local: 1 + uint64(r.N(int(points))), To: 1}})
		out.Fail = run.Exec(0)
		points = run.Local(0) + 1
		out.Execs++
		if out.Fail == "" {
			out.Fail = inRun(seqLimit, func() {
				x.readBack()
				x.judge()
				w.trees[0].verifyAll()
			})
		}
		if x.overlapped() {
			out.Nontrivial = true
		}
	}
	if out.Fail == "" {
		w.closeAll()
	}
	return out
}
