package main

import (
	"strings"

	"radixverif/shim/sched"
)

// waitGen: tasks 0 to writers-1 change the tree and are suspended somewhere; the others read.
func waitGen(wide bool) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var ks [][]byte
		var kd string
		switch {
		case wide && r.P(50):
			ks, kd = genUniverse(r, uniOpts{kind: "wide", maxKeys: r.pick(140, 260)})
		case wide:
			ks, kd = wideSplit(r), "widesplit"
		default:
			ks, kd = concUniverse(r, r.In(2, 14))
		}
		c := &Case{Kind: kd, Keys: toHx(ks), Vmode: r.N(3), P: map[string]int{}}
		for _, i := range r.perm(len(ks)) {
			if r.P(80) {
				c.Setup = append(c.Setup, Op{K: "put", I: i})
			}
		}
		focus, owns := r.N(len(ks)), 0
		near := func() int { return ((focus+r.In(-2, 2))%len(ks) + len(ks)) % len(ks) }
		writers, readers := r.pick(1, 1, 1, 2), r.pick(1, 1, 2)
		for t := 0; t < writers+readers; t++ {
			own := r.P(40)
			w := weights{{"put", 8}, {"ins", 4}, {"upd", 4}, {"del", 9}, {"abu", 2}, {"abd", 2}}
			n := r.In(1, 3)
			if t >= writers {
				w = weights{{"get", 9}, {"getq", 3}, {"scan", 3}, {"count", 2}, {"min", 2}, {"max", 2}}
				n = r.In(2, 5)
			}
			var ops []Op
			for ; n > 0; n-- {
				op := genOther(r, c.Keys, w.pick(r), r.N(2))
				op.I = near()
				if r.P(50) && (op.K == "scan" || op.K == "count" || op.K == "min" || op.K == "max") {
					op.Q = nil
				}
				if own {
					op.V = 1
				}
				ops = append(ops, op)
			}
			c.Tasks = append(c.Tasks, ops)
			if own {
				owns |= 1 << uint(t)
			}
		}
		c.P["own"], c.P["writers"] = owns, writers
		c.NAlloc = 2 * (writers + readers)
		c.Sched = &Sched{Mode: "enum0", Limit: uint64(r.pick(150, 300, 600))}
		return c
	}
}

// runWait suspends the first writer at each of its points (and a second one somewhere) until the readers are done.
func runWait(c *Case) *Outcome {
	out := &Outcome{}
	writers := c.P["writers"]
	if writers >= len(c.Tasks) {
		return out
	}
	try := func(s *Sched) *sched.Run {
		o, run := execConc(c, s)
		merge(out, o)
		if o.Fail != "" {
			if strings.Contains(o.Fail, "no operation completed") {
				o.Fail = "with the writers suspended, the readers do not come to an end: " + o.Fail
			}
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	if c.Sched == nil || c.Sched.Mode != "enum0" {
		try(c.Sched)
		return out
	}
	r := newRng("wait", c.Seed, c.Index)
	base := try(&Sched{Mode: "list", First: 0})
	if base == nil {
		return out
	}
	points := base.Local(0)
	step := uint64(1)
	if c.Sched.Limit > 0 && points > c.Sched.Limit {
		step = (points + c.Sched.Limit - 1) / c.Sched.Limit
	}
	at := uint64(1)
	if step > 1 {
		at += uint64(r.N(int(step)))
	}
	for ; at <= points; at += step {
		l := []sched.Switch{{Task: 0, Local: at, To: writers, Hold: true}}
		if writers > 1 {
			// the second one comes to a stop anywhere, too, perhaps while it waits for the first
			l[0].To = 1
			l = append(l, sched.Switch{Task: 1, Local: 1 + uint64(r.N(int(base.Local(1))+1)), To: writers, Hold: true})
		}
		if try(&Sched{Mode: "list", First: 0, List: l}) == nil {
			return out
		}
	}
	out.class("suspended-writers")
	return out
}

func init() {
	addProp(Property{ID: "C26", Level: "exploration",
		Rule: "one or two tasks that change the tree are suspended at each of their points and stay suspended until every reading task has finished, then they go on; the readers have to finish with right answers; non-trivial if a read took place during a suspended successful change",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 2400, Gen: waitGen(false), Run: runWait},
			{Name: "wide", Build: "tiny", Quick: 400, Gen: waitGen(true), Run: runWait},
			{Name: "std", Build: "std", Quick: 200, Gen: waitGen(false), Run: runWait},
		}})
}
