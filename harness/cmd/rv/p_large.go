package main

import (
	"fmt"

	"radixverif/shim/sched"
)

// ---- large trees: thousands of keys, for what only shows beyond some size

// largeGen: key set and history come from a seed, the case stays small.
func largeGen(ns ...int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		return &Case{Kind: []string{"urls", "paths", "words", "decimal", "binary", "ints", "dense"}[r.N(7)], NAlloc: r.pick(1, 1, 2, 4), Vmode: r.N(3),
			P: map[string]int{"n": ns[r.N(len(ns))], "phases": r.In(2, 6), "seed": r.N(1 << 30)}}
	}
}

func runLarge(save bool) func(c *Case) *Outcome {
	return func(c *Case) *Outcome {
		out := &Outcome{Execs: 1}
		r := newRng("large", c.P["seed"])
		c.Keys = toHx(prefixFree(memKeys(c.Kind, c.P["n"], 0, r)))
		defer func() { c.Keys = nil }()
		nk := len(c.Keys)
		big := 0
		out.Fail = inRun(seqLimit*200, func() {
			w := newWorld(c)
			w.out = out
			t := w.trees[0]
			take := func() {
				for len(t.held) < c.NAlloc {
					t.held = append(t.held, t.t.GetAllocator())
				}
			}
			check := func() {
				t.releaseAll()
				t.verifyAll()
				sched.OpDone()
				for k := 0; k < 12; k++ {
					p := genPrefix(r, c.Keys)
					t.scan(p, r.N(3))
					t.count(p, r.N(2))
					t.extreme(p, false)
					t.extreme(p, true)
					t.query(genQuery(r, c.Keys), r.N(3))
					sched.OpDone()
				}
				if t.n > big {
					big = t.n
				}
			}
			for p := 0; p < c.P["phases"]; p++ {
				take()
				order := r.perm(nk)
				if r.P(30) {
					for i := range order {
						order[i] = i
					}
				}
				part := nk * r.pick(10, 50, 90, 100, 100) / 100
				kind := r.N(4)
				if p == 0 {
					kind = 0
				}
				for _, i := range order[:part] {
					h := 1 + r.N(len(t.held))
					switch {
					case kind == 0: // fill
						if !t.live[i] {
							t.put(i, h, 0)
						}
					case kind == 1: // drain
						if t.live[i] {
							t.del(c.Keys[i], h)
						}
					case kind == 2: // mix
						if t.live[i] && r.P(50) {
							t.del(c.Keys[i], h)
						} else {
							t.put(i, h, r.pick(0, 0, 0, 2))
						}
					default: // new values
						if t.live[i] {
							t.put(i, h, 0)
						}
					}
					sched.OpDone()
				}
				if p == c.P["phases"]-1 || r.P(30) {
					check()
					if save && (p == c.P["phases"]-1 || r.P(60)) {
						t.saveLoad(r.N(2))
						sched.OpDone()
						check()
					}
				}
			}
			w.closeAll()
		})
		out.add("largest-tree", big)
		out.Nontrivial = big >= 1000
		return out
	}
}

// runLargeCycles fills and drains the tree several times.
func runLargeCycles(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	r := newRng("large", c.P["seed"])
	c.Keys = toHx(prefixFree(memKeys(c.Kind, c.P["n"], 0, r)))
	defer func() { c.Keys = nil }()
	var marks []uint64
	var blockSize uint64
	out.Fail = inRun(seqLimit*200, func() {
		w := newWorld(c)
		w.out = out
		t := w.trees[0]
		// the same order of inserts and deletes in every cycle
		ins, del := r.perm(len(c.Keys)), r.perm(len(c.Keys))
		cycles := 5 + c.P["phases"]
		for k := 0; k < cycles; k++ {
			t.held = append(t.held, t.t.GetAllocator())
			for _, i := range ins {
				t.put(i, 1, 0)
				sched.OpDone()
			}
			t.releaseAll()
			if k == cycles-1 {
				t.verifyAll()
			}
			t.held = append(t.held, t.t.GetAllocator())
			for _, i := range del {
				t.del(c.Keys[i], 1)
				sched.OpDone()
			}
			t.releaseAll()
			sched.YieldReal()
			st := t.statsMap()
			by, _ := statInt(st, "bytes_allocated")
			blockSize, _ = statInt(st, "block_size")
			marks = append(marks, by)
		}
		w.closeAll()
	})
	if out.Fail != "" {
		return out
	}
	out.class(fmt.Sprintf("growth-%d-blocks", (int64(marks[len(marks)-1])-int64(marks[3]))/int64(blockSize)))
	first, last := marks[3], marks[len(marks)-1]
	g := (int64(last) - int64(first)) / int64(blockSize)
	if g > int64(len(marks)-3) {
		out.Fail = fmt.Sprintf("memory grew from %d (first) and %d (fourth) to %d bytes while %d keys were inserted and deleted %d times: %v", marks[0], first, last, len(c.Keys), len(marks), marks)
	}
	out.Nontrivial = true
	return out
}

// ---- allocators whose balances drift apart: some only insert, others only delete

func driftGen(r *Rng, i int) *Case {
	return &Case{NAlloc: r.pick(3, 3, 4, 6), P: map[string]int{"base": r.pick(1, 3, 60, 130, 250), "rounds": r.pick(40000, 80000, 80000, 150000),
		"inserters": r.pick(1, 1, 1, 2), "marks": r.In(1, 5), "flush": r.N(4), "hot": r.In(1, 6), "seed": r.N(1 << 30)}}
}

func runDrift(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	r := newRng("drift", c.P["seed"])
	c.Keys = nil
	for b := 0; b < c.P["base"]; b++ {
		c.Keys = append(c.Keys, hx{byte(b), 1})
	}
	base := len(c.Keys)
	for h := 0; h < c.P["hot"]; h++ {
		c.Keys = append(c.Keys, hx{byte(256 - c.P["hot"] + h), 1, 2})
	}
	defer func() { c.Keys = nil }()
	out.Fail = inRun(seqLimit*400, func() {
		w := newWorld(c)
		w.out = out
		t := w.trees[0]
		take := func() {
			for len(t.held) < c.NAlloc {
				t.held = append(t.held, t.t.GetAllocator())
			}
		}
		// held allocators come in any order
		take()
		for i := 0; i < base; i++ {
			t.put(i, 1+r.N(c.NAlloc), 0)
		}
		every := c.P["rounds"]/c.P["marks"] + 1
		for n := 1; n <= c.P["rounds"]; n++ {
			h := base + r.N(c.P["hot"])
			t.put(h, 1+r.N(c.P["inserters"]), 0)
			t.del(w.keys[h], 1+c.P["inserters"]+r.N(c.NAlloc-c.P["inserters"]))
			if n%64 == 0 {
				sched.OpDone()
			}
			if n%every == 0 || n == c.P["rounds"] {
				if c.P["flush"] > 0 {
					// some or all of them
					for _, a := range t.held {
						if r.N(3) < c.P["flush"] {
							a.FlushStats()
						}
					}
				}
				t.releaseAll()
				t.length()
				take()
			}
		}
		t.releaseAll()
		t.saveLoad(0)
		t.length()
		w.closeAll()
	})
	out.Nontrivial = true
	return out
}
