package main

import (
	"bytes"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// ---- equal values: a tree may hold the same value for several keys

func equalGen(r *Rng, i int) *Case {
	ks, kd := genUniverse(r, uniOpts{maxKeys: r.pick(6, 30, 300, 700)})
	return &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 2, 3), Vmode: r.N(3), P: map[string]int{"v": r.N(5), "fill": r.pick(40, 80, 100), "part": r.pick(30, 70, 100, 100), "seed": r.N(1 << 30)}}
}

func runEqual(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	r := newRng("equal", c.P["seed"])
	common := []uint64{0, 1, valueMask, 256, 1 << 54}[c.P["v"]]
	same := 0
	out.Fail = inRun(seqLimit*10, func() {
		w := newWorld(c)
		w.out = out
		t := w.trees[0]
		n := len(w.keys)
		for _, i := range r.perm(n) {
			if r.P(c.P["fill"]) {
				t.put(i, r.N(3), 0)
			}
		}
		// from here on the values do not tell the keys apart: all keys that are touched are in the tree
		val := append([]uint64(nil), t.val...)
		check := func(tr *radix.Tree) {
			sched.OpDone()
			var want []uint64
			for i, k := range w.keys {
				if !t.live[i] {
					continue
				}
				want = append(want, val[i])
				if v, ok := tr.Lookup(k); !ok || v != val[i] {
					failf("lookup of key #%d (%s) gave %d, %v, expected %d, which %d keys have", i, short(k), v, ok, val[i], same)
				}
			}
			for q := 0; q < 8; q++ {
				var p []byte
				if q > 0 {
					p = genPrefix(r, w.keys)
				}
				lo, hi := w.prefixRange(p)
				in := t.liveIn(lo, hi)
				if len(in) == 0 {
					continue
				}
				it := tr.NewIterator(p)
				for x := 0; it.Next(); x++ {
					if x >= len(in) {
						failf("iteration with prefix %s returned more than the %d keys that have it", short(p), len(in))
					}
					if it.Value() != val[in[x]] {
						failf("iteration with prefix %s: item %d is value %d, expected %d (key #%d)", short(p), x, it.Value(), val[in[x]], in[x])
					}
					if x == len(in)-1 {
						in = in[:0]
						if it.Next() {
							failf("iteration with prefix %s returned too many values", short(p))
						}
						break
					}
				}
				if len(in) != 0 {
					failf("iteration with prefix %s returned less than the %d keys that have it; %d keys have the same value", short(p), len(in), same)
				}
				it.Close()
				in = t.liveIn(lo, hi)
				if v, ok := tr.MinKey(p); !ok || v != val[in[0]] {
					failf("MinKey(%s) gave %d, %v, expected %d", short(p), v, ok, val[in[0]])
				}
				if v, ok := tr.MaxKey(p); !ok || v != val[in[len(in)-1]] {
					failf("MaxKey(%s) gave %d, %v, expected %d", short(p), v, ok, val[in[len(in)-1]])
				}
				if _, l := tr.Count(p); l != len(in) {
					failf("Count(%s) gave %d leaves, but %d keys have the prefix", short(p), l, len(in))
				}
				sched.OpDone()
			}
			if l := tr.Len(); l != len(want) {
				failf("Len is %d, but the tree holds %d keys", l, len(want))
			}
		}
		set := func(i int, v uint64) {
			found, op := t.t.PrepareUpdate(w.keys[i])
			if !found || op.Value != val[i] {
				failf("PrepareUpdate of key #%d (%s) found=%v with value %d, expected %d", i, short(w.keys[i]), found, op.Value, val[i])
			}
			op.FetchedKey = append(op.FetchedKey[:0], w.keys[i]...)
			op.Match = true
			if r.P(10) {
				op.Abort()
				return
			}
			if !op.Finalize(v) {
				failf("update of key #%d to the value of another key failed without competing writers", i)
			}
			val[i] = v & valueMask
		}
		live := t.liveIn(0, n)
		for _, x := range r.perm(len(live)) {
			if r.P(c.P["part"]) {
				set(live[x], common)
				same++
			}
			sched.OpDone()
		}
		check(t.t)
		// once more the same values
		for _, x := range r.perm(len(live)) {
			if r.P(30) {
				set(live[x], val[live[x]])
			}
			sched.OpDone()
		}
		for _, x := range r.perm(len(live)) {
			if !r.P(30) {
				continue
			}
			i := live[x]
			found, op := t.t.PrepareDelete(w.keys[i])
			if !found || op.Value != val[i] {
				failf("PrepareDelete of key #%d (%s) found=%v, expected value %d", i, short(w.keys[i]), found, val[i])
			}
			op.FetchedKey = append(op.FetchedKey[:0], w.keys[i]...)
			if r.P(15) {
				op.Abort()
				continue
			}
			if !op.Finalize() {
				failf("delete of key #%d failed without competing writers", i)
			}
			t.remove(i)
			sched.OpDone()
		}
		check(t.t)
		t.t.Stop()
		var b bytes.Buffer
		if _, err := t.t.WriteState(&b); err != nil {
			failf("WriteState: %v", err)
		}
		t.t.Start()
		nt, err := radix.NewTreeFromState(&b)
		if err != nil {
			failf("loading a complete state failed: %v", err)
		}
		check(nt)
		nt.Close()
		// each its own value again
		for _, i := range t.liveIn(0, n) {
			v, kept := w.fresh(i)
			w.store[kept] = i
			for val[i] != kept {
				set(i, v)
			}
			t.val[i] = kept
		}
		t.verifyAll()
		w.closeAll()
	})
	out.Nontrivial = same > 1
	return out
}
