package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/jayloop/radix"
	"github.com/jayloop/radix/fuzzing"
	"radixverif/shim/sched"
)

var seqOps = weights{{"get", 10}, {"getq", 12}, {"delq", 4}, {"abu", 6}, {"abd", 6}, {"scan", 6}, {"count", 4}, {"min", 4}, {"max", 4}, {"hold", 5}, {"rel", 4}, {"flush", 2}, {"len", 2}, {"check", 2}, {"save", 1}}

// seqGen makes the generator of a sequential history.
func seqGen(w weights, maxKeys, maxOps int, kind string, tweak func(r *Rng, c *Case)) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		mk := maxKeys
		if r.P(50) {
			mk = minInt(maxKeys, 12)
		}
		k := kind
		if k == "" && mk < 128 {
			for k = uniKinds.pick(r); k == "wide"; k = uniKinds.pick(r) {
			}
		}
		ks, kd := genUniverse(r, uniOpts{kind: k, maxKeys: mk})
		c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 1, 2, 3, 8), Vmode: r.N(3)}
		if r.P(20) {
			c.P = map[string]int{"again": r.pick(20, 60)}
		}
		if r.P(3) {
			c.NAlloc = 0
		}
		n := r.In(5, maxOps)
		if len(ks) > 100 && r.P(80) {
			// start from a filled tree so that the history has something wide to work on
			p := r.pick(100, 100, 97, 80, 50)
			for _, i := range r.perm(len(ks)) {
				if r.P(p) {
					c.Setup = append(c.Setup, Op{K: "put", I: i})
				}
			}
		}
		c.Ops = genHistory(r, c.Keys, histOpts{w: w, n: n, via: true, trees: 1})
		if tweak != nil {
			tweak(r, c)
		}
		return c
	}
}

var properties []Property

func addProp(p Property) { properties = append(properties, p) }

// seqRun runs a sequential history; non-trivial when all named classes occurred.
func seqRun(need ...string) func(c *Case) *Outcome {
	run := runSeq(nil, nil)
	return func(c *Case) *Outcome {
		o := run(c)
		nontriv(o, need...)
		return o
	}
}

// sweepRun runs the history and then f on the final tree.
func sweepRun(f func(w *World), need ...string) func(c *Case) *Outcome {
	run := runSeq(nil, f)
	return func(c *Case) *Outcome {
		o := run(c)
		nontriv(o, need...)
		return o
	}
}

// prefixes lists search prefixes worth trying on a universe: around every branching point.
func prefixes(w *World, max int) [][]byte {
	seen := map[string]bool{"": true}
	out := [][]byte{nil}
	add := func(p []byte) {
		if len(out) < max && !seen[string(p)] {
			seen[string(p)] = true
			out = append(out, append([]byte(nil), p...))
		}
	}
	step := 1 + len(w.keys)/40
	for i := 0; i < len(w.keys); i += step {
		k := w.keys[i]
		add(k)
		add(k[:1])
		for _, j := range []int{i - 1, i + 1} {
			if j < 0 || j >= len(w.keys) {
				continue
			}
			l := lcp(k, w.keys[j])
			for _, d := range []int{-8, -1, 0, 1, 2} {
				if n := l + d; n >= 0 && n <= len(k) {
					add(k[:n])
				}
			}
		}
	}
	r := newRng("prefixes", len(w.keys), w.digest)
	for i := 0; i < 12; i++ {
		add(genPrefix(r, w.keys))
		if q := genQuery(r, w.keys); len(q) > 0 {
			add(q)
		}
	}
	return out
}

func sweepQueries(w *World) {
	t := w.trees[0]
	r := newRng("queries", w.digest, len(w.keys))
	for i := 0; i < 60; i++ {
		q := genQuery(r, w.keys)
		t.query(q, i%3)
		if i%4 == 0 {
			found, op := t.prepDelete(q, nil)
			t.examineDelete(t.indexOf(q), q, found, op)
			if found {
				op.Abort()
			}
		}
	}
	sched.OpDone()
}

// lenAfter drains the tree in steps, checking Len and counts against the model.
func drainAll(w *World) {
	t := w.trees[0]
	for i := range w.keys {
		if t.live[i] {
			t.del(w.keys[i], i%3)
		}
	}
	t.verifyAll()
	sweepQueries(w)
}

func init() {
	// ---- C01
	addProp(Property{ID: "C01", Level: "exploration",
		Rule: "random histories of inserts, updates, deletes, aborts and queries over generated prefix-free key sets, every step compared with a map; a case is non-trivial if it inserted, updated and deleted, counted once per distinct case",
		Stages: []Stage{
			{Name: "equal", Build: "tiny", Quick: 900, QuickS: 10, Gen: equalGen, Run: runEqual},
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(false), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 45000, Gen: seqGen(seqOps, 300, 120, "", nil), Run: seqRun("insert", "update", "delete")},
			{Name: "tinywide", Build: "tiny", Quick: 4500, Gen: seqGen(seqOps, 600, 300, "wide", nil), Run: seqRun("insert", "delete")},
			{Name: "bulk", Build: "plain", Quick: 72, Gen: bulkGen, Run: seqRun("insert", "delete")},
			{Name: "plain", Build: "plain", Quick: 6000, Gen: seqGen(seqOps, 900, 400, "", nil), Run: seqRun("insert", "delete")},
		}})

	// ---- C02
	q := weights{{"getq", 30}, {"get", 6}, {"delq", 10}, {"abd", 10}, {"abu", 5}, {"min", 1}, {"hold", 2}, {"rel", 2}, {"scan", 3}, {"count", 2}}
	addProp(Property{ID: "C02", Level: "exploration",
		Rule: "histories with queries for absent byte strings (shortened, lengthened, one byte changed); every presented candidate must be the current value of another key; non-trivial if a candidate was presented for an absent key and something was deleted",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 60000, Gen: seqGen(q, 300, 100, "", nil), Run: sweepRun(sweepQueries, "candidate", "delete")},
			{Name: "drain", Build: "tiny", Quick: 24000, Gen: seqGen(q, 300, 60, "", nil), Run: sweepRun(drainAll, "candidate", "delete")},
			{Name: "fresh", Build: "std", Quick: 1200, Gen: freshGen, Run: seqRun()},
			{Name: "plain", Build: "plain", Quick: 9000, Gen: seqGen(q, 700, 300, "", nil), Run: sweepRun(sweepQueries, "candidate", "delete")},
		}})

	// ---- C03
	sc := weights{{"scan", 20}, {"itnew", 6}, {"itend", 4}, {"itclose", 3}}
	scanSweep := func(w *World) {
		t := w.trees[0]
		for i, p := range prefixes(w, 60) {
			t.scan(p, i%8)
			sched.OpDone()
		}
		// one iterator for everything, reset each time
		it := t.t.NewIterator(nil)
		for _, p := range prefixes(w, 20) {
			it.Reset(p)
			lo, hi := w.prefixRange(p)
			t.drain(it, p, t.liveIn(lo, hi))
		}
	}
	static := func(w *World) {
		scanSweep(w)
	}
	addProp(Property{ID: "C03", Level: "exploration",
		Rule: "iterations with and without prefix (prefixes around every branching point) on generated trees, compared with the sorted keys; non-trivial if an iteration returned more than one batch (over 256 items) or keys had been deleted before",
		Stages: []Stage{
			{Name: "equal", Build: "tiny", Quick: 900, QuickS: 10, Gen: equalGen, Run: runEqual},
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(false), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 30000, Gen: seqGen(sc, 300, 80, "", nil), Run: orRun(sweepRun(scanSweep), "scan>256", "delete")},
			{Name: "big", Build: "tiny", Quick: 3600, Gen: staticGen(260, 1600), Run: orRun(sweepRun(static), "scan>256")},
			{Name: "plain", Build: "plain", Quick: 1500, Gen: staticGen(1, 5000), Run: orRun(sweepRun(static), "scan>256")},
		}})

	// ---- C04
	mm := weights{{"min", 12}, {"max", 12}, {"abd", 1}}
	mmSweep := func(w *World) {
		t := w.trees[0]
		ps := prefixes(w, 80)
		sw := func() {
			for _, p := range ps {
				t.extreme(p, false)
				t.extreme(p, true)
				sched.OpDone()
			}
		}
		sw()
		// remove the extremes one by one
		for n := 0; n < 40 && t.n > 0; n++ {
			l := t.liveIn(0, len(w.keys))
			k := l[0]
			if n%2 == 1 {
				k = l[len(l)-1]
			}
			t.del(w.keys[k], 0)
			t.extreme(nil, false)
			t.extreme(nil, true)
			t.extreme(w.keys[k][:1], n%4 < 2)
		}
		sw()
	}
	addProp(Property{ID: "C04", Level: "exploration",
		Rule: "minimum and maximum searches for prefixes around every branching point, on trees shrunk in many ways including fully emptied wide nodes, compared with the sorted keys; non-trivial if keys had been deleted",
		Stages: []Stage{
			{Name: "equal", Build: "tiny", Quick: 900, QuickS: 10, Gen: equalGen, Run: runEqual},
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(false), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 48000, Gen: seqGen(mm, 300, 100, "", nil), Run: sweepRun(mmSweep, "delete")},
			{Name: "wide", Build: "tiny", Quick: 10000, Gen: wideDrainGen, Run: sweepRun(mmSweep, "delete")},
			{Name: "plain", Build: "plain", Quick: 6000, Gen: seqGen(mm, 700, 300, "", nil), Run: sweepRun(mmSweep, "delete")},
		}})

	// ---- C05
	ct := weights{{"count", 20}, {"abu", 2}}
	ctSweep := func(w *World) {
		t := w.trees[0]
		for i, p := range prefixes(w, 60) {
			t.count(p, 1+2*(i%5/4))
			t.count(p, 1)
			t.count(p, 0)
			sched.OpDone()
		}
	}
	addProp(Property{ID: "C05", Level: "exploration",
		Rule: "counts with new and reused counters for prefixes around every branching point, compared with the branching points computed from the key set; non-trivial if the full figures of a tree were compared and keys had been deleted",
		Stages: []Stage{
			{Name: "equal", Build: "tiny", Quick: 600, QuickS: 10, Gen: equalGen, Run: runEqual},
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(false), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 48000, Gen: seqGen(ct, 120, 100, "", nil), Run: sweepRun(ctSweep, "counter-figures", "delete")},
			{Name: "wide", Build: "tiny", Quick: 6000, Gen: wideDrainGen, Run: sweepRun(ctSweep, "delete")},
			{Name: "plain", Build: "plain", Quick: 6000, Gen: seqGen(ct, 900, 300, "", nil), Run: sweepRun(ctSweep, "delete")},
		}})

	// ---- C06
	ln := weights{{"len", 12}, {"hold", 6}, {"rel", 5}, {"flush", 5}, {"stop", 3}, {"start", 3}, {"save", 4}, {"abu", 4}, {"abd", 4}, {"delq", 3}, {"upd", 3}, {"stats", 1}}
	lnRun := func(c *Case) *Outcome {
		o := runSeq(nil, nil)(c)
		nontriv(o, "insert", "delete")
		if o.Classes["len-stopped"]+o.Classes["save-load"]+o.Classes["flush"] == 0 {
			o.Nontrivial = false
		}
		return o
	}
	addProp(Property{ID: "C06", Level: "exploration",
		Rule: "histories through changing allocators with flushes, stops, starts, saves and loads, Len compared with the model; non-trivial if keys were inserted and deleted and Len was asked after a flush, a load or while stopped",
		Stages: []Stage{
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(false), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 15000, Gen: seqGen(ln, 200, 100, "", nil), Run: lnRun},
			{Name: "stopped", Build: "tiny", Quick: 600, Gen: lenStopGen, Run: runLenStop},
			{Name: "plain", Build: "plain", Quick: 600, Gen: seqGen(ln, 900, 2500, "", nil), Run: lnRun},
			{Name: "conc", Build: "tiny", Quick: 12000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 7}, w: parMixes[1], keys: 14, focus: 2, own: 50, lens: true, mode: "mixed"}), Run: runConcMany(3)},
			{Name: "enum", Build: "tiny", Quick: 200, Gen: concGen(concOpts{tasks: [2]int{2, 3}, ops: [2]int{1, 3}, w: weights{{"put", 8}, {"del", 9}, {"len", 3}, {"flush", 5}}, keys: 8, focus: 2, own: 60, lens: true, mode: "enum", limit: 150}), Run: runConc},
			{Name: "drift", Build: "plain", Quick: 64, QuickS: 12, Gen: driftGen, Run: runDrift, NoShrink: true},
			{Name: "parallel", Build: "plain", Quick: 128, Gen: parMixGen(1), Run: runParallel, NoShrink: true},
		}})

	// ---- C07
	ab := weights{{"abu", 20}, {"abd", 20}, {"delq", 6}, {"upd", 3}, {"ins", 3}, {"hold", 4}, {"rel", 3}}
	abRun := func(c *Case) *Outcome {
		o := runSeq(nil, abortSweep)(c)
		nontriv(o, "abort-update", "abort-delete", "delete")
		return o
	}
	addProp(Property{ID: "C07", Level: "exploration",
		Rule: "histories with aborted updates and deletes; after every history each key is prepared and aborted both ways and every key is then changed through another allocator; non-trivial if updates and deletes were aborted and keys deleted",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 45000, Gen: seqGen(ab, 200, 80, "", nil), Run: abRun},
			{Name: "std", Build: "std", Quick: 1800, Gen: seqGen(ab, 300, 150, "", nil), Run: abRun},
			{Name: "plain", Build: "plain", Quick: 4500, Gen: seqGen(ab, 500, 300, "", nil), Run: abRun},
			{Name: "conc", Build: "tiny", Quick: 9000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 6}, w: parMixes[3], keys: 14, focus: 2, own: 40, mode: "mixed"}), Run: runConcMany(3)},
			{Name: "pending", Build: "tiny", Quick: 9000, Gen: concGen(concOpts{tasks: [2]int{2, 5}, ops: [2]int{1, 5}, w: parMixes[3], keys: 14, focus: 2, own: 30, mode: "harness"}), Run: runConcMany(3)},
			{Name: "scarce", Build: "tiny", Quick: 3000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 5}, w: parMixes[3], keys: 10, focus: 2, scarce: true, mode: "mixed"}), Run: runConcMany(2)},
			{Name: "idle", Build: "tiny", Quick: 240, Gen: idleGen, Run: runIdle},
			{Name: "parallel", Build: "plain", Quick: 128, Gen: parMixGen(3), Run: runParallel, NoShrink: true},
		}})

	// ---- C12
	sv := weights{{"save", 10}, {"check", 2}, {"hold", 3}, {"rel", 2}, {"len", 2}, {"flush", 2}, {"stop", 1}}
	addProp(Property{ID: "C12", Level: "exploration",
		Rule: "histories with saves and loads in between (continuing with the loaded tree or with the original), the block goroutine running freely or held back at its next write when the state is saved; non-trivial if a state was loaded and keys were deleted before or after",
		Stages: []Stage{
			{Name: "equal", Build: "tiny", Quick: 600, QuickS: 10, Gen: equalGen, Run: runEqual},
			{Name: "large", Build: "tiny", Quick: 160, QuickS: 15, Gen: largeGen(2000, 6000, 12000), Run: runLarge(true), NoShrink: true},
			{Name: "tiny", Build: "tiny", Quick: 7800, Gen: seqGen(sv, 200, 120, "", nil), Run: seqRun("save-load", "delete")},
			{Name: "lag", Build: "tiny", Quick: 3250, Gen: lagGen, Run: runLag, NoShrink: true},
			{Name: "std", Build: "std", Quick: 156, Gen: seqGen(sv, 300, 200, "", nil), Run: seqRun("save-load", "delete")},
			{Name: "plain", Build: "plain", Quick: 390, Gen: seqGen(sv, 900, 600, "", nil), Run: seqRun("save-load", "delete")},
			{Name: "bulk", Build: "plain", Quick: 31, Gen: bulkSaveGen, Run: seqRun("save-load", "delete")},
			{Name: "conc", Build: "tiny", Quick: 3250, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 12}, w: parMixes[0], keys: 30, own: 40, save: true, mode: "mixed"}), Run: runConcMany(2)},
		}})

	// ---- C17
	itw := weights{{"itnew", 10}, {"itnext", 40}, {"itend", 5}, {"itclose", 2}}
	addProp(Property{ID: "C17", Level: "exploration",
		Rule: "iterations interleaved step by step with inserts, updates and deletes, judged by what was in the tree throughout; non-trivial if an iteration over more than one batch (256 items) ended and the tree was modified",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 8000, Gen: iterGen(itw, 1200, 160), Run: orRun(seqRun(), "iteration>256")},
			{Name: "edge", Build: "tiny", Quick: 8000, Gen: iterEdgeGen, Run: orRun(seqRun(), "iteration>256")},
			{Name: "small", Build: "tiny", Quick: 12000, Gen: iterGen(itw, 40, 80), Run: orRun(seqRun(), "iteration-ended")},
			{Name: "plain", Build: "plain", Quick: 1200, Gen: iterGen(itw, 3000, 300), Run: orRun(seqRun(), "iteration>256")},
		}})

	// ---- C18
	addProp(Property{ID: "C18", Level: "exploration",
		Rule: "the same history run with and without a byte run prepended to all keys and queries, and the same key set inserted in several orders; results must be equal; non-trivial if the run is not empty and the history deleted keys, or several orders of at least three keys were compared",
		Stages: []Stage{
			{Name: "runs", Build: "tiny", Quick: 30000, Gen: metaRunGen, Run: runMetaRun, NoShrink: false},
			{Name: "orders", Build: "tiny", Quick: 20000, Gen: ordersGen, Run: runOrders},
			{Name: "long", Build: "plain", Quick: 800, Gen: metaLongGen, Run: runMetaRun},
			{Name: "plain", Build: "plain", Quick: 3000, Gen: ordersGen, Run: runOrders},
		}})

	// ---- C19
	addProp(Property{ID: "C19", Level: "exploration",
		Rule: "one history executed with several numbers of allocators and several assignments of its steps to allocators; all observed results must agree; non-trivial if the history inserted and deleted",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 25000, Gen: seqGen(seqOps, 200, 100, "", nil), Run: runAllocs},
			{Name: "plain", Build: "plain", Quick: 2000, Gen: seqGen(seqOps, 500, 300, "", nil), Run: runAllocs},
		}})

	// ---- C20
	bsOps := weights{{"get", 6}, {"getq", 8}, {"scan", 6}, {"count", 5}, {"min", 4}, {"max", 4}, {"save", 6}, {"abu", 3}, {"abd", 3}, {"len", 2}, {"hold", 3}, {"rel", 2}}
	bsGen := func(r *Rng, i int) *Case {
		if i%12 == 0 {
			return bulkSaveGen(r, i)
		}
		return seqGen(bsOps, 600, 200, "", nil)(r, i)
	}
	addProp(Property{ID: "C20", Level: "exploration",
		Rule: "the same histories (including saves and loads, and data exceeding one block) run by binaries built with the 2, 8 and 16 MiB block options, each against the model, result digests compared case by case; non-trivial if the history deleted keys and loaded a state",
		Stages: []Stage{
			{Name: "bs2", Build: "plain", Quick: 640, Gen: bsGen, Run: seqRun("save-load", "delete"), Digests: "hist"},
			{Name: "bs8", Build: "bs8", Quick: 640, Gen: bsGen, Run: seqRun("save-load", "delete"), Digests: "hist"},
			{Name: "bs16", Build: "bs16", Quick: 640, Gen: bsGen, Run: seqRun("save-load", "delete"), Digests: "hist"},
		}})

	// ---- C21
	mt := weights{{"prep", 14}, {"prepd", 12}, {"fin", 22}, {"itnew", 8}, {"itnext", 18}, {"itclose", 5}, {"itend", 3}, {"scan", 3}, {"count", 3}, {"abu", 3}, {"abd", 3}, {"getq", 4}, {"save", 1}, {"close", 1}}
	mw := append(weights{{"get", 8}, {"min", 6}, {"max", 6}, {"delq", 6}, {"hold", 2}, {"rel", 2}, {"len", 1}, {"stats", 1}}, mt...)
	addProp(Property{ID: "C21", Level: "exploration",
		Rule: "interleaved histories on two to four trees with operations and iterators pending on several of them at once, each tree compared with its own model; non-trivial if pending operations were finalized and iterations ended",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 40000, Gen: multiGen(mt, 300, 200), Run: orRun(seqRun(), "pending-finalized")},
			{Name: "plain", Build: "plain", Quick: 2400, Gen: multiGen(mt, 700, 300), Run: orRun(seqRun(), "pending-finalized")},
			{Name: "worlds", Build: "tiny", Quick: 12000, Gen: worldsGen(mw, 60, 40, "mixed"), Run: runWorlds},
			{Name: "parworlds", Build: "plain", Quick: 288, Gen: worldsParGen(mw), Run: runWorldsPar, NoShrink: true},
		}})

	// ---- C22
	in := weights{{"admin", 30}, {"stats", 8}, {"opstr", 10}, {"stop", 3}, {"start", 3}, {"check", 2}, {"hold", 2}, {"rel", 2}, {"save", 1}, {"len", 2}}
	inRunF := func(c *Case) *Outcome {
		o := runSeq(nil, inspectSweep)(c)
		nontriv(o, "admin-node", "op-string", "insert")
		return o
	}
	addProp(Property{ID: "C22", Level: "exploration",
		Rule: "histories with admin commands (valid and invalid arguments, real node ids), statistics and operation strings, also while stopped; figures compared with the model and the tree afterwards; non-trivial if nodes were inspected and operation strings printed on a tree with keys",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 7800, Gen: seqGen(in, 200, 80, "", nil), Run: inRunF},
			{Name: "std", Build: "std", Quick: 325, Gen: seqGen(in, 200, 80, "", nil), Run: inRunF},
			{Name: "plain", Build: "plain", Quick: 520, Gen: seqGen(in, 500, 200, "", nil), Run: inRunF},
			{Name: "conc", Build: "tiny", Quick: 3900, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 8}, w: parMixes[2], keys: 16, own: 40, lens: true, mode: "mixed"}), Run: runConcMany(3)},
			{Name: "enum", Build: "tiny", Quick: 260, Gen: concGen(concOpts{tasks: [2]int{2, 3}, ops: [2]int{1, 3}, w: parMixes[2], keys: 10, own: 40, lens: true, mode: "enum", limit: 150}), Run: runConc},
			{Name: "churn", Build: "tiny", Quick: 900, Gen: churnAdminGen, Run: runChurn},
			{Name: "parallel", Build: "plain", Quick: 128, Gen: parMixGen(2), Run: runParallel, NoShrink: true},
		}})

	// ---- C23
	addProp(Property{ID: "C23", Level: "exploration",
		Rule: "byte strings made of newline-separated generated keys (with duplicates, empty keys, zero bytes, unterminated rests) and raw random bytes, compared with the documented result; non-trivial if accepted with at least two keys",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 39000, Gen: fuzzGen(2000), Run: runFuzz},
			{Name: "std", Build: "std", Quick: 1950, Gen: fuzzGen(20000), Run: runFuzz},
			{Name: "plain", Build: "plain", Quick: 5200, Gen: fuzzGen(60000), Run: runFuzz},
			{Name: "parallel", Build: "plain", Quick: 3600, Gen: fuzzParGen, Run: runFuzzPar},
		}})

	// ---- C24
	cl := weights{{"hold", 2}, {"rel", 2}, {"stop", 4}, {"start", 3}, {"save", 4}, {"close", 5}, {"itnew", 2}, {"itnext", 3}, {"prep", 3}, {"fin", 2}, {"len", 2}}
	addProp(Property{ID: "C24", Level: "exploration",
		Rule: "histories over several trees ending in Close in every state (new, loaded, stopped, restarted, many blocks), then no goroutine may have a frame of the radix package; non-trivial if a tree was loaded or held several blocks",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 25000, Gen: multiGen(cl, 120, 60), Run: runClose},
			{Name: "plain", Build: "plain", Quick: 2000, Gen: multiGen(cl, 300, 60), Run: runClose},
		}})
}

// orRun makes a case non-trivial if any of the classes occurred.
func orRun(run func(c *Case) *Outcome, any ...string) func(c *Case) *Outcome {
	return func(c *Case) *Outcome {
		o := run(c)
		o.Nontrivial = false
		for _, n := range any {
			if o.Classes[n] > 0 {
				o.Nontrivial = true
			}
		}
		return o
	}
}

// ---- generators

// freshGen queries a tree right after its creation.
func freshGen(r *Rng, i int) *Case {
	ks, kd := genUniverse(r, uniOpts{kind: "tiny", maxKeys: 4})
	c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.In(1, 3)}
	for j := 0; j < r.In(1, 3); j++ {
		c.Ops = append(c.Ops, genOther(r, c.Keys, weights{{"getq", 4}, {"get", 2}, {"min", 2}, {"max", 2}, {"scan", 2}, {"count", 2}, {"abd", 2}, {"abu", 1}}.pick(r), 0))
	}
	return c
}

// staticGen builds a tree of lo to hi keys.
func staticGen(lo, hi int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		n := r.In(lo, hi)
		kind := []string{"trie", "ints", "strings", "wide", "fixed", "deep"}[r.N(6)]
		var ks [][]byte
		if kind == "deep" {
			ks = deepKeys(r, n)
		} else {
			for tries := 0; len(ks) < lo && tries < 4; tries++ {
				ks, _ = genUniverse(r, uniOpts{kind: kind, maxKeys: n, maxRun: 300})
			}
			if len(ks) < lo {
				kind = "deep"
				ks = deepKeys(r, n)
			}
		}
		c := &Case{Kind: kind, Keys: toHx(ks), NAlloc: r.pick(1, 2), Vmode: r.N(3)}
		p := r.pick(100, 100, 99, 90)
		for _, i := range r.perm(len(ks)) {
			if r.P(p) {
				c.Setup = append(c.Setup, Op{K: "put", I: i})
			}
		}
		if r.P(40) {
			d := r.pick(1, 5, 50)
			for _, i := range r.perm(len(ks)) {
				if r.P(d) {
					c.Ops = append(c.Ops, Op{K: "del", I: i})
				}
			}
		}
		return c
	}
}

// deepKeys makes a trie whose batches end at nodes with particular numbers of leaves.
func deepKeys(r *Rng, n int) [][]byte {
	var ks [][]byte
	var rec func(stem []byte, n int)
	rec = func(stem []byte, n int) {
		if n <= 1 {
			ks = append(ks, cat(stem, tail(r)[:0], []byte{byte(r.N(256))}))
			return
		}
		run := r.pick(0, 0, 0, 1, 7, 8, 9, 255)
		s := append([]byte(nil), stem...)
		for i := 0; i < run; i++ {
			s = append(s, byte(r.N(256)))
		}
		f := minInt(n, r.pick(2, 2, 3, 16, 127, 128, 255, 256))
		bs := fanBytes(r, f)
		left := n - f
		// most of the rest goes to one child: the last, the first or any
		heavy := r.pick(0, f-1, r.N(f))
		for i, b := range bs {
			m := 1
			if i == heavy {
				m += left
			}
			if m == 1 && r.P(70) {
				ks = append(ks, append(append([]byte(nil), s...), b))
				continue
			}
			rec(append(s[:len(s):len(s)], b), m)
		}
	}
	rec(nil, n)
	return prefixFree(ks)
}

// wideDrainGen fills a tree with wide nodes and then empties whole subtrees.
func wideDrainGen(r *Rng, i int) *Case {
	ks, kd := genUniverse(r, uniOpts{kind: "wide", maxKeys: r.pick(140, 300, 600)})
	c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 2), Vmode: r.N(3)}
	for _, i := range r.perm(len(ks)) {
		c.Setup = append(c.Setup, Op{K: "put", I: i})
	}
	if r.P(50) {
		// keep only a few keys
		keep := r.N(4)
		p := r.perm(len(ks))
		for _, i := range p[keep:] {
			c.Setup = append(c.Setup, Op{K: "del", I: i})
		}
	}
	c.Ops = genHistory(r, c.Keys, histOpts{w: weights{{"min", 5}, {"max", 5}, {"count", 2}, {"scan", 1}}, n: r.In(5, 300)})
	return c
}

// bulkGen makes histories that need several blocks of any size.
func bulkGen(r *Rng, i int) *Case {
	c := &Case{Kind: "bulk", NAlloc: r.pick(1, 2, 4), Vmode: r.N(3), P: map[string]int{"bulk": r.In(30, 120), "bulkseed": r.N(1 << 30), "bulkrun": r.pick(3000, 30000, 100000)}}
	n := 2 * c.P["bulk"]
	for _, i := range r.perm(n) {
		c.Setup = append(c.Setup, Op{K: "put", I: i, V: r.N(3)})
	}
	for i := 0; i < 100; i++ {
		c.Ops = append(c.Ops, Op{K: []string{"put", "del", "get", "abd", "abu"}[r.N(5)], I: r.N(n), V: r.N(3)})
		if r.P(10) {
			c.Ops = append(c.Ops, Op{K: "hold"})
		}
	}
	return c
}

func bulkSaveGen(r *Rng, i int) *Case {
	c := bulkGen(r, i)
	at := r.N(len(c.Ops))
	c.Ops = append(c.Ops[:at:at], append([]Op{{K: "save", N: 0}}, c.Ops[at:]...)...)
	c.Ops = append(c.Ops, Op{K: "save", N: 1}, Op{K: "put", I: 3}, Op{K: "del", I: 4}, Op{K: "save", N: 0}, Op{K: "put", I: 4})
	return c
}

func multiGen(w weights, maxKeys, maxOps int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		n := r.In(2, 4)
		c := seqGen(w, maxKeys, maxOps, "", nil)(r, i)
		c.NTrees = n
		if c.NAlloc == 0 {
			c.NAlloc = 1
		}
		for i := range c.Setup {
			c.Setup[i].T = r.N(n)
		}
		for i := range c.Ops {
			c.Ops[i].T = r.N(n)
		}
		if c.P == nil {
			c.P = map[string]int{}
		}
		c.P["scribble"] = r.N(4)
		return c
	}
}

func iterGen(w weights, maxKeys, maxOps int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var c *Case
		if maxKeys > 256 {
			c = staticGen(200, maxKeys)(r, i)
			c.Ops = nil
		} else {
			c = seqGen(w, maxKeys, 10, "", nil)(r, i)
		}
		c.Ops = append(c.Ops, Op{K: "itnew", S: 0})
		ops := genHistory(r, c.Keys, histOpts{w: w, n: r.In(20, maxOps), via: true})
		if r.P(40) {
			// nothing is deleted: iterations must be exact
			var o2 []Op
			for _, o := range ops {
				if o.K != "del" {
					o2 = append(o2, o)
				}
			}
			ops = o2
		}
		c.Ops = append(c.Ops, ops...)
		for s := 0; s < 3; s++ {
			c.Ops = append(c.Ops, Op{K: "itend", S: s})
		}
		return c
	}
}

// iterEdgeGen modifies the tree around the position where the next batch starts.
func iterEdgeGen(r *Rng, i int) *Case {
	c := staticGen(262, 900)(r, i)
	c.Ops = nil
	var p []byte
	if r.P(40) {
		p = genPrefix(r, c.Keys)
		if len(p) > 3 && r.P(70) {
			p = p[:r.N(4)]
		}
	}
	c.Ops = append(c.Ops, Op{K: "itnew", S: 0, Q: p})
	nodel := r.P(35)
	nk := len(c.Keys)
	for b := 0; b < 4; b++ {
		// an iteration returns at least 257 items per batch: stop inside the batch, change keys near its end
		c.Ops = append(c.Ops, Op{K: "itnext", S: 0, N: r.pick(1, 200, 256, 257, 258)})
		at := minInt(nk-1, (b+1)*257+r.In(-3, 40))
		span := r.pick(1, 2, 4, 12, 60)
		for n := r.In(1, 3*span+4); n > 0; n-- {
			k := at + r.In(-span, span)
			if k < 0 || k >= nk {
				continue
			}
			op := "del"
			if nodel || r.P(30) {
				op = "put"
			}
			c.Ops = append(c.Ops, Op{K: op, I: k})
		}
		if !nodel && r.P(15) {
			// remove everything from some key on, or up to it
			lo, hi := at, nk
			if r.P(50) {
				lo, hi = 0, at
			}
			for k := lo; k < hi; k++ {
				c.Ops = append(c.Ops, Op{K: "del", I: k})
			}
		}
	}
	c.Ops = append(c.Ops, Op{K: "itend", S: 0})
	return c
}

// ---- special runners

func abortSweep(w *World) {
	t := w.trees[0]
	t.releaseAll()
	var before []byte
	_ = before
	step := 1 + len(w.keys)/60
	for i := 0; i < len(w.keys); i += step {
		for via := 0; via < 2; via++ {
			var a *radix.Allocator
			if via == 1 {
				a = t.t.GetAllocator()
			}
			found, op := t.prepUpdate(w.keys[i], a)
			t.examineUpdate(i, w.keys[i], found, op, true)
			op.Abort()
			found, d := t.prepDelete(w.keys[i], a)
			t.examineDelete(i, w.keys[i], found, d)
			if found {
				d.Abort()
			}
			if a != nil {
				t.t.ReleaseAllocator(a)
			}
		}
		sched.OpDone()
	}
	// every allocator must be available
	var as []*radix.Allocator
	for i := 0; i < t.nalloc; i++ {
		as = append(as, t.t.GetAllocator())
	}
	for _, a := range as {
		t.t.ReleaseAllocator(a)
	}
	sched.OpDone()
	t.verifyAll()
	// every place must be writable by every allocator
	r := newRng("abort", w.digest)
	for n := 0; n < 40; n++ {
		i := r.N(len(w.keys))
		t.held = nil
		if r.P(50) {
			t.held = append(t.held, t.t.GetAllocator())
		}
		if t.live[i] {
			t.del(w.keys[i], r.N(2))
		} else {
			t.put(i, r.N(2), 0)
		}
		t.releaseAll()
		sched.OpDone()
	}
	t.verifyAll()
}

func inspectSweep(w *World) {
	t := w.trees[0]
	r := newRng("inspect", w.digest)
	for n := 0; n < 6; n++ {
		t.admin(genAdmin(r))
		sched.OpDone()
	}
	for i := 0; i < len(w.keys); i += 1 + len(w.keys)/20 {
		found, op := t.prepUpdate(w.keys[i], nil)
		t.opString(op.String())
		t.examineUpdate(i, w.keys[i], found, op, true)
		t.opString(op.String())
		op.Abort()
	}
	t.stats()
	t.verifyAll()
	t.flushed()
	t.verifyAll()
}

// lenStopGen: Len must leave a stopped tree stopped and a started one started.
func lenStopGen(r *Rng, i int) *Case {
	c := seqGen(weights{{"flush", 1}, {"hold", 1}, {"rel", 1}}, 100, 60, "", nil)(r, i)
	if c.NAlloc == 0 {
		c.NAlloc = 2
	}
	c.P = map[string]int{"stops": r.In(0, 2), "lens": r.In(1, 3)}
	return c
}

func runLenStop(c *Case) *Outcome {
	out := runSeq(nil, func(w *World) {
		t := w.trees[0]
		t.needAll()
		for n := c.P["stops"]; n > 0; n-- {
			t.t.Stop()
			t.stopped = true
		}
		for n := c.P["lens"]; n > 0; n-- {
			if l := t.t.Len(); l != t.n {
				failf("Len is %d on a tree of %d keys (stopped=%v)", l, t.n, t.stopped)
			}
			sched.OpDone()
		}
		// a second task looks something up: it may only finish once the tree is started
		t.probeStopped()
	})(c)
	nontriv(out, "insert")
	return out
}

// probeStopped checks whether operations make progress, and compares that with the expected state.
func (t *Tree) probeStopped() {
	started := int64(0)
	finished := false
	done := make(chan bool)
	go func() {
		t.t.Lookup([]byte{1})
		finished = true
		close(done)
	}()
	_ = started
	if t.stopped {
		// give it many chances to run
		for n := 0; n < 200; n++ {
			sched.YieldReal()
			select {
			case <-done:
				failf("a lookup finished on a stopped tree")
			default:
			}
		}
		t.t.Start()
		t.stopped = false
	}
	<-done
	_ = finished
	t.verifyAll()
}

// lagGen ends in a save while the block goroutine is held back.
func lagGen(r *Rng, i int) *Case {
	c := seqGen(weights{{"get", 1}, {"flush", 1}}, 200, 150, "", nil)(r, i)
	if c.NAlloc == 0 {
		c.NAlloc = 2
	}
	c.P = map[string]int{"tail": r.N(6)}
	if r.P(40) {
		// long runs: every insert may need a new block
		ks, kd := genUniverse(r, uniOpts{kind: "ladder", maxKeys: 30})
		c.Kind, c.Keys, c.Setup = kd, toHx(ks), nil
		c.P["run"], c.P["runseed"] = r.In(200, 2000), r.N(1000)
		c.Ops = genHistory(r, c.Keys, histOpts{w: weights{{"get", 1}}, n: r.In(3, 60), via: true})
	}
	return c
}

func runLag(c *Case) *Outcome {
	var out *Outcome
	run := func() string {
		return inRun(seqLimit, func() {
			w := newWorld(c)
			out = w.out
			t := w.trees[0]
			cut := len(c.Ops) - c.P["tail"]
			if cut < 0 {
				cut = 0
			}
			w.run(c.Setup)
			w.run(c.Ops[:cut])
			stop := sched.FreezeWatch()
			defer stop()
			w.run(c.Ops[cut:])
			t.needStarted()
			t.settle()
			t.needAll()
			t.t.Stop()
			data := t.save()
			if sched.FrozenWaiting() > 0 {
				out.class("lagging")
			}
			stop()
			nt, err := radix.NewTreeFromState(bytes.NewReader(data))
			if err != nil {
				failf("loading a complete state failed: %v", err)
			}
			out.class("save-load")
			loaded := &Tree{w: w, t: nt, live: append([]bool(nil), t.live...), val: append([]uint64(nil), t.val...), n: t.n, nalloc: t.nalloc, iters: map[int]*iterState{}, pend: map[int]*pending{}}
			t.t.Start()
			t.verifyAll()
			loaded.verifyAll()
			// both go on independently
			r := newRng("lag", w.digest)
			for n := 0; n < 60; n++ {
				x := []*Tree{t, loaded}[r.N(2)]
				i := r.N(len(w.keys))
				if x.live[i] && r.P(60) {
					x.del(w.keys[i], 0)
				} else {
					x.put(i, 0, 0)
				}
				sched.OpDone()
			}
			t.verifyAll()
			loaded.verifyAll()
			t.shut()
			loaded.shut()
		})
	}
	msg := run()
	if out == nil {
		out = &Outcome{}
	}
	out.Fail = msg
	nontriv(out, "save-load", "lagging")
	return out
}

// metaRunGen: the same history with and without a prepended run.
func metaRunGen(r *Rng, i int) *Case {
	c := seqGen(seqOps, 120, 60, "", nil)(r, i)
	if c.NAlloc == 0 {
		c.NAlloc = 2
	}
	run := 0
	room := 3000
	max := 0
	for _, k := range c.Keys {
		if len(k) > max {
			max = len(k)
		}
	}
	room = 3900 - max - 1100
	switch r.N(5) {
	case 0:
		run = i % 40
	case 1:
		run = r.In(240, 272)
	case 2:
		run = r.In(500, 530)
	case 3:
		run = r.N(1200)
	case 4:
		run = r.N(2600)
	}
	if run > room {
		run = r.N(maxInt(room, 1))
	}
	if len(c.Keys) <= 12 && max < 300 && r.P(10) {
		run = 4096 - 64 - max - 20*8 - r.N(200)
	}
	c.P = map[string]int{"run": run, "runseed": r.N(1000)}
	return c
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func metaLongGen(r *Rng, i int) *Case {
	c := metaRunGen(r, i)
	if len(c.Keys) > 16 {
		ks, kd := genUniverse(r, uniOpts{kind: "trie", maxKeys: 10, maxRun: 300})
		c.Kind, c.Keys, c.Setup = kd, toHx(ks), nil
		c.Ops = genHistory(r, c.Keys, histOpts{w: seqOps, n: 30, via: true})
	}
	c.P["run"] = r.pick(4096, 8000, 32767, 32768, 65535, 65536, 65537, 100000, 1<<20, 1<<21-4096, 1<<21-r.In(2500, 9000), r.N(1<<21-4096))
	return c
}

func runMetaRun(c *Case) *Outcome {
	a := clone(c)
	delete(a.P, "run")
	oa := runSeq(nil, nil)(a)
	if oa.Fail != "" {
		return oa
	}
	ob := runSeq(nil, nil)(c)
	ob.Execs = 2
	if ob.Fail == "" && oa.Digest != ob.Digest {
		ob.Fail = fmt.Sprintf("results change when a run of %d bytes is prepended to all keys and queries", c.P["run"])
	}
	ob.Nontrivial = c.P["run"] > 0 && ob.Classes["delete"] > 0
	if c.P["run"] >= 255 {
		ob.class("run>=255")
	}
	return ob
}

// ordersGen: one key set, several insertion orders.
func ordersGen(r *Rng, i int) *Case {
	ks, kd := genUniverse(r, uniOpts{maxKeys: r.pick(4, 10, 40, 300)})
	c := &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.In(1, 3)}
	c.P = map[string]int{"orders": r.In(2, 5), "oseed": r.N(1 << 30)}
	return c
}

func runOrders(c *Case) *Outcome {
	out := &Outcome{}
	out.Fail = inRun(seqLimit, func() {
		var first string
		r := newRng("orders", c.P["oseed"])
		for n := 0; n < c.P["orders"]; n++ {
			w := newWorld(c)
			t := w.trees[0]
			order := r.perm(len(w.keys))
			if n == 0 || n == 1 {
				sort.Ints(order)
			}
			if n == 1 {
				sort.Sort(sort.Reverse(sort.IntSlice(order)))
			}
			// the value belongs to the key, not to the order
			for _, i := range order {
				found, op := t.prepUpdate(w.keys[i], nil)
				t.examineUpdate(i, w.keys[i], found, op, true)
				v := valueFor(1, uint64(i))
				w.store[v] = i
				if !op.Finalize(v) {
					failf("insert of key #%d failed without competing writers", i)
				}
				t.set(i, v)
			}
			t.verifyAll()
			cnt := radix.NewCounter(t.t)
			nodes, leaves := cnt.Count(nil)
			sig := fmt.Sprint(nodes, leaves, cnt.NodeSizes, cnt.NodesWithPrefix, cnt.TotalPrefixLength, cnt.TotalPrefixBytes, cnt.LargePrefixes)
			if n == 0 {
				first = sig
			} else if sig != first {
				failf("counts depend on the insertion order: %s and %s", first, sig)
			}
			sched.OpDone()
			w.closeAll()
			out.Execs++
		}
	})
	out.Nontrivial = len(c.Keys) >= 3
	return out
}

// runAllocs executes a history under several allocator assignments.
func runAllocs(c *Case) *Outcome {
	base := clone(c)
	o := runSeq(nil, nil)(base)
	if o.Fail != "" {
		return o
	}
	nontriv(o, "insert", "delete")
	r := newRng("allocs", c.Index, len(c.Ops))
	for n := 0; n < 3; n++ {
		x := clone(c)
		x.NAlloc = []int{1, r.In(2, 9), r.pick(16, 16, 16, 33, 65)}[n]
		x.Ops = nil
		for _, op := range c.Ops {
			switch op.K {
			case "hold", "rel", "flush":
				continue
			}
			op.V = r.N(6)
			if r.P(20) {
				x.Ops = append(x.Ops, Op{K: []string{"hold", "hold", "rel", "flush"}[r.N(4)], N: r.N(5)})
			}
			x.Ops = append(x.Ops, op)
		}
		o2 := runSeq(nil, nil)(x)
		o.Execs++
		if o2.Fail != "" {
			o.Fail, o.Refined = o2.Fail, x
			return o
		}
		if o2.Digest != o.Digest {
			o.Fail = fmt.Sprintf("results change with %d allocators and another assignment of steps to allocators", x.NAlloc)
			return o
		}
	}
	return o
}

// ---- fuzz entry point

func fuzzGen(max int) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var d []byte
		switch r.N(8) {
		case 0:
			n := r.N(minInt(max, 400))
			for j := 0; j < n; j++ {
				d = append(d, []byte{'\n', 'a', 'b', 0xFF, 1}[r.N(5)])
			}
		case 1:
			n := r.N(60)
			for j := 0; j < n; j++ {
				d = append(d, byte(r.N(256)))
			}
		default:
			mk := r.pick(1, 3, 8, 20, 150, 400)
			if max < 5000 {
				mk = minInt(mk, 300)
			}
			ks, _ := genUniverse(r, uniOpts{maxKeys: maxInt(mk, 2), maxRun: 600})
			for _, j := range r.perm(len(ks)) {
				k := ks[j]
				if len(d)+len(k) > max {
					break
				}
				for _, b := range k {
					if b == 0 || b == '\n' {
						b = 'z'
					}
					d = append(d, b)
				}
				if r.P(15) {
					// a key that is a prefix of others, as text
					d = append(d, '\n')
					d = append(d, k[:0]...)
					for _, b := range k[:r.In(1, len(k))] {
						if b == 0 || b == '\n' {
							b = 'z'
						}
						d = append(d, b)
					}
				}
				d = append(d, '\n')
			}
			if r.P(10) && len(d) > 0 {
				d[r.N(len(d))] = []byte{0, '\n', 'q'}[r.N(3)]
			}
			if r.P(15) {
				d = append(d, tail(r)...)
			}
			if r.P(10) && len(d) > 0 {
				d = append(d, d[:r.N(len(d))]...)
			}
		}
		return &Case{Data: d}
	}
}

func fuzzWant(data []byte) (want, keys int) {
	seen := map[string]bool{}
	dup := false
	for {
		i := bytes.IndexByte(data, '\n')
		if i < 0 {
			break
		}
		k := data[:i]
		data = data[i+1:]
		if len(k) == 0 || bytes.IndexByte(k, 0) >= 0 {
			return -1, 0
		}
		if seen[string(k)] {
			dup = true
		}
		seen[string(k)] = true
		keys++
	}
	if dup {
		return -1, 0
	}
	return 1, keys
}

func runFuzz(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	before := radixGoroutines()
	want, keys := fuzzWant(c.Data)
	got := 0
	in := append([]byte(nil), c.Data...)
	out.Fail = inRun(seqLimit, func() {
		got = fuzzing.Fuzz(in)
	})
	if out.Fail != "" {
		return out
	}
	if !bytes.Equal(in, c.Data) {
		out.Fail = fmt.Sprintf("Fuzz changed its input %s", short(c.Data))
		return out
	}
	if got != want {
		out.Fail = fmt.Sprintf("Fuzz returned %d for %s, expected %d", got, short(c.Data), want)
		return out
	}
	if want == 1 {
		out.class("accepted")
		if !waitGoroutines(before) {
			out.Fail = fmt.Sprintf("Fuzz left a goroutine behind for accepted input %s", short(c.Data))
		}
	} else {
		out.class("rejected")
	}
	if keys > 256 {
		out.class("keys>256")
	}
	out.Nontrivial = want == 1 && keys >= 2
	return out
}

func runClose(c *Case) *Outcome {
	before := radixGoroutines()
	o := runSeq(nil, nil)(c)
	if o.Fail != "" {
		return o
	}
	if !waitGoroutines(before) {
		o.Fail = "a goroutine of the radix package is still there after all trees were closed:\n" + dumpRadix()
	}
	o.Nontrivial = o.Classes["save-load"] > 0 || o.Classes["insert"] > 20
	return o
}
