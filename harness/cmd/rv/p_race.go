package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sync"

	"github.com/jayloop/radix"
)

// ---- C25: concurrent use is free of data races
//
// The tasks share nothing but the trees: no clock, log, lock or counter of the harness orders their accesses, so the
// race detector sees only the order the trees establish themselves. Values name their key.

const raceKeyBits = 16

type raceTask struct {
	trees []*radix.Tree
	keys  []hx
	id    uint64
	seq   uint64
	own   []*radix.Allocator
	msg   string
	done  int // successful changes
}

func (p *raceTask) value(k int) uint64 {
	p.seq++
	return (p.id<<12|p.seq&4095)<<raceKeyBits | uint64(k)
}

// key returns the key of a presented value.
func (p *raceTask) key(v uint64) []byte {
	k := int(v & (1<<raceKeyBits - 1))
	if k >= len(p.keys) {
		failf("value %#x was presented, which was never stored", v)
	}
	return p.keys[k]
}

func (p *raceTask) do(op *Op) {
	t := p.trees[op.T]
	var a *radix.Allocator
	if p.own != nil {
		a = p.own[op.T]
	}
	q := []byte(p.keys[op.I])
	switch op.K {
	case "put", "ins", "upd", "abu":
		for {
			var found bool
			var u *radix.UpdateOperation
			if a != nil {
				found, u = a.PrepareUpdate(q)
			} else {
				found, u = t.PrepareUpdate(q)
			}
			if found {
				u.FetchedKey = append(u.FetchedKey[:0], p.key(u.Value)...)
				u.Match = bytes.Equal(u.FetchedKey, q)
			}
			if op.K == "abu" || op.K == "ins" && u.Match || op.K == "upd" && !u.Match {
				u.Abort()
				return
			}
			if op.N&1 == 1 {
				runtime.Gosched()
			}
			if u.Finalize(p.value(op.I)) {
				p.done++
				return
			}
		}
	case "del", "abd":
		for {
			var found bool
			var d *radix.DeleteOperation
			if a != nil {
				found, d = a.PrepareDelete(q)
			} else {
				found, d = t.PrepareDelete(q)
			}
			if !found {
				return
			}
			if op.K == "abd" || !bytes.Equal(p.key(d.Value), q) {
				d.Abort()
				return
			}
			if op.N&1 == 1 {
				runtime.Gosched()
			}
			if d.Finalize() {
				p.done++
				return
			}
		}
	case "get":
		if a != nil {
			if v, ok := a.Lookup(q); ok {
				p.key(v)
			}
		} else if v, ok := t.Lookup(q); ok {
			p.key(v)
		}
	case "flush":
		a.FlushStats()
	case "scan":
		it := t.NewIterator(op.Q)
		for n := 0; it.Next(); n++ {
			p.key(it.Value())
			if n > 4*len(p.keys)+1000 {
				failf("iteration with prefix %s does not end", short(op.Q))
			}
		}
		it.Close()
	case "count":
		if op.N&1 == 1 {
			radix.NewCounter(t).Count(op.Q)
		} else {
			t.Count(op.Q)
		}
	case "min":
		if v, ok := t.MinKey(op.Q); ok {
			p.key(v)
		}
	case "max":
		if v, ok := t.MaxKey(op.Q); ok {
			p.key(v)
		}
	case "len":
		t.Len()
	case "stats":
		st := map[string]interface{}{}
		t.Stats(st)
		_ = fmt.Sprint(st["allocators"], st["bytes_allocated"])
	case "admin":
		t.Admin(io.Discard, op.A)
	case "stop":
		t.Stop()
		if op.N&1 == 1 {
			t.Len()
		}
		t.Start()
	case "save":
		t.Stop()
		var buf bytes.Buffer
		if _, err := t.WriteState(&buf); err != nil {
			failf("WriteState: %v", err)
		}
		t.Start()
		n, err := radix.NewTreeFromState(bytes.NewReader(buf.Bytes()))
		if err != nil {
			failf("loading a complete state failed: %v", err)
		}
		if _, leaves := n.Count(nil); n.Len() != leaves {
			failf("the loaded tree has %d keys, but reports %d", leaves, n.Len())
		}
		n.Close()
	default:
		panic("unknown operation " + op.K)
	}
}

// raceOps generates what one task does in one round.
func raceOps(r *Rng, keys []hx, trees, n, focus, span int, own, stops, save bool) (ops []Op) {
	w := weights{{"put", 16}, {"ins", 5}, {"upd", 6}, {"del", 18}, {"abu", 3}, {"abd", 3}, {"get", 14}, {"flush", 1}}
	if !own {
		w = append(w[:7:7], weights{{"scan", 4}, {"count", 3}, {"min", 3}, {"max", 3}, {"stats", 2}, {"admin", 2}, {"len", 1}}...)
		if stops {
			w = append(w, weights{{"stop", 2}}...)
		}
		if stops && save {
			w = append(w, weights{{"save", 2}}...)
		}
		switch r.N(4) {
		case 0: // mostly reading
			w = append(w, weights{{"get", 60}, {"scan", 10}}...)
		case 1: // mostly writing
			w = append(w, weights{{"put", 40}, {"del", 40}}...)
		}
	}
	for ; n > 0; n-- {
		op := genOther(r, keys, w.pick(r), 0)
		op.N = r.N(4)
		op.T = r.N(trees)
		op.I = ((focus+r.In(-span, span))%len(keys) + len(keys)) % len(keys)
		switch op.K {
		case "admin":
			op.A = [][]string{{"info"}, {"blocks"}, {"allocators"}, {"help"}}[r.N(4)]
		case "scan", "count", "min", "max":
			if r.P(40) {
				op.Q = nil
			}
		}
		ops = append(ops, op)
	}
	return
}

func raceGen(r *Rng, i int) *Case {
	var ks [][]byte
	var kd string
	switch r.N(5) {
	case 0:
		ks, kd = concUniverse(r, 12)
	case 1:
		ks, kd = genUniverse(r, uniOpts{kind: "wide", maxKeys: 260})
	case 2:
		ks, kd = wideSplit(r), "widesplit"
	case 3:
		c := staticGen(262, 700)(r, i)
		for _, k := range c.Keys {
			ks = append(ks, k)
		}
		kd = c.Kind
	default:
		ks, kd = genUniverse(r, uniOpts{maxKeys: 60})
	}
	return &Case{Kind: kd, Keys: toHx(ks), NAlloc: r.pick(1, 2, 4, 8, 10), NTrees: r.pick(1, 1, 1, 2),
		P: map[string]int{"rounds": r.In(4, 10), "tasks": r.In(2, 8), "ops": r.pick(20, 100, 300), "seed": r.N(1 << 30), "focus": r.pick(1, 2, 4, 30, 1000), "save": r.N(2)}}
}

func runRace(c *Case) *Outcome {
	out := &Outcome{}
	r := newRng("race", c.P["seed"])
	keys := expandKeys(c)
	nk := len(keys)
	var trees []*radix.Tree
	for i := 0; i < c.NTrees; i++ {
		trees = append(trees, radix.NewTree(&radix.Options{NumAllocators: c.NAlloc}))
	}
	first := &raceTask{trees: trees, keys: keys}
	for t := range trees {
		for _, i := range r.perm(nk) {
			if r.P(80) {
				first.do(&Op{K: "put", T: t, I: i})
			}
		}
	}
	x := &conc{real: true}
	for round := 0; round < c.P["rounds"]; round++ {
		focus := r.N(nk)
		owners, stopper := 0, false // whoever stops a tree relies on nobody else starting it
		var tasks []*raceTask
		var fns []func()
		for n := 0; n < c.P["tasks"]; n++ {
			p := &raceTask{trees: trees, keys: keys, id: uint64(round*16+n+1) & 0xffff}
			own := r.P(40) && owners+1 < c.NAlloc
			if own {
				owners++
			}
			ops := raceOps(r, keys, c.NTrees, c.P["ops"], focus, c.P["focus"], own, !own && !stopper, c.P["save"] > 0)
			stopper = stopper || !own
			tasks = append(tasks, p)
			fns = append(fns, func() {
				if own {
					for _, t := range trees {
						p.own = append(p.own, t.GetAllocator())
					}
				}
				for i := range ops {
					p.do(&ops[i])
				}
				for i, a := range p.own {
					trees[i].ReleaseAllocator(a)
				}
			})
		}
		if msg := together(x, fns); msg != "" {
			failf("round %d: %s", round, msg)
		}
		x.clk.Add(1)
		out.Execs++
		changed := 0
		for _, p := range tasks {
			if p.done > 0 {
				changed++
			}
		}
		if changed > 0 && len(tasks) > 1 {
			out.Nontrivial = true
		}
		for i, t := range trees {
			if _, leaves := t.Count(nil); leaves != t.Len() {
				failf("tree %d holds %d keys after round %d, but Len is %d", i, leaves, round, t.Len())
			}
		}
	}
	for _, t := range trees {
		t.Close()
	}
	if raceDetector {
		out.class("with-race-detector")
	} else {
		out.class("without-race-detector")
	}
	return out
}

// runRacePools: every goroutine has a tree of its own, only the pools of operations and iterators are shared.
func runRacePools(c *Case) *Outcome {
	out := &Outcome{}
	r := newRng("racepools", c.P["seed"])
	keys := expandKeys(c)
	for round := 0; round < c.P["rounds"]; round++ {
		var wg sync.WaitGroup
		fails := make([]string, c.P["tasks"])
		for n := 0; n < c.P["tasks"]; n++ {
			n, seed := n, r.U64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fails[n] = fmt.Sprint(e)
					}
				}()
				r := newRng("racepool", seed)
				t := radix.NewTree(&radix.Options{NumAllocators: 1 + r.N(2)})
				p := &raceTask{trees: []*radix.Tree{t}, keys: keys, id: uint64(n + 1)}
				for i := range keys {
					p.do(&Op{K: "put", I: i})
				}
				ops := raceOps(r, keys, 1, c.P["ops"], r.N(len(keys)), 1000, false, true, false)
				for i := range ops {
					p.do(&ops[i])
					if i%8 == 0 {
						it := t.NewIterator(nil)
						for k := r.N(300); k > 0 && it.Next(); k-- {
						}
						it.Close()
					}
				}
				t.Close()
			}()
		}
		wg.Wait()
		for _, f := range fails {
			if f != "" {
				failf("round %d: %s", round, f)
			}
		}
		out.Execs++
	}
	out.Nontrivial = c.P["tasks"] > 1
	return out
}

func init() {
	addProp(Property{ID: "C25", Level: "exploration",
		Rule: "two to eight goroutines with every kind of operation on one or two trees (updates, deletes, aborts, lookups, scans, counts, statistics, Len, Stop, Start, saving), sharing nothing but the trees, under the Go race detector; non-trivial if at least two tasks ran and some changed a tree",
		Stages: []Stage{
			{Name: "small", Build: "racetiny", Quick: 500, QuickS: 30, Gen: raceGen, Run: runRace, NoShrink: true},
			{Name: "real", Build: "race", Quick: 300, QuickS: 30, Gen: raceGen, Run: runRace, NoShrink: true},
			{Name: "pools", Build: "race", Quick: 100, QuickS: 15, Gen: raceGen, Run: runRacePools, NoShrink: true},
		}})
}
