package main

import (
	"runtime"
	"time"

	"radixverif/shim/sched"
)

// shrink removes tasks, operations, keys and schedule entries while the case still fails.
func shrink(st *Stage, c *Case, limit time.Duration) *Case {
	deadline := time.Now().Add(limit)
	best := c
	fails := func(x *Case) bool {
		if time.Now().After(deadline) || heapFull() {
			return false
		}
		o := runCase(st, clone(x))
		if o.Fail == "" {
			return false
		}
		if o.Refined != nil {
			x.Sched = o.Refined.Sched
			if o.Refined.P != nil {
				x.P = o.Refined.P
			}
		}
		x.Failure = o.Fail
		return true
	}
	try := func(x *Case) bool {
		if fails(x) {
			best = x
			return true
		}
		return false
	}
	for round := 0; round < 3; round++ {
		before := size(best)
		best = ddOps(best, func(c *Case) *[]Op { return &c.Ops }, try, &best)
		best = ddOps(best, func(c *Case) *[]Op { return &c.Setup }, try, &best)
		for ti := range best.Tasks {
			ti := ti
			best = ddOps(best, func(c *Case) *[]Op { return &c.Tasks[ti] }, try, &best)
		}
		if best.Sched != nil && best.Sched.Mode == "list" {
			for i := 0; i < len(best.Sched.List); {
				x := clone(best)
				x.Sched.List = append(append([]sched.Switch(nil), best.Sched.List[:i]...), best.Sched.List[i+1:]...)
				if !try(x) {
					i++
				}
			}
		}
		// keys that no operation names
		if len(best.Keys) > 1 {
			x := clone(best)
			if dropKeys(x) {
				try(x)
			}
		}
		if size(best) == before || time.Now().After(deadline) {
			break
		}
	}
	return best
}

func size(c *Case) int {
	n := len(c.Ops) + len(c.Setup) + len(c.Keys)
	for _, t := range c.Tasks {
		n += len(t)
	}
	if c.Sched != nil {
		n += len(c.Sched.List)
	}
	return n
}

func ddOps(c *Case, get func(*Case) *[]Op, try func(*Case) bool, best **Case) *Case {
	n := len(*get(*best))
	for chunk := (n + 1) / 2; chunk >= 1; chunk /= 2 {
		for i := 0; i < len(*get(*best)); {
			x := clone(*best)
			l := get(x)
			e := minInt(i+chunk, len(*l))
			*l = append(append([]Op(nil), (*l)[:i]...), (*l)[e:]...)
			if !try(x) {
				i += chunk
			}
		}
	}
	return *best
}

func clone(c *Case) *Case {
	x := *c
	x.Keys = append([]hx(nil), c.Keys...)
	x.Setup = append([]Op(nil), c.Setup...)
	x.Ops = append([]Op(nil), c.Ops...)
	x.Tasks = make([][]Op, len(c.Tasks))
	for i := range c.Tasks {
		x.Tasks[i] = append([]Op(nil), c.Tasks[i]...)
	}
	if c.Sched != nil {
		s := *c.Sched
		s.List = append([]sched.Switch(nil), c.Sched.List...)
		x.Sched = &s
	}
	if c.P != nil {
		x.P = map[string]int{}
		for k, v := range c.P {
			x.P[k] = v
		}
	}
	return &x
}

// dropKeys removes the keys no operation refers to and renumbers the rest.
func dropKeys(c *Case) bool {
	used := make([]bool, len(c.Keys))
	mark := func(ops []Op) {
		for _, o := range ops {
			used[((o.I%len(c.Keys))+len(c.Keys))%len(c.Keys)] = true
		}
	}
	mark(c.Ops)
	mark(c.Setup)
	for _, t := range c.Tasks {
		mark(t)
	}
	m := make([]int, len(c.Keys))
	var ks []hx
	for i, u := range used {
		if u {
			m[i] = len(ks)
			ks = append(ks, c.Keys[i])
		}
	}
	if len(ks) == len(c.Keys) || len(ks) == 0 {
		return false
	}
	ren := func(ops []Op) {
		for i := range ops {
			ops[i].I = m[((ops[i].I%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		}
	}
	ren(c.Ops)
	ren(c.Setup)
	for _, t := range c.Tasks {
		ren(t)
	}
	c.Keys = ks
	return true
}

// heapFull: failing executions leave trees and goroutines behind.
func heapFull() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc > 1500<<20
}
