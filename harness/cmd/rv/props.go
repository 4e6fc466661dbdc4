package main

import (
	"radixverif/shim/sched"
)

// Stage is one generator plus runner of a property.
type Stage struct {
	Name     string
	Build    string // tiny, std, plain, bs8, bs16, race, racetiny
	Quick    int    // number of cases
	Thorough int
	QuickS   int // soft time cap in seconds
	Gen      func(r *Rng, i int) *Case
	Run      func(c *Case) *Outcome
	NoShrink bool
	Digests  string // group of stages whose digests must agree case by case
}

// Property is one check.
type Property struct {
	ID     string
	Rule   string
	Level  string
	Stages []Stage
}

// inRun executes f as the only task of a controlled run, so that endless loops are detected by counting steps.
func inRun(limit uint64, f func()) string {
	r := sched.NewRun(f)
	r.Mode = sched.ModeList
	r.OpLimit = limit
	return r.Exec(0)
}

const seqLimit = 40_000_000

// runSeq is the runner of sequential histories.
func runSeq(prep func(w *World), final func(w *World)) func(c *Case) *Outcome {
	return func(c *Case) *Outcome {
		var w *World
		var out *Outcome
		msg := inRun(seqLimit, func() {
			w = newWorld(c)
			out = w.out
			if prep != nil {
				prep(w)
			}
			w.run(c.Setup)
			w.run(c.Ops)
			for _, t := range w.trees {
				if !t.closed {
					t.settle()
					t.needStarted()
					t.verifyAll()
				}
			}
			sched.OpDone()
			if final != nil {
				final(w)
			}
			w.closeAll()
		})
		if out == nil {
			out = &Outcome{}
		}
		out.Fail = msg
		out.Digest = 0
		if w != nil {
			out.Digest = w.digest
		}
		out.Execs = 1
		if msg != "" && w != nil {
			abandon(w)
		}
		return out
	}
}

// abandon closes trees after a failure without touching their allocators.
func abandon(w *World) {
	defer func() { recover() }()
}

func nontriv(o *Outcome, need ...string) {
	o.Nontrivial = true
	for _, n := range need {
		if o.Classes[n] == 0 {
			o.Nontrivial = false
		}
	}
}
