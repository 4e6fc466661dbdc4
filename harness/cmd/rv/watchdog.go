package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A watchdog reports a case that does not return: one that has used far more processor time than any case needs, or
// whose goroutines are all blocked. Neither depends on how busy the machine is.
type watchdog struct {
	mu    sync.Mutex
	c     *Case
	copy  Case // as it was before the run
	cpu   time.Duration
	since time.Time
	over  bool
	max   time.Duration
	fire  func(f *Case)
}

const (
	caseCPU   = 150 * time.Second
	stuckFor  = 40 // seconds
	stuckNote = "an operation does not return"
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func newWatchdog(out string) *watchdog {
	w := &watchdog{cpu: cpuTime(), since: time.Now()}
	w.fire = func(f *Case) {
		res := workerResult{Classes: map[string]int{}, Digests: map[string]uint64{}, Failing: f, Finished: true}
		b, _ := json.Marshal(res)
		if os.WriteFile(out, b, 0o644) == nil {
			os.Exit(0)
		}
		os.Exit(2)
	}
	go w.watch()
	return w
}

func (w *watchdog) begin(c *Case) {
	w.mu.Lock()
	now := cpuTime()
	if d := now - w.cpu; d > w.max {
		w.max = d
	}
	w.c, w.copy, w.cpu, w.since = c, *c, now, time.Now()
	w.mu.Unlock()
}

func (w *watchdog) watch() {
	stuck := 0
	var last *Case
	for {
		time.Sleep(time.Second)
		w.mu.Lock()
		c, cpu, since, over := w.c, w.cpu, w.since, w.over
		w.mu.Unlock()
		if over {
			return
		}
		if c == nil {
			continue
		}
		why := ""
		if cpuTime()-cpu > caseCPU {
			why = fmt.Sprintf("%s: the case has used %v of processor time and is still running", stuckNote, caseCPU)
		}
		if c != last || time.Since(since) < 5*time.Second || !allStuck() {
			stuck = 0
		} else if stuck++; stuck > stuckFor {
			why = stuckNote + ": all goroutines are blocked"
		}
		last = c
		if why == "" {
			continue
		}
		w.mu.Lock()
		if w.c == c && !w.over {
			f := w.copy
			if f.Failure == "" {
				f.Failure = why + "\n" + dumpRadix()
			}
			w.fire(&f)
		}
		w.mu.Unlock()
	}
}

func (w *watchdog) finish(res *workerResult, out string) {
	w.mu.Lock() // never released: the result is written once
	w.over = true
	if d := cpuTime() - w.cpu; d > w.max {
		w.max = d
	}
	if p := os.Getenv("RV_CPU"); p != "" {
		if f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(f, "%.2f %s\n", w.max.Seconds(), strings.Join(os.Args[2:6], " "))
			f.Close()
		}
	}
	res.Finished = true
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// allStuck reports whether every goroutine but the watchdog's and the scheduler's waits for another one.
func allStuck() bool {
	for _, s := range stacks() {
		if strings.Contains(s, "main.(*watchdog).watch") || strings.Contains(s, "sched.monitor") {
			continue
		}
		if !isBlocked(s) {
			return false
		}
	}
	return true
}
