package main

import (
	"runtime"
	"strings"
	"time"
)

func stacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return strings.Split(string(buf[:n]), "\n\n")
		}
		buf = make([]byte, 2*len(buf))
	}
}

// radixGoroutines counts the goroutines that execute or were created by code of the radix package.
func radixGoroutines() int {
	n := 0
	for _, s := range stacks() {
		if strings.Contains(s, "jayloop/radix.") {
			n++
		}
	}
	return n
}

func dumpRadix() string {
	var b strings.Builder
	for _, s := range stacks() {
		if strings.Contains(s, "jayloop/radix.") {
			b.WriteString(s + "\n")
		}
	}
	return b.String()
}

// waitGoroutines waits until there are no more radix goroutines than before. It gives up only when those left are
// blocked for good, or after a long time.
func waitGoroutines(before int) bool {
	blocked := 0
	for start := time.Now(); time.Since(start) < 60*time.Second; {
		n, stuck := 0, 0
		for _, s := range stacks() {
			if !strings.Contains(s, "jayloop/radix.") {
				continue
			}
			n++
			if isBlocked(s) {
				stuck++
			}
		}
		if n <= before {
			return true
		}
		if stuck == n {
			if blocked++; blocked > 40 {
				return false
			}
		} else {
			blocked = 0
		}
		if blocked == 0 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return false
}

// isBlocked reports whether the goroutine of a stack dump waits for another goroutine.
func isBlocked(s string) bool {
	i, j := strings.IndexByte(s, '['), strings.IndexByte(s, ']')
	if i < 0 || j < i {
		return false
	}
	st := s[i+1 : j]
	for _, p := range []string{"chan ", "select", "semacquire", "sync.", "IO wait"} {
		if strings.HasPrefix(st, p) {
			return true
		}
	}
	return false
}

func dumpSelf() string {
	buf := make([]byte, 1<<13)
	return string(buf[:runtime.Stack(buf, false)])
}
