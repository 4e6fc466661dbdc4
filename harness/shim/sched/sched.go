// Package sched is a controlled cooperative scheduler. The code under test is rewritten so that every statement
// and every atomic operation calls P, A or Gosched; while a Run is active, exactly one of its tasks executes at a
// time and the Run decides at each such point whether to continue or to switch. Goroutines that are not tasks of
// the active run pass straight through.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func getg() uintptr

// Kinds of scheduling points.
const (
	KStmt = iota
	KAtomic
	KSpin
	KHarness
	KFinish
)

// Modes of scheduling.
const (
	ModeList   = iota // only the explicit preemptions in List
	ModeRandom        // switch with probability per point kind
	ModePCT           // priorities with change points
)

// fairSlice is the number of steps after which a task without a finished operation gives way to another.
const fairSlice = 100_000

// Switch says: when Task reaches its Local-th point, continue with task To.
type Switch struct {
	Task  int    `json:"t"`
	Local uint64 `json:"at"`
	To    int    `json:"to"`
	Hold  bool   `json:"hold,omitempty"` // Task does not continue before the readers are done
}

type abortT struct{}

var errAbort = abortT{}

// Task is one managed goroutine of a Run.
type Task struct {
	id        int
	g         uintptr
	goid      string
	rb        atomic.Bool // blocked for real, in something the scheduler does not control
	wake      chan struct{}
	local     uint64
	done      bool
	held      bool
	unwinding bool
	fn        func()
	prio      int
	list      []Switch
	cursor    int
	marks     []uint64 // points at atomic operations and harness steps
	PanicMsg  string
}

// Run is one controlled execution.
type Run struct {
	tasks []*Task
	cur   *Task
	curG  atomic.Uintptr

	Step    uint64
	opStart uint64
	OpLimit uint64
	slice   uint64 // step of the last switch
	clock   int64

	Mode        int
	rng         uint64
	pStmt       uint64 // probability * 2^32
	pAtomic     uint64
	pHarness    uint64
	randLimit   uint64 // stop random preemption after this many steps
	changeAt    []uint64
	lowPrio     int
	Trace       []Switch
	Preemptions int

	Readers int // tasks from this one on are readers, 0: none

	aborted  bool
	AbortMsg string
	doneCh   chan struct{}
	record   bool

	mu       sync.Mutex   // orders rejoin, steal and the end of tasks while some task is blocked for real
	nblocked atomic.Int32 // tasks blocked for real
	idle     bool         // all tasks left are
	waits    int
}

var active atomic.Pointer[Run]

// Frozen, when set, parks unmanaged goroutines of the code under test at their next atomic write.
var frozen atomic.Bool
var frozenWaiting atomic.Int32

// Freeze makes background goroutines of the code under test stop before their next atomic write.
func Freeze() { frozen.Store(true) }

// Thaw lets them continue.
func Thaw() { frozen.Store(false) }

// FrozenWaiting is the number of background goroutines currently parked.
func FrozenWaiting() int { return int(frozenWaiting.Load()) }

// Write is called before an atomic write.
func Write() {
	r := active.Load()
	if r != nil && r.mine() {
		r.point(KAtomic)
		return
	}
	if frozen.Load() && !harnessG() {
		frozenWaiting.Add(1)
		for frozen.Load() {
			runtime.Gosched()
		}
		frozenWaiting.Add(-1)
	}
}

var mainG atomic.Uintptr

// SetHarness marks the calling goroutine as belonging to the harness (never frozen).
func SetHarness() { mainG.Store(getg()) }

func harnessG() bool { return getg() == mainG.Load() }

// P is a statement point.
func P() {
	r := active.Load()
	if r == nil || !r.mine() {
		return
	}
	r.point(KStmt)
}

// A is an atomic-operation point.
func A() {
	r := active.Load()
	if r == nil || !r.mine() {
		return
	}
	r.point(KAtomic)
}

// H is a point inside the harness, between the steps of an operation.
func H() {
	r := active.Load()
	if r == nil || !r.mine() {
		return
	}
	r.point(KHarness)
}

// Gosched replaces runtime.Gosched in the code under test.
func Gosched() {
	r := active.Load()
	if r == nil || !r.mine() {
		runtime.Gosched()
		return
	}
	r.point(KSpin)
}

// Sleep replaces time.Sleep in the code under test.
func Sleep(d time.Duration) {
	r := active.Load()
	if r == nil || !r.mine() {
		time.Sleep(d)
		return
	}
	r.point(KSpin)
}

// mine reports whether the caller is the running task. A task that comes back from blocking for real first waits
// for its turn.
func (r *Run) mine() bool {
	g := getg()
	if g == r.curG.Load() {
		return true
	}
	return r.nblocked.Load() > 0 && r.rejoin(g)
}

func (r *Run) rejoin(g uintptr) bool {
	r.mu.Lock()
	for _, t := range r.tasks {
		if t.g != g || !t.rb.Load() {
			continue
		}
		t.rb.Store(false)
		r.nblocked.Add(-1)
		if r.idle {
			r.idle = false
			r.cur = t
			r.curG.Store(g)
			r.mu.Unlock()
			return true
		}
		r.mu.Unlock()
		<-t.wake
		return true
	}
	r.mu.Unlock()
	return false
}

var steals int
var monitorOnce sync.Once

// monitor hands the turn to another task when the running one is blocked in something the scheduler does not control
// (a channel, a condition variable).
func monitor() {
	var lastR *Run
	var lastStep uint64
	var lastG uintptr
	since := time.Now()
	for {
		d, limit := 250*time.Millisecond, 2*time.Second
		if steals >= 3 {
			d, limit = 2*time.Millisecond, 10*time.Millisecond
		}
		time.Sleep(d)
		r := active.Load()
		if r == nil || len(r.tasks) < 2 {
			lastR = nil
			continue
		}
		step, g := atomic.LoadUint64(&r.Step), r.curG.Load()
		if r != lastR || step != lastStep || g != lastG {
			lastR, lastStep, lastG, since = r, step, g, time.Now()
			continue
		}
		if g != 0 && time.Since(since) >= limit {
			r.steal(g)
			since = time.Now()
		}
		if g == 0 && time.Since(since) >= 20*time.Second {
			r.allBlocked()
			since = time.Now()
		}
	}
}

func (r *Run) steal(g uintptr) {
	r.mu.Lock()
	defer r.mu.Unlock()
	t := r.cur
	if t == nil || t.g != g || t.rb.Load() || !blockedForReal(t.goid) {
		return
	}
	t.rb.Store(true)
	r.nblocked.Add(1)
	if !r.curG.CompareAndSwap(g, 0) {
		t.rb.Store(false)
		r.nblocked.Add(-1)
		return
	}
	steals++
	to := r.lowest(t)
	if to == nil {
		r.idle = true
		return
	}
	r.cur = to
	r.curG.Store(to.g)
	to.wake <- struct{}{}
}

// allBlocked ends a run none of whose tasks will ever go on.
func (r *Run) allBlocked() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.idle || r.aborted {
		return
	}
	for _, t := range r.tasks {
		if t.rb.Load() && !blockedForReal(t.goid) {
			return
		}
	}
	r.aborted = true
	r.AbortMsg = "all tasks are blocked (deadlock)"
	r.doneCh <- struct{}{}
}

// goid returns the number of the calling goroutine, as it stands in stack dumps.
func goid() string {
	var b [40]byte
	s := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(s) < 2 {
		return "?"
	}
	return s[1]
}

func blockedForReal(id string) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, s := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(s, "goroutine "+id+" [") {
			continue
		}
		st := s[len("goroutine "+id+" ["):]
		if strings.Contains(s, "sched.(*Run)") && !strings.Contains(s, "sync.(*Cond)") && strings.Contains(strings.SplitN(s, "\n", 4)[1], "sched.") {
			return false
		}
		for _, p := range []string{"chan ", "select", "semacquire", "sync.", "sleep", "IO wait"} {
			if strings.HasPrefix(st, p) {
				return true
			}
		}
		return false
	}
	return false
}

// Managed reports whether the caller is the running task.
func Managed() bool {
	r := active.Load()
	return r != nil && r.mine()
}

// NewRun creates a run over the given task functions.
func NewRun(fns ...func()) *Run {
	r := &Run{OpLimit: 50_000_000, doneCh: make(chan struct{}, 1), record: true}
	for i, f := range fns {
		r.tasks = append(r.tasks, &Task{id: i, wake: make(chan struct{}, 1), fn: f, prio: 1000 + i})
	}
	return r
}

// SetList installs explicit preemptions.
func (r *Run) SetList(l []Switch) {
	r.Mode = ModeList
	for _, s := range l {
		if s.Task >= 0 && s.Task < len(r.tasks) {
			t := r.tasks[s.Task]
			t.list = append(t.list, s)
		}
	}
}

func (r *Run) next() uint64 {
	r.rng += 0x9E3779B97F4A7C15
	z := r.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// SetRandom installs random preemption; probabilities are in units of 1/65536.
func (r *Run) SetRandom(seed uint64, stmt, atomicP, harness int, limit uint64) {
	r.Mode = ModeRandom
	r.rng = seed
	r.pStmt, r.pAtomic, r.pHarness = uint64(stmt), uint64(atomicP), uint64(harness)
	r.randLimit = limit
}

// SetPCT installs priority scheduling with change points drawn from [1, length].
func (r *Run) SetPCT(seed uint64, depth int, length uint64) {
	r.Mode = ModePCT
	r.rng = seed
	perm := make([]int, len(r.tasks))
	for i := range perm {
		perm[i] = i
	}
	for i := len(perm) - 1; i > 0; i-- {
		j := int(r.next() % uint64(i+1))
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i, t := range r.tasks {
		t.prio = 1000 + perm[i]
	}
	for i := 0; i < depth; i++ {
		r.changeAt = append(r.changeAt, 1+r.next()%length)
	}
	r.lowPrio = 500
}

// OpDone marks progress (an operation of the harness completed).
func OpDone() {
	if r := active.Load(); r != nil && r.mine() {
		r.opStart = r.Step
	}
}

// Now returns the next logical timestamp.
func Now() int64 {
	r := active.Load()
	if r == nil {
		return 0
	}
	if r.nblocked.Load() > 0 {
		r.mine()
	}
	r.clock++
	return r.clock
}

// CurTask returns the id of the running task, or -1.
func CurTask() int {
	r := active.Load()
	if r == nil || r.cur == nil {
		return -1
	}
	return r.cur.id
}

// Local returns the number of points a task has passed.
func (r *Run) Local(task int) uint64 { return r.tasks[task].local }

// Marks returns the points of a task at atomic operations and harness steps (the first few thousand).
func (r *Run) Marks(task int) []uint64 { return r.tasks[task].marks }

func (r *Run) point(k int) {
	t := r.cur
	if r.aborted {
		if t.unwinding && k != KSpin {
			return
		}
		t.unwinding = true
		panic(errAbort)
	}
	r.Step++
	t.local++
	if k != KStmt && len(t.marks) < 4096 {
		t.marks = append(t.marks, t.local)
	}
	if r.Step&0xFFFF == 0 && r.Step-r.opStart > 100000 && frozen.Load() {
		// the operation may be waiting for a frozen goroutine
		Thaw()
	}
	if r.Step-r.opStart > r.OpLimit {
		r.aborted = true
		r.AbortMsg = fmt.Sprintf("no operation completed within %d steps (deadlock, livelock or endless loop)", r.OpLimit)
		t.unwinding = true
		panic(errAbort)
	}
	kd := k
	if r.Step-r.slice >= fairSlice && r.Step-r.opStart >= fairSlice {
		// a loop that waits for another task need not call Gosched: the Go scheduler preempts it
		kd, r.slice = KSpin, r.Step
	}
	to := r.decide(t, kd)
	if to == nil || to == t {
		if k == KSpin && r.nblocked.Load() > 0 && r.waits < 200_000 {
			// it waits for a task that is blocked for real
			r.waits++
			r.opStart++
			time.Sleep(50 * time.Microsecond)
		}
		return
	}
	r.switchTo(t, to, k)
	if r.aborted {
		t.unwinding = true
		panic(errAbort)
	}
}

func (r *Run) switchTo(t, to *Task, k int) {
	if r.record {
		r.Trace = append(r.Trace, Switch{Task: t.id, Local: t.local, To: to.id, Hold: t.held})
	}
	if k != KSpin && k != KFinish {
		r.Preemptions++
	}
	r.slice = r.Step
	r.cur = to
	r.curG.Store(to.g)
	to.wake <- struct{}{}
	if k != KFinish {
		<-t.wake
	}
}

func (r *Run) rr(t *Task) *Task {
	n := len(r.tasks)
	for i := 1; i <= n; i++ {
		o := r.tasks[(t.id+i)%n]
		if !o.done && o != t && (!o.held || r.aborted) && !o.rb.Load() {
			return o
		}
	}
	return nil
}

func (r *Run) lowest(t *Task) *Task {
	for _, o := range r.tasks {
		if !o.done && o != t && (!o.held || r.aborted) && !o.rb.Load() {
			return o
		}
	}
	return nil
}

func (r *Run) decide(t *Task, k int) *Task {
	switch r.Mode {
	case ModeList:
		for t.cursor < len(t.list) && t.list[t.cursor].Local < t.local {
			t.cursor++
		}
		if t.cursor < len(t.list) && t.list[t.cursor].Local == t.local {
			s := t.list[t.cursor]
			t.cursor++
			if s.To >= 0 && s.To < len(r.tasks) && !r.tasks[s.To].done && !r.tasks[s.To].held && !r.tasks[s.To].rb.Load() {
				if s.Hold && s.To != t.id && r.Readers > 0 {
					t.held = true
				}
				return r.tasks[s.To]
			}
		}
	case ModeRandom:
		if k == KStmt || k == KAtomic || k == KHarness {
			p := r.pStmt
			if k == KAtomic {
				p = r.pAtomic
			} else if k == KHarness {
				p = r.pHarness
			}
			if p == 0 || r.Step > r.randLimit || r.next()&0xFFFF >= p {
				return nil
			}
		}
		// pick a random other unfinished task
		n := 0
		for _, o := range r.tasks {
			if !o.done && o != t && (!o.held || r.aborted) && !o.rb.Load() {
				n++
			}
		}
		if n == 0 {
			return nil
		}
		c := int(r.next() % uint64(n))
		for _, o := range r.tasks {
			if !o.done && o != t && (!o.held || r.aborted) && !o.rb.Load() {
				if c == 0 {
					return o
				}
				c--
			}
		}
	case ModePCT:
		if k == KStmt || k == KAtomic || k == KHarness {
			hit := false
			for _, c := range r.changeAt {
				if c == r.Step {
					hit = true
				}
			}
			if !hit {
				return nil
			}
			r.lowPrio--
			t.prio = r.lowPrio
		}
		if k == KSpin {
			// a spinning task lets every other one run first
			r.lowPrio--
			t.prio = r.lowPrio
		}
		best := t
		if k == KFinish {
			best = nil
		}
		for _, o := range r.tasks {
			if !o.done && !o.held && o != t && !o.rb.Load() && (best == nil || o.prio > best.prio) {
				best = o
			}
		}
		return best
	}
	// defaults for list mode
	if k == KSpin {
		return r.rr(t)
	}
	if k == KFinish {
		return r.lowest(t)
	}
	return nil
}

// Exec runs all tasks to completion and returns the failure (panic or missing progress), if any.
func (r *Run) Exec(first int) (failure string) {
	var ready sync.WaitGroup
	var finished sync.WaitGroup
	for _, t := range r.tasks {
		t := t
		ready.Add(1)
		finished.Add(1)
		go func() {
			defer finished.Done()
			t.g = getg()
			if len(r.tasks) > 1 {
				t.goid = goid()
			}
			ready.Done()
			<-t.wake
			t.body(r)
			r.finish(t)
		}()
	}
	ready.Wait()
	if first < 0 || first >= len(r.tasks) {
		first = 0
	}
	if r.Mode == ModePCT {
		for i, t := range r.tasks {
			if t.prio > r.tasks[first].prio {
				first = i
			}
		}
	}
	r.cur = r.tasks[first]
	r.curG.Store(r.cur.g)
	if !active.CompareAndSwap(nil, r) {
		panic("sched: a run is already active")
	}
	monitorOnce.Do(func() { go monitor() })
	r.cur.wake <- struct{}{}
	<-r.doneCh
	r.curG.Store(0)
	active.Store(nil)
	if r.nblocked.Load() == 0 {
		finished.Wait()
	}
	for _, t := range r.tasks {
		if t.PanicMsg != "" {
			return t.PanicMsg
		}
	}
	return r.AbortMsg
}

// Violation is panicked by harness code inside a task to report an oracle failure.
type Violation struct{ Msg string }

func (t *Task) body(r *Run) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(abortT); ok {
			return
		}
		if r.aborted && t.unwinding {
			return
		}
		if v, ok := e.(Violation); ok {
			t.PanicMsg = v.Msg
		} else {
			t.PanicMsg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
		r.aborted = true
		t.unwinding = true
	}()
	if r.aborted {
		return
	}
	t.fn()
}

func (r *Run) finish(t *Task) {
	if r.nblocked.Load() > 0 {
		r.mine()
	}
	t.local++
	t.done = true
	if r.Readers > 0 {
		left := false
		for _, o := range r.tasks[r.Readers:] {
			left = left || !o.done
		}
		if !left {
			for _, o := range r.tasks {
				o.held = false
			}
		}
	}
	var to *Task
	if r.aborted {
		to = r.lowest(t)
	} else {
		to = r.decide(t, KFinish)
		if to == nil {
			to = r.lowest(t)
		}
	}
	if to == nil {
		r.mu.Lock()
		if to = r.lowest(t); to == nil && r.nblocked.Load() > 0 && !r.aborted {
			r.idle = true
			r.cur = nil
			r.curG.Store(0)
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
	}
	if to == nil {
		r.doneCh <- struct{}{}
		return
	}
	r.switchTo(t, to, KFinish)
}

func trimStack(s []byte) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return string(s)
}

// YieldReal lets unmanaged goroutines run.
func YieldReal() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
}

// FreezeWatch freezes background goroutines, and thaws them for good when the caller makes no progress (it may be
// waiting for one of them) or calls the returned function.
func FreezeWatch() func() {
	Freeze()
	stop := make(chan bool)
	var once sync.Once
	r := active.Load()
	go func() {
		last := uint64(0)
		same := 0
		for {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
			}
			s := uint64(0)
			if r != nil {
				s = atomic.LoadUint64(&r.Step)
			}
			if s == last && FrozenWaiting() > 0 {
				if same++; same >= 3 {
					Thaw()
					return
				}
			} else {
				same = 0
			}
			last = s
		}
	}()
	return func() { once.Do(func() { close(stop); Thaw() }) }
}
