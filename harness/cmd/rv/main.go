package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"radixverif/shim/sched"
)

var (
	buildName = "plain" // -X main.buildName
	buildMeta = ""      // -X main.buildMeta
)

func metaInt(k string) int {
	for _, p := range strings.Split(buildMeta, ",") {
		if strings.HasPrefix(p, k+"=") {
			n, _ := strconv.Atoi(p[len(k)+1:])
			return n
		}
	}
	return 0
}

func main() {
	sched.SetHarness()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rv check|worker|replay|builds|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		// many small trees: collect less often
		debug.SetGCPercent(1000)
		debug.SetMemoryLimit(1 << 30)
		cmdWorker(os.Args[2:])
	case "builds":
		if p := findProp(os.Args[2]); p != nil {
			seen := map[string]bool{}
			for _, st := range p.Stages {
				if !seen[st.Build] {
					seen[st.Build] = true
					fmt.Println(st.Build)
				}
			}
		} else {
			os.Exit(2)
		}
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "gen":
		cmdGen(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func findProp(id string) *Property {
	for i := range properties {
		if properties[i].ID == id {
			return &properties[i]
		}
	}
	return nil
}

func findStage(p *Property, name string) *Stage {
	for i := range p.Stages {
		if p.Stages[i].Name == name {
			return &p.Stages[i]
		}
	}
	return nil
}

func genCase(p *Property, st *Stage, seed uint64, i int) *Case {
	gname := st.Name
	if st.Digests != "" {
		gname = st.Digests
	}
	c := st.Gen(newRng("radix", seed, p.ID, gname, i), i)
	c.Property, c.Stage, c.Build, c.Seed, c.Index = p.ID, st.Name, st.Build, seed, i
	if err := checkUniverse(c.Keys); err != nil {
		panic(err)
	}
	return c
}

// runCase runs one case; a panic in this goroutine is a failure like any other.
func runCase(st *Stage, c *Case) (o *Outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = &Outcome{Execs: 1}
			if v, ok := e.(sched.Violation); ok {
				o.Fail = v.Msg
			} else {
				s := debug.Stack()
				if len(s) > 3000 {
					s = s[:3000]
				}
				o.Fail = fmt.Sprintf("panic: %v\n%s", e, s)
			}
		}
	}()
	return st.Run(c)
}

// ---- worker

type workerResult struct {
	Cases      int               `json:"cases"`
	Execs      int               `json:"execs"`
	Nontrivial []uint64          `json:"nontrivial"`
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Failing    *Case             `json:"failing"`
	Digests    map[string]uint64 `json:"digests"`
	Stopped    bool              `json:"stopped"` // by the time cap
	SeedsUsed  uint64            `json:"seed"`
	Finished   bool              `json:"finished"`
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	stage := fs.String("stage", "", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int("w", 0, "")
	W := fs.Int("W", 1, "")
	n := fs.Int("n", 1, "")
	only := fs.Int("only", -1, "")
	out := fs.String("out", "", "")
	cap := fs.Float64("cap", 1e9, "")
	fs.Parse(args)
	p := findProp(*prop)
	st := findStage(p, *stage)
	res := workerResult{Classes: map[string]int{}, Digests: map[string]uint64{}}
	start := time.Now()
	cur, err := os.OpenFile(*out+".cur", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	wd := newWatchdog(*out)
	from, step := *w, *W
	if *only >= 0 {
		from, step = *only, *n
	}
	seen := map[uint64]bool{}
	for i := from; i < *n; i += step {
		if time.Since(start).Seconds() > *cap {
			res.Stopped = true
			break
		}
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		c := genCase(p, st, *seed, i)
		js, _ := json.Marshal(c)
		wd.begin(c)
		o := runCase(st, c)
		res.Cases++
		if o.Execs == 0 {
			o.Execs = 1
		}
		res.Execs += o.Execs
		for k, v := range o.Classes {
			res.Classes[k] += v
		}
		if c.Kind != "" {
			res.Classes["universe-"+c.Kind]++
		}
		if st.Digests != "" {
			res.Digests[strconv.Itoa(i)] = o.Digest
		}
		if o.Fail != "" {
			f := c
			if o.Refined != nil {
				f = o.Refined
			}
			f.Failure = o.Fail
			wd.begin(f)
			if !st.NoShrink {
				f = shrink(st, f, 25*time.Second)
			}
			res.Failing = f
			break
		}
		if o.Nontrivial {
			var cc map[string]json.RawMessage
			json.Unmarshal(js, &cc)
			delete(cc, "index")
			delete(cc, "stage")
			b, _ := json.Marshal(cc)
			h := hashBytes(1, b)
			if !seen[h] {
				seen[h] = true
				res.Nontrivial = append(res.Nontrivial, h)
			}
			if len(res.Samples) < 1 && len(js) < 6000 || len(res.Samples) == 0 && i > from+step*20 {
				if len(js) > 6000 {
					js, _ = json.Marshal(string(js[:6000]) + "...")
				}
				res.Samples = append(res.Samples, js)
			}
		}
	}
	wd.finish(&res, *out)
}

// ---- check

type buildSet map[string]string

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	bins := fs.String("bins", "", "name=path,...")
	tmp := fs.String("tmp", "", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("stage", "", "")
	scale := fs.Float64("scale", 1, "")
	fs.Parse(args)
	p := findProp(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	bs := buildSet{}
	for _, x := range strings.Split(*bins, ",") {
		if i := strings.IndexByte(x, '='); i > 0 {
			bs[x[:i]] = x[i+1:]
		}
	}
	start := time.Now()
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"), p.ID)
	total := workerResult{Classes: map[string]int{}}
	nontriv := map[uint64]bool{}
	stages := []map[string]interface{}{}
	var failing *Case
	var notes []string
	digests := map[string]map[string]map[string]uint64{}
	exit := 0
	reported := map[string]bool{}
	for si := range p.Stages {
		st := &p.Stages[si]
		if *only != "" && st.Name != *only {
			continue
		}
		bin := bs[st.Build]
		if bin == "" {
			notes = append(notes, "stage "+st.Name+" skipped: build "+st.Build+" not available")
			continue
		}
		n, cap := st.Quick, float64(st.QuickS)
		if cap == 0 {
			cap = 25
		}
		if *tier == "thorough" {
			n = st.Thorough
			if n == 0 {
				n = st.Quick * 20
			}
			cap *= 16
		}
		n = int(float64(n) * *scale)
		if n < 1 {
			n = 1
		}
		rs, fail, err := runStage(bin, p, st, *seed, n, W, cap, *tmp)
		if err != nil {
			fmt.Fprintf(os.Stderr, "rv: stage %s: %v\n", st.Name, err)
			exit = 2
			if fail == nil {
				continue
			}
		}
		sc, se, sn, stopped := 0, 0, 0, false
		for _, r := range rs {
			sc += r.Cases
			se += r.Execs
			for _, h := range r.Nontrivial {
				if !nontriv[h] {
					nontriv[h] = true
					sn++
				}
			}
			for k, v := range r.Classes {
				total.Classes[k] += v
			}
			for _, s := range r.Samples {
				if len(total.Samples) < 6 {
					total.Samples = append(total.Samples, s)
				}
			}
			stopped = stopped || r.Stopped
			if st.Digests != "" {
				if digests[st.Digests] == nil {
					digests[st.Digests] = map[string]map[string]uint64{}
				}
				if digests[st.Digests][st.Name] == nil {
					digests[st.Digests][st.Name] = map[string]uint64{}
				}
				for k, v := range r.Digests {
					digests[st.Digests][st.Name][k] = v
				}
			}
		}
		total.Cases += sc
		total.Execs += se
		stages = append(stages, map[string]interface{}{"stage": st.Name, "build": st.Build, "cases": sc, "planned": n, "executions": se, "distinct_nontrivial": sn, "time_capped": stopped})
		if fail != nil {
			if k := known.match(fail); k != "" {
				if !reported[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
					reported[k] = true
				}
			} else {
				failing = fail
				break
			}
		}
	}
	for _, k := range known.list {
		if !reported[k.text] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}
	if failing == nil {
		failing = compareDigests(p, digests, *seed)
	}
	viol := 0
	if failing != nil {
		viol = 1
	}
	var samples []interface{}
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": total.Execs, "cases": total.Cases, "distinct_nontrivial": len(nontriv), "rule": p.Rule,
			"samples": samples, "classes": total.Classes, "stages": stages,
		},
		"assumptions": []string{"keys are non-empty and no key is a prefix of another key ever inserted into the tree (documented limitation 4)",
			"controlled schedules are sequentially consistent; hardware reordering of plain (non-atomic) accesses is left to C25's race detector"},
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if len(notes) > 0 {
		ev["coverage"].(map[string]interface{})["notes"] = notes
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit = 2
	}
	if failing != nil {
		path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, failing.Stage, failing.Index))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(failing, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s\n", printable(firstLines(failing.Failure, 12)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if exit == 0 {
		fmt.Printf("OK property=%s cases=%d executions=%d nontrivial=%d wall=%.1fs\n", p.ID, total.Cases, total.Execs, len(nontriv), time.Since(start).Seconds())
	}
	return exit
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func compareDigests(p *Property, d map[string]map[string]map[string]uint64, seed uint64) *Case {
	for group, byStage := range d {
		var names []string
		for n := range byStage {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names[1:] {
			var idx []int
			for k := range byStage[n] {
				i, _ := strconv.Atoi(k)
				idx = append(idx, i)
			}
			sort.Ints(idx)
			for _, i := range idx {
				k := strconv.Itoa(i)
				a, ok := byStage[names[0]][k]
				if ok && a != byStage[n][k] {
					c := genCase(p, findStage(p, n), seed, i)
					c.Failure = fmt.Sprintf("case %d of %s: results differ between stages %s and %s", i, group, names[0], n)
					return c
				}
			}
		}
	}
	return nil
}

// runStage runs the workers of a stage; a worker that dies is a failure of its current case if that reproduces.
func runStage(bin string, p *Property, st *Stage, seed uint64, n, W int, cap float64, tmp string) (rs []workerResult, fail *Case, err error) {
	if n < W {
		W = n
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var fails []*Case
	for w := 0; w < W; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("%s-%s-%d", p.ID, st.Name, w))
			base := []string{"worker", "-prop", p.ID, "-stage", st.Name, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n)}
			limit := time.Duration(cap*float64(time.Second)) + 240*time.Second
			r, msg, kind := spawn(bin, append(base, "-w", fmt.Sprint(w), "-W", fmt.Sprint(W), "-cap", fmt.Sprint(cap), "-out", out), out, limit)
			mu.Lock()
			defer mu.Unlock()
			switch kind {
			case "ok":
				rs = append(rs, r)
				if r.Failing != nil {
					fails = append(fails, r.Failing)
				}
				return
			case "crash", "hang":
				b, _ := os.ReadFile(out + ".cur")
				i, e := strconv.Atoi(strings.TrimSpace(string(b)))
				if e != nil {
					err = fmt.Errorf("worker failed before its first case: %s", msg)
					return
				}
				mu.Unlock()
				r2, msg2, kind2 := spawn(bin, append(base, "-only", fmt.Sprint(i), "-out", out+".again"), out+".again", 240*time.Second)
				mu.Lock()
				c := genCase(p, st, seed, i)
				switch {
				case kind2 == "crash":
					c.Failure = "the process died: " + msg2
					fails = append(fails, c)
				case kind2 == "ok" && r2.Failing != nil:
					fails = append(fails, r2.Failing)
				case kind == "crash":
					// a crash that a single case does not reproduce may need the garbage collector or other
					// threads in an unlucky state; the code under test crashed all the same, if its frames show it
					if strings.Contains(msg, "github.com/jayloop/radix") {
						c.Failure = "the process died (not on every run): " + msg
						fails = append(fails, c)
					} else {
						err = fmt.Errorf("worker died at case %d without reproducing: %s", i, msg)
					}
				default:
					err = fmt.Errorf("worker exceeded its time limit at case %d: %s", i, firstLines(msg, 5))
				}
			default:
				err = fmt.Errorf("%s: %s", kind, msg)
			}
		}()
	}
	wg.Wait()
	for _, f := range fails {
		if fail == nil || f.Index < fail.Index {
			fail = f
		}
	}
	return
}

func spawn(bin string, args []string, out string, limit time.Duration) (r workerResult, msg, kind string) {
	os.Remove(out)
	cmd := exec.Command(bin, args...)
	var stderr, stdout bytes.Buffer
	cmd.Stderr = &limitW{b: &stderr, n: 1 << 20}
	cmd.Stdout = &limitW{b: &stdout, n: 1 << 16}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "RV_SHARE="+filepath.Dir(out))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return r, err.Error(), "error"
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		return r, tailOf(stderr.String()), "hang"
	}
	if werr == nil {
		b, err := os.ReadFile(out)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || !r.Finished {
			return r, fmt.Sprint("worker result unreadable: ", err), "error"
		}
		return r, "", "ok"
	}
	if ee, ok := werr.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok {
			if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				return r, "worker was killed (out of memory?)", "killed"
			}
		}
	}
	s := stderr.String()
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate") {
		return r, tailOf(s), "memory"
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return r, s, "crash"
}

func tailOf(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if r := l.n - l.b.Len(); r > 0 {
		if len(p) < r {
			r = len(p)
		}
		l.b.Write(p[:r])
	}
	return len(p), nil
}

// ---- replay

func cmdReplay(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: rv replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProp(c.Property)
	st := findStage(p, c.Stage)
	wd := newWatchdog("")
	wd.fire = func(f *Case) {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", printable(f.Failure), c.Property, args[0])
		os.Exit(1)
	}
	c.Failure = ""
	wd.begin(&c)
	o := runCase(st, &c)
	if o.Fail != "" {
		fmt.Println(printable(o.Fail))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, args[0])
		return 1
	}
	fmt.Println("replay passes")
	return 0
}

func cmdGen(args []string) {
	p := findProp(args[0])
	st := findStage(p, args[1])
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	i, _ := strconv.Atoi(args[3])
	b, _ := json.MarshalIndent(genCase(p, st, seed, i), "", " ")
	fmt.Println(string(b))
}

// ---- known findings

type knownFinding struct{ sig, text string }
type knownSet struct{ list []knownFinding }

// loadKnown reads lines "known: property=<id> sig=<substring of the failure>|<what fails>".
func loadKnown(path, prop string) (k knownSet) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = l[len("known: property="+prop+" "):]
		if !strings.HasPrefix(l, "sig=") {
			continue
		}
		if i := strings.IndexByte(l, '|'); i > 4 {
			k.list = append(k.list, knownFinding{l[4:i], strings.TrimSpace(l[i+1:])})
		}
	}
	return
}

func (k knownSet) match(c *Case) string {
	for _, f := range k.list {
		if strings.HasPrefix(c.Failure, f.sig) {
			return f.text
		}
	}
	return ""
}

// printable replaces what does not belong in a line of text.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c != '\n' && c != '\t' && (c < 32 || c == 127 || c == 0xfffd) {
			return '?'
		}
		return c
	}, s)
}
