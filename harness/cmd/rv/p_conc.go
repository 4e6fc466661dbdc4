package main

import (
	"sort"

	"radixverif/shim/sched"
)

type concOpts struct {
	tasks   [2]int // number of tasks
	ops     [2]int // operations per task
	w       weights
	keys    int // at most
	kind    string
	scanner bool // task 0 only scans, others sometimes do
	lens    bool // tasks with an allocator of their own use no other
	save    bool // save and load the tree when all is done
	focus   int  // operations stay within this distance of one key (0: anywhere)
	own     int  // percentage of tasks with an allocator of their own
	scarce  bool // fewer allocators than tasks
	mode    string
	limit   uint64
	fill    int // percentage of keys to start with; 0: any
}

// concUniverse makes a small key set full of merge and split situations.
func concUniverse(r *Rng, max int) ([][]byte, string) {
	switch r.N(10) {
	case 0: // one node about to become, or being, wide
		return genUniverse(r, uniOpts{kind: "wide", maxKeys: maxInt(max, 131)})
	case 1:
		return genUniverse(r, uniOpts{kind: "ladder", maxKeys: max})
	case 2, 3:
		return genUniverse(r, uniOpts{maxKeys: max})
	}
	// chains of two-child nodes with short runs, possibly below a common run
	var ks [][]byte
	stem := make([]byte, r.pick(0, 0, 0, 1, 3, 8, 9, 254, 255, 256))
	for i := range stem {
		stem[i] = byte(r.N(256))
	}
	n := r.In(2, max)
	alphabet := r.pick(2, 2, 3, 4)
	depth := r.In(2, 6)
	seen := map[string]bool{}
	for tries := 0; len(ks) < n && tries < 200; tries++ {
		k := append([]byte(nil), stem...)
		for d := 0; d < depth; d++ {
			b := byte(r.N(alphabet)) * 60
			k = append(k, b)
			for j := b % 7; j > 3; j-- {
				k = append(k, b+j)
			}
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			ks = append(ks, k)
		}
	}
	if len(ks) < 2 {
		return genUniverse(r, uniOpts{kind: "tiny", maxKeys: 6})
	}
	return prefixFree(ks), "chains"
}

// wideSplit makes a wide node behind a run, and a few keys that leave the run on the way or sit right below it.
func wideSplit(r *Rng) [][]byte {
	n := r.pick(1, 2, 3, 9, 255)
	stem := make([]byte, n)
	for i := range stem {
		stem[i] = byte(r.N(256))
	}
	var ks [][]byte
	for m := r.In(1, 3); m > 0; m-- {
		c := r.N(n)
		ks = append(ks, cat(stem[:c], []byte{stem[c] ^ byte(1+r.N(255))}, []byte{byte(r.N(256))}))
	}
	for i, b := range fanBytes(r, r.In(127, 134)) {
		k := cat(stem, []byte{b})
		if i < 3 {
			ks = append(ks, cat(k, []byte{1, 2}), cat(k, []byte{1, 3}))
			continue
		}
		ks = append(ks, k)
	}
	return prefixFree(ks)
}

func concGen(o concOpts) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var ks [][]byte
		kd := o.kind
		if o.kind == "widesplit" {
			ks, kd = wideSplit(r), o.kind
		} else if o.kind != "" {
			ks, kd = genUniverse(r, uniOpts{kind: o.kind, maxKeys: o.keys})
		} else {
			ks, kd = concUniverse(r, o.keys)
		}
		return concCase(r, o, ks, kd)
	}
}

func concCase(r *Rng, o concOpts, ks [][]byte, kd string) *Case {
	c := &Case{Kind: kd, Keys: toHx(ks), Vmode: r.N(3), P: map[string]int{}}
	if r.P(15) {
		c.P["again"] = r.pick(20, 60)
	}
	nt := r.In(o.tasks[0], o.tasks[1])
	fill := o.fill
	if fill == 0 {
		fill = r.pick(30, 60, 80, 100, 100)
	}
	for _, i := range r.perm(len(ks)) {
		if r.P(fill) {
			c.Setup = append(c.Setup, Op{K: "put", I: i})
		}
	}
	if len(ks) > 120 && r.P(50) {
		// a wide node that was thinned out again
		for _, i := range r.perm(len(ks)) {
			if r.P(60) {
				c.Setup = append(c.Setup, Op{K: "del", I: i})
			}
		}
	} else if r.P(40) {
		for _, i := range r.perm(len(ks)) {
			if r.P(20) {
				c.Setup = append(c.Setup, Op{K: "del", I: i})
			}
		}
	}
	focus := r.N(len(ks))
	var splitters []int
	if kd == "widesplit" {
		l := modeLen(ks)
		for i, k := range ks {
			if len(k) != l {
				splitters = append(splitters, i)
			}
		}
		if len(splitters) == 0 {
			splitters = []int{0}
		}
	}
	owns := 0
	scanTasks := r.N(3)
	for t := 0; t < nt; t++ {
		own := r.P(o.own)
		var ops []Op
		for n := r.In(o.ops[0], o.ops[1]); n > 0; n-- {
			w := o.w
			if o.scanner && (t == 0 || t < nt-1 && t%2 == scanTasks) {
				w = weights{{"scan", 5}, {"count", 2}, {"min", 2}, {"max", 2}}
			}
			op := genOther(r, c.Keys, w.pick(r), r.N(2))
			if op.K == "scan" || op.K == "count" || op.K == "min" || op.K == "max" {
				if r.P(50) {
					op.Q = nil
				}
			} else if o.focus > 0 {
				op.I = ((focus+r.In(-o.focus, o.focus))%len(ks) + len(ks)) % len(ks)
				if kd == "widesplit" && r.P(55) {
					op.I = splitters[r.N(len(splitters))]
				}
			}
			if o.lens && own {
				op.V = 1
				if op.K == "len" {
					op.K = "flush"
				}
			}
			ops = append(ops, op)
		}
		c.Tasks = append(c.Tasks, ops)
		if own {
			owns |= 1 << uint(t)
		}
	}
	c.P["own"] = owns
	if o.save {
		c.P["save"] = r.In(1, 2)
	}
	c.NAlloc = 2 * nt
	if o.scarce && owns == 0 {
		c.NAlloc = r.In(1, nt)
	}
	c.Sched = genSched(r, o.mode, o.limit)
	return c
}

// crossGen: two operations that stand still in the middle, and a third task that changes everything around them.
func crossGen(r *Rng, i int) *Case { return crossCase(r) }

// crossScanGen: the first operation is a search.
func crossScanGen(r *Rng, i int) *Case {
	c := crossCase(r)
	op := genOther(r, c.Keys, weights{{"scan", 5}, {"count", 3}, {"min", 2}, {"max", 2}}.pick(r), 0)
	if r.P(60) {
		op.Q = nil
	}
	op.N |= r.N(2)
	c.Tasks[0] = []Op{op}
	return c
}

func crossCase(r *Rng) *Case {
	upd := weights{{"put", 8}, {"del", 5}, {"abu", 1}, {"abd", 1}}
	o := concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 1}, w: upd, mode: "cross", limit: 150}
	if r.P(60) {
		return spineCase(r, o)
	}
	ks, kd := concUniverse(r, r.In(4, 12))
	if r.P(50) {
		// fixed-length keys over a few bytes: every node has several children, on three or four levels
		d, a := r.In(3, 4), r.In(2, 3)
		seen := map[string]bool{}
		ks = ks[:0]
		for n := r.In(6, 24); n > 0; n-- {
			k := make([]byte, d)
			for j := range k {
				k[j] = byte('a' + r.N(a))
			}
			if !seen[string(k)] {
				seen[string(k)] = true
				ks = append(ks, k)
			}
		}
		ks, kd = prefixFree(ks), "levels"
	}
	c := concCase(r, o, ks, kd)
	near := c.Tasks[0][0].I
	var ops []Op
	for n := r.In(2, 5); n > 0; n-- {
		op := genOther(r, c.Keys, []string{"put", "del"}[r.N(2)], r.N(2))
		if r.P(60) {
			op.I = ((near+r.In(-3, 3))%len(ks) + len(ks)) % len(ks)
		}
		ops = append(ops, op)
	}
	c.Tasks = append(c.Tasks, ops)
	c.NAlloc = 6
	return c
}

// spineCase: one path of nodes with leaves at every level; the first operation works at some level, the others at the
// levels right above, one each.
func spineCase(r *Rng, o concOpts) *Case {
	depth := r.In(2, 5)
	var ks [][]byte
	stem := []byte{}
	level := map[string]int{}
	for d := 0; d < depth; d++ {
		for n := r.In(1, 4); n > 0; n-- {
			k := cat(stem, []byte{byte('b' + 2*n)})
			level[string(k)] = d
			ks = append(ks, k)
		}
		stem = append(stem, byte('a'+2*r.N(6)))
		for n := r.pick(0, 0, 0, 1, 8); n > 0; n-- {
			stem = append(stem, byte(n))
		}
	}
	for n := r.In(1, 2); n > 0; n-- {
		ks = append(ks, cat(stem, []byte{byte('0' + n)}))
		level[string(ks[len(ks)-1])] = depth
	}
	ks = prefixFree(ks)
	c := &Case{Kind: "spine", Keys: toHx(ks), Vmode: r.N(3), P: map[string]int{}, NAlloc: 6}
	for _, i := range r.perm(len(ks)) {
		if r.P(60) || level[string(ks[i])] == depth {
			c.Setup = append(c.Setup, Op{K: "put", I: i})
		}
	}
	at := func(l int) Op {
		var in []int
		for i, k := range ks {
			if level[string(k)] == l {
				in = append(in, i)
			}
		}
		if len(in) == 0 {
			in = []int{r.N(len(ks))}
		}
		return Op{K: o.w.pick(r), I: in[r.N(len(in))], V: r.N(2)}
	}
	d := r.In(0, depth)
	c.Tasks = [][]Op{{at(d)}, {at(r.In(0, d))}}
	top := r.In(0, d)
	var ops []Op
	for l := top; l <= d || len(ops) == 0; l++ {
		if r.P(85) {
			ops = append(ops, at(l))
		}
	}
	if r.P(25) {
		ops = append(ops, at(r.In(0, depth)))
	}
	c.Tasks = append(c.Tasks, ops)
	c.P["own"] = r.pick(0, 0, 0, r.N(8))
	c.Sched = genSched(r, o.mode, o.limit)
	return c
}

// modeLen is the most frequent key length.
func modeLen(ks [][]byte) int {
	n := map[int]int{}
	best := 0
	for _, k := range ks {
		n[len(k)]++
		if n[len(k)] > n[best] {
			best = len(k)
		}
	}
	return best
}

func genSched(r *Rng, mode string, limit uint64) *Sched {
	if mode == "mixed" {
		mode = []string{"random", "random", "pct", "pct"}[r.N(4)]
	}
	switch mode {
	case "cross":
		return &Sched{Mode: "cross", Limit: limit}
	case "enum":
		return &Sched{Mode: "enum", Limit: limit}
	case "harness":
		return &Sched{Mode: "random", Seed: r.U64(), Harn: r.pick(8000, 20000, 40000, 65000), First: r.N(2)}
	case "pct":
		return &Sched{Mode: "pct", Seed: r.U64(), Depth: r.In(1, 5), Len: uint64(r.pick(200, 600, 2000, 8000))}
	}
	return &Sched{Mode: "random", Seed: r.U64(), Stmt: r.pick(0, 100, 1000, 6000), Atom: r.pick(300, 2000, 8000, 25000), Harn: r.pick(0, 5000, 30000), First: r.N(2)}
}

// multi repeats a case under several random schedules.
func runConcMany(n int) func(c *Case) *Outcome {
	return func(c *Case) *Outcome {
		out := &Outcome{}
		if c.Sched != nil && (c.Sched.Mode == "list" || c.P["single"] > 0) {
			return runConc(c)
		}
		for i := 0; i < n; i++ {
			x := clone(c)
			if i > 0 {
				x.Sched = genSched(newRng("many", c.Seed, c.Index, i), "mixed", 0)
				if c.Sched.Stmt == 0 && c.Sched.Atom == 0 && c.Sched.Mode == "random" {
					x.Sched = genSched(newRng("many", c.Seed, c.Index, i), "harness", 0)
				}
			}
			o := runConc(x)
			merge(out, o)
			if o.Fail != "" {
				out.Fail, out.Refined = o.Fail, o.Refined
				if out.Refined == nil {
					x.P["single"] = 1
					out.Refined = x
				}
				return out
			}
		}
		return out
	}
}

// spread is the generator with some cases in which the allocators in use are far apart among many.
func spread(gen func(r *Rng, i int) *Case) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		c := gen(r, i)
		n := r.pick(0, 0, 0, 0, 0, 0, 0, 8, 16, 32, 64, r.In(2, 70))
		if n*c.NAlloc > 200 {
			n = r.pick(0, 16)
		}
		if n == 0 || c.NAlloc < 2 {
			return c
		}
		for _, ops := range c.Tasks {
			for _, op := range ops {
				switch op.K {
				case "get", "put", "ins", "upd", "del", "abu", "abd", "scan", "count", "min", "max":
				default:
					return c
				}
			}
		}
		c.P["spread"] = n
		return c
	}
}

func churnAdminGen(r *Rng, i int) *Case {
	c := churnGen(false)(r, i)
	op := &c.Tasks[0][0]
	*op = genOther(r, c.Keys, "admin", 0)
	if r.P(70) {
		op.A = [][]string{{"root"}, {"node", "@1"}, {"node", "@2"}, {"node", "@5"}, {"info"}, {"blocks"}}[r.N(6)]
	}
	return c
}

// churnGen: one reader or pending operation, and a task that changes and reuses as much memory as possible.
func churnGen(long bool) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		var ks [][]byte
		var kd string
		if r.P(70) {
			ks, kd = concUniverse(r, r.In(4, 14))
		} else {
			ks, kd = genUniverse(r, uniOpts{maxKeys: r.pick(10, 30, 140)})
		}
		c := &Case{Kind: kd, Keys: toHx(ks), Vmode: r.N(3), P: map[string]int{}, NAlloc: 5}
		nk := len(ks)
		for _, i := range r.perm(nk) {
			if r.P(85) {
				c.Setup = append(c.Setup, Op{K: "put", I: i})
			}
		}
		// the first task does one thing
		kind := weights{{"get", 8}, {"getq", 2}, {"scan", 6}, {"count", 4}, {"min", 3}, {"max", 3}, {"put", 4}, {"del", 4}, {"abu", 2}, {"abd", 2}}.pick(r)
		op := genOther(r, c.Keys, kind, r.N(2))
		op.N |= 1
		if r.P(50) && (kind == "scan" || kind == "count" || kind == "min" || kind == "max") {
			op.Q = nil
		}
		own := r.N(4)
		c.P["own"] = own
		// the second changes everything except, sometimes, the key the first looks at
		spare := r.P(60)
		n := r.In(10, 40)
		if long {
			n = r.In(30, 120)
		}
		if metaInt("epoch") == 0 {
			n = 1300
		}
		var ops []Op
		order := r.perm(nk)
		style := r.N(3)
		for len(ops) < n {
			switch style {
			case 0: // random
				ops = append(ops, Op{K: []string{"put", "del"}[r.N(2)], I: r.N(nk), V: 1})
			case 1: // drain and refill
				for _, k := range order {
					ops = append(ops, Op{K: "del", I: k, V: 1})
				}
				for _, k := range order {
					ops = append(ops, Op{K: "put", I: k, V: 1})
				}
			case 2: // toggle a few
				k := order[r.N(minInt(4, nk))]
				ops = append(ops, Op{K: "del", I: k, V: 1}, Op{K: "put", I: k, V: 1})
			}
		}
		if spare {
			var o2 []Op
			for _, o := range ops {
				if o.I != op.I {
					o2 = append(o2, o)
				}
			}
			ops = o2
		}
		if len(ops) > 3*n {
			ops = ops[:3*n]
		}
		c.Tasks = [][]Op{{op}, ops}
		c.Sched = &Sched{Mode: "enum0", Limit: 90}
		if r.P(15) {
			// a third one reads along
			c.Tasks = append(c.Tasks, []Op{genOther(r, c.Keys, "get", 0), genOther(r, c.Keys, "scan", 0)})
			c.NAlloc = 6
		}
		return c
	}
}

// bigGen: a search through a large tree is suspended while others rebuild the nodes it has on its stack, and those around.
func bigGen(r *Rng, i int) *Case {
	sym := r.pick(2, 3, 5)
	l := map[int]int{2: 14, 3: 9, 5: 6}[sym]
	seen := map[string]bool{}
	var base []string
	for n := r.pick(700, 1500, 3000); len(base) < n; {
		b := make([]byte, l)
		for j := range b {
			b[j] = byte('b' + 2*r.N(sym))
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			base = append(base, string(b))
		}
	}
	sort.Strings(base)
	c := &Case{Kind: "big", Vmode: r.N(3), P: map[string]int{}, NAlloc: 6}
	focus := r.N(len(base))
	all := append([]string(nil), base...)
	var extra []string
	for n := r.In(20, 60); n > 0; n-- {
		j := ((focus+r.pick(0, 0, 0, -1, 1, -r.N(30), r.N(30), r.N(len(base))))%len(base) + len(base)) % len(base)
		k := base[j]
		k = k[:r.pick(r.N(l), r.N(l), r.N(3))] + string([]byte{byte('a' + 2*r.N(sym+1))})
		if !seen[k] {
			seen[k] = true
			extra = append(extra, k)
		}
	}
	all = append(all, extra...)
	sort.Strings(all)
	pos := map[string]int{}
	for j, k := range all {
		c.Keys = append(c.Keys, hx(k))
		pos[k] = j
	}
	for _, j := range r.perm(len(base)) {
		c.Setup = append(c.Setup, Op{K: "put", I: pos[base[j]]})
	}
	kind := weights{{"scan", 5}, {"count", 6}}.pick(r)
	op := Op{K: kind, N: 1}
	at := 1000 * focus / len(base)
	if r.P(25) {
		op.Q = hx(base[focus][:1])
		at = r.N(1000)
	}
	c.P["at"] = at
	for t := r.pick(1, 2, 2, 2); t > 0; t-- {
		var ops []Op
		in := map[int]bool{}
		for n := r.In(30, 120); n > 0; n-- {
			j := pos[extra[r.N(len(extra))]]
			k := "put"
			if in[j] {
				k = "del"
			}
			in[j] = !in[j]
			ops = append(ops, Op{K: k, I: j, V: 1})
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Tasks = append([][]Op{{op}}, c.Tasks...)
	c.P["own"] = r.N(8)
	c.Sched = &Sched{Mode: "enum0", Limit: 6}
	return c
}

// runBig suspends the search near the place where the others are at work.
func runBig(c *Case) *Outcome {
	if c.Sched == nil || c.Sched.Mode != "enum0" {
		return runConc(c)
	}
	out := &Outcome{}
	r := newRng("big", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := execConc(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	base := try(&Sched{Mode: "list", First: 0})
	if base == nil {
		return out
	}
	points := int(base.Local(0))
	for n := uint64(0); n < c.Sched.Limit; n++ {
		at := c.P["at"]*points/1000 + r.pick(0, 0, 1)*r.In(-points/40, points/40)
		if at < 1 || at > points {
			at = r.In(1, points)
		}
		l := []sched.Switch{{Task: 0, Local: uint64(at), To: 1}}
		if r.P(75) {
			// the search gets on a good stretch, then the same one or another goes on
			l = append(l, sched.Switch{Task: 1, Local: uint64(r.In(1, int(base.Local(1)))), To: 0},
				sched.Switch{Task: 0, Local: uint64(at + r.In(1, r.pick(200, 2000, points-at+1))), To: r.In(1, len(c.Tasks)-1)})
		}
		if try(&Sched{Mode: "list", First: 0, List: l}) == nil {
			return out
		}
	}
	return out
}

// handGen: the reader gets the allocator of the churning task right when that one gives it back, or nearly so.
func handGen(r *Rng, i int) *Case {
	c := churnGen(false)(r, i)
	c.Tasks = c.Tasks[:2]
	c.P["own"] = 0
	c.P["hand"] = r.In(60, 160)
	c.NAlloc = r.pick(2, 2, 3)
	return c
}

// runHand suspends the churning task at each of its first points, lets the reader take some steps, and goes on.
func runHand(c *Case) *Outcome {
	if c.Sched == nil || c.Sched.Mode != "enum0" {
		return runConc(c)
	}
	out := &Outcome{}
	r := newRng("hand", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := execConc(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	base := try(&Sched{Mode: "list", First: 1})
	if base == nil {
		return out
	}
	points := base.Local(1)
	if points == 0 || base.Local(0) == 0 {
		return out
	}
	// a stretch of consecutive points somewhere in the first half
	from := 1 + uint64(r.N(int(points/2)+1))
	for at := from; at <= points && at < from+uint64(c.P["hand"]); at++ {
		l := []sched.Switch{{Task: 1, Local: at, To: 0}, {Task: 0, Local: 1 + uint64(r.N(int(base.Local(0)))), To: 1}}
		if try(&Sched{Mode: "list", First: 1, List: l}) == nil {
			return out
		}
	}
	return out
}

// lateGen: a writer stands still in the middle of an operation while others move the epochs on; then a search begins and
// stands still, too; the writer finishes and goes on for long.
func lateGen(r *Rng, i int) *Case {
	// two parts of the tree, which share no node but the root
	var ks [][]byte
	var parts [2][]int
	part := map[string]int{}
	for g := 0; g < 2; g++ {
		stem := cat([]byte{byte('m' + g)}, []byte("0123456789"[:r.pick(0, 0, 0, 1, 3, 9)]))
		sub, _ := concUniverse(r, r.In(3, 9))
		for _, k := range sub {
			k = cat(stem, k)
			part[string(k)] = g
			ks = append(ks, k)
		}
		if r.P(80) {
			// the part begins with a node of its own
			for n := r.In(1, 3); n > 0; n-- {
				k := cat(stem, []byte{byte(n)})
				part[string(k)] = g
				ks = append(ks, k)
			}
		}
	}
	ks = prefixFree(ks)
	for i, k := range ks {
		parts[part[string(k)]] = append(parts[part[string(k)]], i)
	}
	c := &Case{Kind: "parts", Keys: toHx(ks), Vmode: r.N(3), P: map[string]int{"own": r.N(8)}, NAlloc: 6}
	for _, i := range r.perm(len(ks)) {
		if r.P(85) {
			c.Setup = append(c.Setup, Op{K: "put", I: i})
		}
	}
	toggle := func(in []int, n int) (ops []Op) {
		if len(in) == 0 {
			in = []int{0}
		}
		few := in
		if r.P(50) {
			few = nil
			for j := r.In(1, 3); j > 0; j-- {
				few = append(few, in[r.N(len(in))])
			}
		}
		for ; n > 0; n-- {
			ops = append(ops, Op{K: []string{"put", "del"}[r.N(2)], I: few[r.N(len(few))], V: 1})
		}
		return
	}
	read := genOther(r, c.Keys, weights{{"get", 4}, {"scan", 6}, {"count", 3}, {"min", 2}, {"max", 2}, {"put", 3}, {"del", 3}}.pick(r), r.N(2))
	read.N |= 1
	if r.P(60) && read.K != "put" && read.K != "del" {
		read.Q = nil
	}
	if len(parts[0]) > 0 {
		read.I = parts[0][r.N(len(parts[0]))]
	}
	first := toggle(parts[0], 1)
	first[0].V = r.N(2)
	all := append(append([]int(nil), parts[0]...), parts[1]...)
	c.Tasks = [][]Op{{read}, append(append(first, toggle(parts[r.N(2)], r.In(5, 30))...), toggle(all, r.In(5, 40))...), toggle(parts[1], r.In(8, 40))}
	c.Sched = &Sched{Mode: "enum0", Limit: 60}
	return c
}

// runLate: the writer up to a point of its first operation, the other to its end, the search up to a point, the writer
// to its end, and the search.
func runLate(c *Case) *Outcome {
	if c.Sched == nil || c.Sched.Mode != "enum0" {
		return runConc(c)
	}
	out := &Outcome{}
	r := newRng("late", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := execConc(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	var marks [2][]uint64
	var points [2]uint64
	for i := range marks {
		base := try(&Sched{Mode: "list", First: i})
		if base == nil {
			return out
		}
		if marks[i], points[i] = base.Marks(i), base.Local(i); len(marks[i]) == 0 {
			return out
		}
	}
	w := marks[1][:minInt(len(marks[1]), 30)]
	for n := uint64(0); n < c.Sched.Limit; n++ {
		p := marks[0][r.N(len(marks[0]))]
		if r.P(30) {
			p = 1 + uint64(r.N(int(points[0])))
		}
		l := []sched.Switch{{Task: 1, Local: w[r.N(len(w))], To: 2}, {Task: 0, Local: p, To: 1}}
		if try(&Sched{Mode: "list", First: 1, List: l}) == nil {
			return out
		}
	}
	return out
}

// runChurn suspends the first task at each of its points, lets the others run to their end, and resumes it.
func runChurn(c *Case) *Outcome {
	if c.Sched == nil || c.Sched.Mode != "enum0" {
		return runConc(c)
	}
	out := &Outcome{}
	r := newRng("churn", c.Seed, c.Index)
	try := func(s *Sched) *sched.Run {
		o, run := execConc(c, s)
		merge(out, o)
		if o.Fail != "" {
			out.Fail = o.Fail
			out.Refined = clone(c)
			out.Refined.Sched = s
			return nil
		}
		return run
	}
	base := try(&Sched{Mode: "list", First: 0})
	if base == nil {
		return out
	}
	points := base.Local(0)
	step := uint64(1)
	if c.Sched.Limit > 0 && points > c.Sched.Limit {
		step = (points + c.Sched.Limit - 1) / c.Sched.Limit
	}
	at := uint64(1)
	if step > 1 {
		at += uint64(r.N(int(step)))
	}
	for ; at <= points; at += step {
		l := []sched.Switch{{Task: 0, Local: at, To: 1}}
		if r.P(40) {
			// stop the churn in the middle, too, for the first to take another stretch
			n := uint64(r.In(1, int(base.Local(1))+1))
			l = append(l, sched.Switch{Task: 1, Local: n, To: 0}, sched.Switch{Task: 0, Local: at + uint64(r.In(1, 60)), To: 1})
		}
		if try(&Sched{Mode: "list", First: 0, List: l}) == nil {
			return out
		}
	}
	return out
}

func init() {
	upd := weights{{"put", 8}, {"ins", 4}, {"upd", 4}, {"del", 9}, {"get", 4}, {"abu", 2}, {"abd", 2}}
	mut := weights{{"put", 8}, {"ins", 3}, {"upd", 3}, {"del", 10}}
	addProp(Property{ID: "C08", Level: "exploration",
		Rule: "two to six tasks whose prepared operations stay pending while others run whole operations, and the exhaustive placement of one operation inside another; every history checked for a sequential explanation including a final read of all keys; non-trivial if an operation overlapped a successful change by another task",
		Stages: []Stage{
			{Name: "pending", Build: "tiny", Quick: 36000, Gen: concGen(concOpts{tasks: [2]int{2, 6}, ops: [2]int{1, 4}, w: upd, keys: 16, focus: 3, own: 30, mode: "harness"}), Run: runConcMany(3)},
			{Name: "wide", Build: "tiny", Quick: 9600, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 4}, w: upd, keys: 260, kind: "wide", focus: 4, own: 30, mode: "harness"}), Run: runConcMany(3)},
			{Name: "split", Build: "tiny", Quick: 6000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 4}, w: upd, kind: "widesplit", focus: 4, own: 30, mode: "harness"}), Run: runConcMany(3)},
			{Name: "cross", Build: "tiny", Quick: 1600, Gen: crossGen, Run: runConc},
			{Name: "scarce", Build: "tiny", Quick: 6000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 4}, w: upd, keys: 12, focus: 2, scarce: true, mode: "harness"}), Run: runConcMany(2)},
			{Name: "std", Build: "std", Quick: 2000, Gen: concGen(concOpts{tasks: [2]int{2, 6}, ops: [2]int{1, 5}, w: upd, keys: 30, focus: 3, own: 30, mode: "harness"}), Run: runConcMany(3)},
			{Name: "stdwide", Build: "std", Quick: 1200, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 4}, w: upd, keys: 260, kind: "wide", focus: 4, own: 30, mode: "harness"}), Run: runConcMany(3)},
		}})
	addProp(Property{ID: "C09", Level: "exploration",
		Rule: "two to four tasks under a controlled scheduler: every placement of one preemption at every statement and atomic operation, random and priority schedules, and real parallel goroutines; per-key linearizability check including final reads; non-trivial if an operation overlapped a successful change by another task",
		Stages: []Stage{
			{Name: "enum", Build: "tiny", Quick: 700, Gen: concGen(concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 1}, w: upd, keys: 10, focus: 2, own: 30, mode: "enum", limit: 260}), Run: runConc},
			{Name: "enum2", Build: "tiny", Quick: 300, Gen: concGen(concOpts{tasks: [2]int{2, 3}, ops: [2]int{1, 2}, w: upd, keys: 10, focus: 2, own: 30, mode: "enum", limit: 150}), Run: runConc},
			{Name: "cross", Build: "tiny", Quick: 1600, Gen: crossGen, Run: runConc},
			{Name: "wide", Build: "tiny", Quick: 60, Gen: concGen(concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 1}, w: upd, keys: 200, kind: "wide", focus: 3, own: 30, mode: "enum", limit: 150}), Run: runConc},
			{Name: "split", Build: "tiny", Quick: 80, Gen: concGen(concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 1}, w: upd, kind: "widesplit", focus: 3, own: 30, mode: "enum", limit: 150}), Run: runConc},
			{Name: "rand", Build: "tiny", Quick: 12000, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 5}, w: upd, keys: 12, focus: 2, own: 30, mode: "mixed"}), Run: runConcMany(4)},
			{Name: "scarce", Build: "tiny", Quick: 2400, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 4}, w: upd, keys: 12, focus: 2, scarce: true, mode: "mixed"}), Run: runConcMany(3)},
			{Name: "std", Build: "std", Quick: 720, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 5}, w: upd, keys: 20, focus: 2, own: 30, mode: "mixed"}), Run: runConcMany(4)},
			{Name: "parallel", Build: "plain", Quick: 256, Gen: parGen, Run: runParallel, NoShrink: true},
		}})
	addProp(Property{ID: "C10", Level: "exploration",
		Rule: "scans, counts, minimum and maximum searches next to writers under a controlled scheduler (every single preemption, random and priority schedules) and in real parallel; judged by which keys were in the tree throughout and which values at some moment; non-trivial if a scan overlapped a successful change by another task",
		Stages: []Stage{
			{Name: "enum", Build: "tiny", Quick: 600, Gen: concGen(concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 2}, w: mut, keys: 12, scanner: true, own: 30, mode: "enum", limit: 220}), Run: runConc},
			{Name: "cross", Build: "tiny", Quick: 800, Gen: crossScanGen, Run: runConc},
			{Name: "wide", Build: "tiny", Quick: 90, Gen: concGen(concOpts{tasks: [2]int{2, 2}, ops: [2]int{1, 2}, w: mut, keys: 200, kind: "wide", scanner: true, own: 30, mode: "enum", limit: 120}), Run: runConc},
			{Name: "rand", Build: "tiny", Quick: 4500, Gen: concGen(concOpts{tasks: [2]int{2, 4}, ops: [2]int{1, 6}, w: mut, keys: 20, scanner: true, own: 30, mode: "mixed"}), Run: runConcMany(4)},
			{Name: "batches", Build: "tiny", Quick: 750, Gen: scanConcGen(false), Run: runConcMany(2)},
			{Name: "std", Build: "std", Quick: 180, Gen: scanConcGen(false), Run: runConcMany(2)},
			{Name: "big", Build: "tiny", Quick: 300, QuickS: 15, Gen: bigGen, Run: runBig},
			{Name: "nodel", Build: "tiny", Quick: 450, Gen: scanConcGen(true), Run: runConcMany(2)},
			{Name: "parallel", Build: "plain", Quick: 192, Gen: parScanGen, Run: runParallel, NoShrink: true},
		}})
	addProp(Property{ID: "C11", Level: "exploration",
		Rule: "a lookup, scan or prepared operation suspended at every one of its points while other tasks churn through the epochs so that freed memory is reused at once, then resumed; judged by what was in the tree meanwhile; non-trivial if the suspended operation overlapped successful changes",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 2700, Gen: spread(churnGen(false)), Run: runChurn},
			{Name: "long", Build: "tiny", Quick: 900, Gen: spread(churnGen(true)), Run: runChurn},
			{Name: "hand", Build: "tiny", Quick: 2000, Gen: spread(handGen), Run: runHand},
			{Name: "late", Build: "tiny", Quick: 1200, Gen: spread(lateGen), Run: runLate},
			{Name: "worn", Build: "tiny", Quick: 32, QuickS: 20, Gen: wornGen, Run: runWorn, NoShrink: true},
			{Name: "big", Build: "tiny", Quick: 400, Gen: bigGen, Run: runBig},
			{Name: "batches", Build: "tiny", Quick: 900, Gen: spread(scanConcGen(false)), Run: runConcMany(2)},
			{Name: "parallel", Build: "plain", Quick: 128, Gen: parScanGen, Run: runParallel, NoShrink: true},
		}})
}

// scanConcGen makes scans of several batches next to writers.
func scanConcGen(nodel bool) func(r *Rng, i int) *Case {
	return func(r *Rng, i int) *Case {
		c := staticGen(262, 700)(r, i)
		c.Ops = nil
		w := weights{{"put", 8}, {"ins", 3}, {"upd", 3}, {"del", 10}}
		if nodel {
			w = w[:3]
		}
		nk := len(c.Keys)
		q := hx(nil)
		if r.P(30) {
			q = genPrefix(r, c.Keys)
			if len(q) > 2 {
				q = q[:r.N(3)]
			}
		}
		c.P = map[string]int{"own": r.N(4)}
		c.Tasks = append(c.Tasks, []Op{{K: "scan", Q: q, N: 1}})
		nt := r.In(1, 2)
		for t := 0; t < nt; t++ {
			var ops []Op
			focus := r.pick(255, 256, 257, 258, 260, 300, 512, 514, 0, nk-1, r.N(nk))
			span := r.pick(1, 3, 10, 60, nk)
			for n := r.In(3, 60); n > 0; n-- {
				op := genOther(r, c.Keys, w.pick(r), r.N(2))
				op.I = (((focus + r.In(-span, span)) % nk) + nk) % nk
				ops = append(ops, op)
			}
			c.Tasks = append(c.Tasks, ops)
		}
		c.NAlloc = 2 * (nt + 1)
		c.Sched = genSched(r, "mixed", 0)
		if r.P(50) {
			c.Sched = &Sched{Mode: "random", Seed: r.U64(), Stmt: r.pick(0, 20, 100), Atom: r.pick(50, 200, 1000), Harn: r.pick(10000, 40000)}
		}
		return c
	}
}
