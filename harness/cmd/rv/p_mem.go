package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/jayloop/radix"
	"radixverif/shim/sched"
)

// ---- C27: memory in proportion to content

// memBlock is the size of a block: what the first node of a tree makes it allocate.
var memBlock = sync.OnceValue(func() int {
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	st := map[string]interface{}{}
	t.Stats(st)
	n, ok := statInt(st, "block_size")
	if !ok || n == 0 {
		n, _ = statInt(st, "bytes_allocated")
	}
	t.Close()
	if n < 4096 {
		n = 4096
	}
	return int(n)
})

var debugMem = os.Getenv("RV_MEM") // a file for the measured figures

// memGen: many distinct keys of one style, without nodes of 128 or more children.
func memGen(r *Rng, i int) *Case {
	c := &Case{Kind: []string{"urls", "paths", "words", "decimal", "binary"}[r.N(5)], NAlloc: r.pick(1, 1, 2, 4, 8),
		P: map[string]int{"n": r.pick(6000, 12000, 24000), "order": r.N(3), "churn": r.pick(0, 0, 10, 50), "seed": r.N(1 << 30)}}
	if r.P(25) {
		// wide nodes: in any other order they leave memory that only nodes of other sizes can use
		c.Kind, c.NAlloc, c.P["order"], c.P["alpha"] = "codes", 1, 0, r.In(20, 126)
	}
	return c
}

func memKeys(kind string, n, alpha int, r *Rng) (ks [][]byte) {
	seen := map[string]bool{}
	syl := []string{"ka", "ro", "mi", "tel", "sun", "ba", "dor", "e", "li", "pra", "qu", "zen", "ov", "an", "ing", "er"}
	word := func() (s string) {
		for k := r.In(2, 5); k > 0; k-- {
			s += syl[r.N(len(syl))]
		}
		return
	}
	var dirs, hosts []string
	for j := 0; j < 30; j++ {
		d := ""
		for k := r.In(1, 8); k > 0; k-- {
			d += "/" + word()
		}
		dirs = append(dirs, d)
		hosts = append(hosts, "http://www."+word()+[]string{".com", ".org", ".se"}[r.N(3)])
	}
	for j := 0; len(ks) < n && j < 20*n; j++ {
		var k string
		switch kind {
		case "urls":
			k = fmt.Sprintf("%s%s/%d\x00", hosts[r.N(30)], dirs[r.N(30)], r.N(10000000))
		case "paths":
			k = fmt.Sprintf("%s/%s.%s\x00", dirs[r.N(30)], word()+word(), []string{"go", "txt", "html"}[r.N(3)])
		case "words":
			k = word() + word() + word() + "\x00"
		case "decimal":
			k = fmt.Sprintf("customer-%09d", r.N(1000000000))
		case "ints":
			x := uint32(r.N(1 << 20))
			if j == 0 {
				x = 1<<32 - 1
			}
			k = string([]byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
		case "dense":
			x := j
			k = string([]byte{byte(x >> 16), byte(x >> 8), byte(x)})
		case "codes":
			// ids over an alphabet of the given size, three quarters of them in use
			b := alpha
			if x := r.N(b * (n * 4 / 3 / b)); x >= 0 {
				k = "id-"
				for p := b * b * b; p > 0; p /= b {
					k += string([]byte{byte(' ' + x/p%b)})
				}
			}
		case "binary":
			x := r.N(1 << 24)
			for b := 0; b < 24; b++ {
				k += string([]byte{byte(x >> uint(23-b) & 1)})
			}
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, []byte(k))
		}
	}
	return
}

func runMem(c *Case) *Outcome {
	out := &Outcome{Execs: 1}
	r := newRng("mem", c.P["seed"])
	ks := memKeys(c.Kind, c.P["n"], c.P["alpha"], r)
	sorted := prefixFree(ks)
	c.Keys = toHx(sorted)
	msg := inRun(seqLimit*20, func() {
		w := newWorld(c)
		t := w.trees[0]
		order := r.perm(len(sorted))
		if c.P["order"] == 0 {
			for i := range order {
				order[i] = i
			}
		}
		var as []*radix.Allocator
		for len(as) < c.NAlloc {
			as = append(as, t.t.GetAllocator())
		}
		t.held = as
		for _, i := range order {
			t.put(i, 1+r.N(len(as)), 0)
			for r.P(c.P["churn"]) {
				j := r.N(len(sorted))
				if t.live[j] {
					t.put(j, 1+r.N(len(as)), r.N(3)) // a new value, or an aborted insert
				} else {
					t.put(j, 1+r.N(len(as)), 2) // an aborted update
				}
			}
			sched.OpDone()
		}
		f := figures(sorted)
		need := f.PrefixBytes
		for s, n := range f.Sizes {
			if s >= 128 {
				s = 256
			}
			need += s * 8 * n
		}
		st := t.statsMap()
		by, _ := statInt(st, "bytes_allocated")
		out.add("keys", len(sorted))
		if debugMem != "" {
			f, _ := os.OpenFile(debugMem, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			defer f.Close()
			fmt.Fprintf(f, "MEM %s n=%d order=%d alloc=%d churn=%d need=%d have=%d ratio=%.2f room=%.1f\n", c.Kind, len(sorted), c.P["order"], c.NAlloc, c.P["churn"], need, by, float64(by)/float64(need), (float64(by)-1.25*float64(need))/float64(memBlock()))
		}
		// a wide node leaves memory of all smaller sizes behind, on each level, as it grows
		left := 4 * 8 * c.P["alpha"] * c.P["alpha"] / 2
		if limit := need*5/4 + (8+2*c.NAlloc)*memBlock() + left; int(by) > limit {
			failf("memory: %d bytes allocated for %d keys whose nodes take %d bytes (more than %d); inserts through %d allocators, churn %d%%", by, len(sorted), need, limit, c.NAlloc, c.P["churn"])
		}
		w.closeAll()
	})
	out.Fail = msg
	out.Nontrivial = len(sorted) >= 5000
	c.Keys = nil
	return out
}

func init() {
	addProp(Property{ID: "C27", Level: "exploration",
		Rule: "a case is non-trivial when it holds at least 5000 distinct keys (in at least 60 blocks of the reduced size)",
		Stages: []Stage{
			{Name: "tiny", Build: "tiny", Quick: 300, Gen: memGen, Run: runMem, NoShrink: true},
		}})
}
