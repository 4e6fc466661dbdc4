package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
)

// Universe generation: sets of non-empty keys none of which is a prefix of another.

type uniOpts struct {
	kind    string // "" = any
	maxKeys int
	maxRun  int // longest shared run
	wide    int // percentage of fan-outs that may reach 126..256
}

var uniKinds = weights{{"trie", 46}, {"fixed", 8}, {"strings", 10}, {"ints", 8}, {"ladder", 7}, {"wide", 12}, {"tokens", 5}, {"runs", 6}, {"tiny", 6}}

func genUniverse(r *Rng, o uniOpts) ([][]byte, string) {
	kind := o.kind
	if kind == "" {
		kind = uniKinds.pick(r)
	}
	if o.maxRun == 0 {
		o.maxRun = 1400
	}
	var ks [][]byte
	switch kind {
	case "trie":
		ks = genTrie(r, o)
	case "wide":
		ks = genWide(r, o)
	case "fixed":
		l := r.pick(1, 2, 3, 4, 5, 8, 9, 16, 20)
		al := r.pick(2, 3, 4, 16, 256)
		n := r.In(2, o.maxKeys)
		for i := 0; i < n*2 && len(ks) < n; i++ {
			k := make([]byte, l)
			for j := range k {
				k[j] = alpha(r, al)
			}
			ks = append(ks, k)
		}
	case "strings":
		al := r.pick(2, 3, 26)
		n := r.In(2, o.maxKeys)
		for len(ks) < n {
			l := r.N(12)
			var k []byte
			if len(ks) > 0 && r.P(60) {
				b := ks[r.N(len(ks))]
				k = append(k, b[:r.N(len(b))]...)
			}
			for j := 0; j < l; j++ {
				k = append(k, byte('a'+r.N(al)))
			}
			ks = append(ks, append(k, 0))
			if r.P(2) {
				break
			}
		}
	case "ints":
		n := r.In(2, o.maxKeys)
		w := r.pick(2, 4, 8)
		base := r.U64()
		for i := 0; i < n; i++ {
			var v uint64
			switch {
			case r.P(60):
				v = base + uint64(i)
			case r.P(50):
				v = r.U64()
			default:
				v = 1 << uint(r.N(64))
			}
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], v)
			ks = append(ks, append([]byte(nil), b[8-w:]...))
		}
	case "ladder":
		// a comb: every level branches once
		n := r.In(3, minInt(o.maxKeys, 40))
		stem := []byte{}
		for i := 0; i < n; i++ {
			run := r.pick(0, 0, 1, 3, 7, 8)
			for j := 0; j < run; j++ {
				stem = append(stem, byte(r.N(256)))
			}
			a, b := twoBytes(r)
			ks = append(ks, cat(stem, []byte{a}, tail(r)))
			stem = append(stem, b)
		}
		ks = append(ks, append(append([]byte(nil), stem...), 7))
	case "tokens":
		toks := [][]byte{}
		for i, n := 0, r.In(2, 6); i < n; i++ {
			t := []byte{byte(i + 1)}
			for j, m := 0, r.N(14); j < m; j++ {
				t = append(t, byte(r.N(256)))
			}
			toks = append(toks, t)
		}
		n := r.In(2, o.maxKeys)
		for i := 0; i < n; i++ {
			k := []byte{}
			for j, m := 0, r.In(1, 4); j < m; j++ {
				k = append(k, toks[r.N(len(toks))]...)
			}
			ks = append(ks, append(k, 0xFF, 0xFE))
		}
	case "runs":
		// few keys, long shared runs around the interesting lengths
		run := runLen(r, o.maxRun, true)
		stem := make([]byte, run)
		for j := range stem {
			stem[j] = byte(r.N(256))
		}
		n := r.In(2, minInt(o.maxKeys, 9))
		for i := 0; i < n; i++ {
			cut := run
			if i > 1 && run > 0 {
				switch r.N(4) {
				case 0:
					cut = run - 1 - r.N(minInt(run, 20))
				case 1:
					cut = r.N(run)
				case 2:
					cut = minInt(run-1, r.pick(0, 1, 7, 8, 9, 253, 254, 255, 256, 257))
				}
			}
			k := append([]byte(nil), stem[:cut]...)
			if cut < run {
				k = append(k, stem[cut]^byte(1+r.N(255)))
			} else {
				k = append(k, byte(r.N(256)))
			}
			ks = append(ks, append(k, tail(r)...))
		}
	case "tiny":
		n := r.In(1, 4)
		a, b := twoBytes(r)
		c := byte(r.N(256))
		all := [][]byte{{a, b}, {a, a}, {b}, {c, a, b}, {a, b ^ 1, c}, {c, c}}
		for _, i := range r.perm(len(all))[:n] {
			ks = append(ks, all[i])
		}
	default:
		panic("unknown universe " + kind)
	}
	ks = prefixFree(ks)
	if len(ks) > o.maxKeys {
		// keep a random subset
		p := r.perm(len(ks))[:o.maxKeys]
		sort.Ints(p)
		sub := make([][]byte, 0, o.maxKeys)
		for _, i := range p {
			sub = append(sub, ks[i])
		}
		ks = sub
	}
	return ks, kind
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func cat(parts ...[]byte) []byte {
	var o []byte
	for _, p := range parts {
		o = append(o, p...)
	}
	return o
}

func alpha(r *Rng, n int) byte {
	switch n {
	case 2:
		return []byte{0, 0xFF}[r.N(2)]
	case 3:
		return []byte{0, 'a', 0xFF}[r.N(3)]
	case 4:
		return []byte{0, 1, 0xFE, 0xFF}[r.N(4)]
	}
	return byte(r.N(n))
}

func twoBytes(r *Rng) (byte, byte) {
	switch r.N(6) {
	case 0:
		return 0, 255
	case 1:
		return 255, 0
	case 2:
		return 0, 1
	}
	a := byte(r.N(256))
	return a, a ^ byte(1+r.N(255))
}

func tail(r *Rng) []byte {
	var n int
	switch r.N(5) {
	case 0, 1:
		n = 0
	case 2:
		n = 1
	case 3:
		n = r.N(6)
	default:
		n = r.N(20)
	}
	t := make([]byte, n)
	for i := range t {
		t[i] = byte(r.N(256))
	}
	return t
}

func runLen(r *Rng, max int, long bool) int {
	n := 0
	switch c := r.N(20); {
	case c < 7 && !long:
		n = 0
	case c < 12:
		n = r.N(10)
	case c < 14:
		n = r.pick(7, 8, 9, 15, 16, 17, 23, 24, 25)
	case c < 17:
		n = r.In(247, 264)
	case c < 18:
		n = r.In(500, 520)
	case c < 19:
		n = r.N(40)
	default:
		n = r.N(1500)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

// genTrie grows a random trie.
func genTrie(r *Rng, o uniOpts) [][]byte {
	target := 2 + r.N(o.maxKeys-1)
	if r.P(50) {
		target = 2 + r.N(minInt(o.maxKeys-1, 14))
	}
	budget := 60000 // total key bytes
	var ks [][]byte
	var grow func(stem []byte, n, depth int)
	grow = func(stem []byte, n, depth int) {
		if n <= 1 || depth > 14 {
			k := cat(stem, tail(r))
			if len(k) == 0 {
				k = []byte{byte(r.N(256))}
			}
			budget -= len(k)
			ks = append(ks, k)
			return
		}
		max := o.maxRun
		if budget < n*1500 {
			max = 20
		}
		run := runLen(r, max, false)
		if len(stem)+run > o.maxRun+100 {
			run = 0
		}
		s := append([]byte(nil), stem...)
		for i := 0; i < run; i++ {
			if r.P(30) {
				s = append(s, []byte{0, 0xFF, 'a'}[r.N(3)])
			} else {
				s = append(s, byte(r.N(256)))
			}
		}
		f := 2 + r.N(3)
		if r.P(15) {
			f = 2 + r.N(20)
		}
		if f > n {
			f = n
		}
		bs := fanBytes(r, f)
		rest := n - f
		for i, b := range bs {
			m := 1
			if rest > 0 {
				x := r.N(rest + 1)
				if i == f-1 {
					x = rest
				}
				m += x
				rest -= x
			}
			grow(append(s[:len(s):len(s)], b), m, depth+1)
		}
	}
	grow(nil, target, 0)
	return ks
}

// fanBytes picks f distinct bytes, often including the extremes.
func fanBytes(r *Rng, f int) []byte {
	if f >= 256 {
		f = 256
	}
	seen := map[byte]bool{}
	var bs []byte
	add := func(b byte) {
		if !seen[b] && len(bs) < f {
			seen[b] = true
			bs = append(bs, b)
		}
	}
	if r.P(40) {
		add(0)
	}
	if r.P(40) {
		add(255)
	}
	if r.P(15) {
		add(127)
		add(128)
	}
	if f > 100 {
		for _, b := range r.perm(256) {
			add(byte(b))
		}
		return bs
	}
	for len(bs) < f {
		add(byte(r.N(256)))
	}
	return bs
}

// genWide builds tries with branching points around the 127/128 boundary, below and above other nodes.
func genWide(r *Rng, o uniOpts) [][]byte {
	f := r.pick(126, 127, 128, 129, 130, 200, 255, 256)
	if f > o.maxKeys {
		f = o.maxKeys
	}
	var ks [][]byte
	stem := []byte{}
	if r.P(70) {
		n := runLen(r, minInt(o.maxRun, 1000), false)
		for i := 0; i < n; i++ {
			stem = append(stem, byte(r.N(256)))
		}
		if r.P(50) && n > 0 {
			// keys that split the run
			for i, m := 0, r.In(1, 3); i < m; i++ {
				c := r.N(n)
				ks = append(ks, cat(stem[:c], []byte{stem[c] ^ byte(1+r.N(255))}, tail(r)))
			}
		}
	}
	left := o.maxKeys - len(ks) - f
	for _, b := range fanBytes(r, f) {
		switch {
		case left > 0 && r.P(6):
			// a subtree below the wide node
			m := minInt(left, r.In(2, 5))
			left -= m
			run := runLen(r, 30, false)
			mid := make([]byte, run)
			for i := range mid {
				mid[i] = byte(r.N(256))
			}
			for _, c := range fanBytes(r, m) {
				ks = append(ks, cat(stem, []byte{b}, mid, []byte{c}, tail(r)))
			}
		case left > 100 && r.P(2):
			g := minInt(left, r.pick(127, 128, 129))
			left -= g
			for _, c := range fanBytes(r, g) {
				ks = append(ks, cat(stem, []byte{b, c}))
			}
		default:
			ks = append(ks, cat(stem, []byte{b}, tail(r)))
		}
	}
	return ks
}

// prefixFree sorts the keys and drops empty keys, duplicates and keys that are a prefix of another one.
func prefixFree(ks [][]byte) [][]byte {
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i], ks[j]) < 0 })
	var out [][]byte
	for i, k := range ks {
		if len(k) == 0 {
			continue
		}
		if i+1 < len(ks) && bytes.HasPrefix(ks[i+1], k) {
			continue
		}
		out = append(out, k)
	}
	if len(out) == 0 {
		out = [][]byte{{1}}
	}
	return out
}

func checkUniverse(ks []hx) error {
	for i := 1; i < len(ks); i++ {
		if bytes.Compare(ks[i-1], ks[i]) >= 0 || bytes.HasPrefix(ks[i], ks[i-1]) {
			return fmt.Errorf("keys %d and %d are not prefix-free and sorted", i-1, i)
		}
	}
	for _, k := range ks {
		if len(k) == 0 {
			return fmt.Errorf("empty key")
		}
	}
	return nil
}

// genQuery makes a non-empty byte string close to the stored keys.
func genQuery(r *Rng, ks []hx) []byte {
	k := append([]byte(nil), ks[r.N(len(ks))]...)
	switch r.N(7) {
	case 0: // shorter
		k = k[:r.N(len(k))]
	case 1: // longer
		k = append(k, tail(r)...)
		k = append(k, byte(r.N(256)))
	case 2, 3: // one byte differs
		k[r.N(len(k))] ^= byte(1 + r.N(255))
	case 4: // differs and shorter
		k[r.N(len(k))] ^= byte(1 << uint(r.N(8)))
		k = k[:r.In(1, len(k))]
	case 5: // exact key
	case 6:
		k = tail(r)
	}
	if len(k) == 0 {
		k = []byte{byte(r.N(256))}
		if r.P(50) {
			k[0] = ks[r.N(len(ks))][0]
		}
	}
	return k
}

// genPrefix makes a search prefix: mostly a proper prefix of some key, at interesting positions.
func genPrefix(r *Rng, ks []hx) []byte {
	if r.P(8) {
		return nil
	}
	i := r.N(len(ks))
	k := ks[i]
	var n int
	switch r.N(6) {
	case 0:
		n = r.N(len(k) + 1)
	case 1, 2: // around a branching point
		if len(ks) > 1 {
			j := i + 1
			if j >= len(ks) {
				j = i - 1
			}
			n = lcp(k, ks[j]) + r.pick(-9, -8, -2, -1, 0, 0, 1, 2)
		}
	case 3:
		n = 1
	case 4:
		n = len(k)
	case 5:
		n = r.N(minInt(len(k), 12) + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > len(k) {
		n = len(k)
	}
	p := append([]byte(nil), k[:n]...)
	if len(p) > 0 && r.P(12) {
		p[r.N(len(p))] ^= byte(1 + r.N(255))
	}
	if r.P(5) {
		p = append(p, byte(r.N(256)))
	}
	return p
}

func lcp(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// trieFigures describes the branching points of a sorted set of keys.
type trieFigures struct {
	Nodes       int
	WithPrefix  int
	PrefixLen   int
	PrefixBytes int
	Large       int
	Sizes       map[int]int
	MaxFan      int
}

func figures(ks [][]byte) trieFigures {
	f := trieFigures{Sizes: map[int]int{}}
	var rec func(lo, hi, depth int)
	rec = func(lo, hi, depth int) {
		if hi-lo <= 1 {
			return
		}
		l := lcp(ks[lo], ks[hi-1])
		f.Nodes++
		if p := l - depth; p > 0 {
			f.WithPrefix++
			f.PrefixLen += p
			s := (p + 7) / 8
			if p >= 255 {
				s++
				f.Large++
			}
			f.PrefixBytes += s * 8
		}
		fan := 0
		for i := lo; i < hi; {
			j := i + 1
			for j < hi && ks[j][l] == ks[i][l] {
				j++
			}
			fan++
			rec(i, j, l+1)
			i = j
		}
		f.Sizes[fan]++
		if fan > f.MaxFan {
			f.MaxFan = fan
		}
	}
	rec(0, len(ks), 0)
	return f
}
