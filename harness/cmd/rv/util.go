package main

import (
	"encoding/hex"
	"fmt"
	"math/bits"

	"radixverif/shim/sched"
)

// Rng is a splitmix64 generator; every random choice of the harness comes from one.
type Rng struct{ s uint64 }

func newRng(parts ...interface{}) *Rng {
	h := uint64(0xcbf29ce484222325)
	for _, p := range parts {
		for _, c := range []byte(fmt.Sprint(p)) {
			h = (h ^ uint64(c)) * 0x100000001b3
		}
		h = (h ^ 0xff) * 0x100000001b3
	}
	r := &Rng{h}
	r.U64()
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In returns a number in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func (r *Rng) pick(l ...int) int { return l[r.N(len(l))] }

func (r *Rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// weighted picks an entry from pairs of name and weight.
type weights []struct {
	k string
	w int
}

func (w weights) pick(r *Rng) string {
	t := 0
	for _, e := range w {
		t += e.w
	}
	x := r.N(t)
	for _, e := range w {
		if x < e.w {
			return e.k
		}
		x -= e.w
	}
	return w[0].k
}

func failf(format string, a ...interface{}) {
	panic(sched.Violation{Msg: fmt.Sprintf(format, a...)})
}

// hx is a byte string kept as hex in JSON.
type hx []byte

func (h hx) MarshalJSON() ([]byte, error) { return []byte(`"` + hex.EncodeToString(h) + `"`), nil }
func (h *hx) UnmarshalJSON(b []byte) error {
	if len(b) >= 2 && b[0] == '"' {
		x, err := hex.DecodeString(string(b[1 : len(b)-1]))
		*h = x
		return err
	}
	*h = nil
	return nil
}

func short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..%x(%d bytes)", b[:8], b[len(b)-12:], len(b))
}

func hashBytes(h uint64, b []byte) uint64 {
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return mix(h + uint64(len(b)))
}

func hashU(h uint64, v uint64) uint64 { return mix(h*0x100000001b3 ^ v) }
