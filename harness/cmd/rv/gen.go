package main

import (
	"bytes"
	"fmt"
	"sort"
)

func toHx(ks [][]byte) []hx {
	o := make([]hx, len(ks))
	for i := range ks {
		o[i] = ks[i]
	}
	return o
}

type histOpts struct {
	w     weights // operations besides put/del phases
	n     int     // number of operations
	via   bool    // use reserved allocators
	trees int
}

// genHistory produces phases of growth, churn and shrinking, interspersed with the operations of w.
func genHistory(r *Rng, ks []hx, o histOpts) []Op {
	var ops []Op
	nk := len(ks)
	phase := ""
	left := 0
	order := r.perm(nk)
	pos := 0
	region := 0
	for len(ops) < o.n {
		if left == 0 {
			phase = weights{{"fill", 5}, {"drain", 4}, {"churn", 6}, {"toggle", 3}, {"local", 4}, {"look", 1}, {"sub", 4}}.pick(r)
			if len(ops) == 0 && r.P(80) {
				phase = "fill"
			}
			left = 1 + r.N(1+minInt(o.n/2, 2*nk))
			if phase == "look" {
				left = 1 + r.N(8)
			}
			order = r.perm(nk)
			if r.P(25) {
				for i := range order {
					order[i] = i
				}
			} else if r.P(10) {
				for i := range order {
					order[i] = nk - 1 - i
				}
			}
			pos = 0
			region = r.N(nk)
			if phase == "sub" {
				// drain or refill the keys below one branching point
				k := ks[region]
				p := k[:r.N(minInt(len(k), 40))]
				if nk > 1 && r.P(70) {
					j := (region + 1) % nk
					p = k[:lcp(k, ks[j])]
				}
				lo := sort.Search(nk, func(i int) bool { return bytes.Compare(ks[i], p) >= 0 })
				hi := lo + sort.Search(nk-lo, func(i int) bool { return !bytes.HasPrefix(ks[lo+i], p) })
				order = order[:0]
				for _, i := range r.perm(hi - lo) {
					order = append(order, lo+i)
				}
				left = len(order)
				region = r.N(3)
			}
		}
		left--
		via := 0
		if o.via && r.P(40) {
			via = r.In(1, 4)
		}
		tr := 0
		if o.trees > 1 {
			tr = r.N(o.trees)
		}
		if len(o.w) > 0 && r.P(30) || phase == "look" {
			op := genOther(r, ks, o.w.pick(r), via)
			op.T = tr
			ops = append(ops, op)
			continue
		}
		k := order[pos%nk]
		kind := "put"
		switch phase {
		case "fill":
			pos++
			kind = []string{"put", "ins"}[r.N(2)]
		case "drain":
			pos++
			kind = "del"
		case "churn":
			k = r.N(nk)
			kind = []string{"put", "put", "del", "del", "ins", "upd"}[r.N(6)]
		case "sub":
			pos++
			kind = []string{"del", "del", "put"}[region]
		case "toggle":
			k = order[pos%minInt(nk, 4)]
			if r.P(60) {
				pos++
			}
			kind = []string{"put", "del", "del"}[r.N(3)]
		case "local":
			k = (region + r.N(6)) % nk
			kind = []string{"put", "del"}[r.N(2)]
		}
		ops = append(ops, Op{K: kind, I: k, V: via, T: tr})
	}
	return ops
}

func genOther(r *Rng, ks []hx, kind string, via int) Op {
	op := Op{K: kind, V: via, I: r.N(len(ks))}
	switch kind {
	case "getq", "delq":
		op.Q = genQuery(r, ks)
	case "abd":
		if r.P(60) {
			op.Q = genQuery(r, ks)
		}
	case "scan", "count":
		op.Q = genPrefix(r, ks)
		op.N = r.N(1 << 10)
	case "min", "max":
		op.Q = genPrefix(r, ks)
	case "itnew":
		op.S = r.N(3)
		if r.P(60) {
			op.Q = genPrefix(r, ks)
		}
	case "itnext":
		op.S = r.N(3)
		op.N = r.pick(1, 1, 2, 5, 100, 255, 256, 257, 258, 300)
	case "itend", "itclose", "prep", "prepd":
		op.S = r.N(3)
	case "fin":
		op.S = r.N(3)
		op.N = r.N(2)
	case "save", "rel", "flush":
		op.N = r.N(8)
	case "admin":
		op.A = genAdmin(r)
	}
	return op
}

func genAdmin(r *Rng) []string {
	switch r.N(14) {
	case 0:
		return nil
	case 1:
		return []string{"info"}
	case 2:
		return []string{"allocators"}
	case 3:
		return []string{"allocators", "x"}[:1+r.N(1)]
	case 4:
		return []string{"blocks"}
	case 5, 6:
		return []string{"root"}
	case 7:
		return []string{"node"}
	case 8, 9, 10:
		return []string{"node", fmt.Sprintf("@%d", r.N(40))}
	case 11:
		return []string{"node", []string{"", "x", "-1", "0", "1", "18446744073709551615", "9223372036854775808", "9223372036854775807", "99999999999999999999999", "256", "511", " 1"}[r.N(12)]}
	case 12:
		v := r.U64() >> uint(r.N(64))
		if r.P(50) {
			v &^= 1 << 8
		}
		return []string{"node", fmt.Sprint(v)}
	}
	switch r.N(4) {
	case 0:
		return []string{"flushed"}
	case 1:
		return []string{"node", "1", "2"}
	case 2:
		return []string{"\x00weird\n"}
	}
	return []string{""}
}
