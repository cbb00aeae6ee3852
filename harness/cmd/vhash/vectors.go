package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/index_value"

	"goslideverif/mc"
)

type pair = index_value.Pair

// vectors calls f with every vector of n values from alphabet.
func vectors(n int, alphabet []float64, f func([]float64)) {
	v := make([]float64, n)
	tuples(n, len(alphabet), func(t []int) {
		for i, a := range t {
			v[i] = alphabet[a]
		}
		f(v)
	})
}

// permutations calls f with every ordering of p, in place.
func permutations(p []pair, f func([]pair)) {
	var rec func(i int)
	rec = func(i int) {
		if i >= len(p)-1 {
			f(p)
			return
		}
		for j := i; j < len(p); j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// nonzero lists the non-zero coordinates of v in ascending order.
func nonzero(v []float64) []pair {
	p := []pair{}
	for i, x := range v {
		if x != 0 {
			p = append(p, pair{Index: i, Value: x})
		}
	}
	return p
}

func full(v []float64) []pair {
	p := make([]pair, len(v))
	for i, x := range v {
		p[i] = pair{Index: i, Value: x}
	}
	return p
}

func eqPairs(a, b []pair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func copyPairs(a []pair) []pair { return append([]pair{}, a...) }

// guard runs hash functions and keeps watch over their inputs and results:
// inputs must not change, earlier results must not change.
type guard struct {
	r    *mc.R
	what string
	old  []kept
}

type kept struct{ res, want []int }

func (g *guard) keep(res []int) []int {
	g.r.Step(1)
	g.r.Tick()
	g.old = append(g.old, kept{res, copyInts(res)})
	if len(g.old) > 8 {
		for _, k := range g.old {
			if !eqInts(k.res, k.want) {
				g.r.Failf("%s: an earlier result changed from %v to %v", g.what, k.want, k.res)
			}
		}
		g.old = g.old[:0]
	}
	return res
}

func (g *guard) sparse(h func([]pair) []int, p []pair) []int {
	in := copyPairs(p)
	res := h(p)
	if !eqPairs(in, p) {
		g.r.Failf("%s: hashing changed its input from %v to %v", g.what, in, p)
	}
	return g.keep(res)
}

func (g *guard) dense(h func([]float64) []int, v []float64) []int {
	in := append([]float64{}, v...)
	res := h(v)
	for i := range in {
		if in[i] != v[i] {
			g.r.Failf("%s: hashing changed its input from %v to %v", g.what, in, v)
		}
	}
	return g.keep(res)
}

// orders calls f with permutations of p: all of them up to 4 pairs, otherwise
// ascending, descending, rotated and interleaved.
func orders(p []pair, f func([]pair)) {
	if len(p) <= 4 {
		permutations(copyPairs(p), f)
		return
	}
	n := len(p)
	q := make([]pair, n)
	for _, o := range []func(int) int{
		func(i int) int { return i },
		func(i int) int { return n - 1 - i },
		func(i int) int { return (i + n/2) % n },
		func(i int) int { return (i + 1) % n },
		func(i int) int {
			if i < (n+1)/2 {
				return 2 * i
			}
			return 2*(i-(n+1)/2) + 1
		},
	} {
		for i := range q {
			q[i] = p[o(i)]
		}
		f(q)
	}
}

func hashVec(tag uint64, v []float64) uint64 {
	h := mc.NewH().Add(tag)
	for _, x := range v {
		h = h.Add(uint64(int64(x * 16)))
	}
	return uint64(h)
}

func hashInts(tag uint64, v []int) uint64 {
	h := mc.NewH().Add(tag)
	for _, x := range v {
		h = h.Add(uint64(x))
	}
	return uint64(h)
}

func describe(p []pair) string { return fmt.Sprint(p) }
