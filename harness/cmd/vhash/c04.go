package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/wta_hash"

	"goslideverif/env"
	"goslideverif/mc"
)

// wtaWindows observes each hash's window with unit vectors and checks that
// the windows are consecutive eights of concatenated permutations.
func wtaWindows(r *mc.R, h *wta_hash.WtaHash, n, dim int, what string) [][]int {
	idx := wtaTable(h, n, dim)
	if p := permutationsFault(idx, dim); p >= 0 {
		r.Failf("%s: entries %d.. are not a permutation of the coordinates: %v", what, p*dim, idx)
	}
	w := make([][]int, n)
	unit := make([]float64, dim)
	for c := 0; c < dim; c++ {
		r.Tick()
		unit[c] = 1
		res := h.GetHashDense(unit)
		unit[c] = 0
		if len(res) != n {
			r.Failf("%s: %d codes, want %d", what, len(res), n)
		}
		for i, code := range res {
			in := idx == nil && code == c
			if idx != nil {
				for _, x := range idx[8*i : 8*i+8] {
					in = in || x == c
				}
			}
			if (code == c) != in {
				r.Failf("%s: hash %d gives %d for the unit vector of coordinate %d, but its window is %v", what, i, code, c, idx[8*i:8*i+8])
			}
			if in {
				w[i] = append(w[i], c)
			}
		}
	}
	for i := range w {
		if len(w[i]) == 0 {
			r.Failf("%s: the largest coordinate is never the code of hash %d", what, i)
		}
	}
	return w
}

func checkWta(r *mc.R, res []int, w [][]int, v []float64, what string) {
	if len(res) != len(w) {
		r.Failf("%s: %d codes, want %d", what, len(res), len(w))
	}
	for i, code := range res {
		ok := false
		max := v[w[i][0]]
		for _, c := range w[i] {
			if v[c] > max {
				max = v[c]
			}
			ok = ok || c == code
		}
		if !ok || v[code] != max {
			r.Failf("%s: vector %v: code %d is %d, but the largest value in its window %v is %v", what, v, i, code, w[i], max)
		}
	}
}

// wtaVector checks one vector, dense and in sparse forms.
func wtaVector(r *mc.R, g *guard, h *wta_hash.WtaHash, w [][]int, v []float64, allOrders bool) {
	d := g.dense(h.GetHashDense, v)
	checkWta(r, d, w, v, g.what)
	for _, p := range [][]pair{nonzero(v), full(v)} {
		f := func(q []pair) {
			if s := g.sparse(h.GetHash, q); !eqInts(s, d) {
				r.Failf("%s: sparse %v hashes to %v, the dense vector to %v", g.what, q, s, d)
			}
		}
		if allOrders {
			orders(p, f)
		} else {
			f(p)
			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
			f(p)
		}
	}
}

var c04 = mc.Prop{ID: "C04", Level: "model_checking",
	Rule:        "every outcome of the permutation draws for small dimensions (bounded deviations from fixed streams for larger ones, up to 70001 coordinates), every vector over a small alphabet, every pair order, every ordered pair of calls; a state is a (window table, vector) pair; codes are compared with windows observed through unit vectors",
	Assumptions: []string{"vectors are finite and without repeated coordinates"},
	Fn: func(r *mc.R) {
		for _, s := range [][2]int{{2, 1}, {3, 1}, {4, 1}, {4, 2}, {6, 1}, {8, 1}} {
			dim, n := s[0], s[1]
			perms := (8*n + dim - 1) / dim
			if factPow(dim, perms) > 500000 {
				continue
			}
			reach(r, fmt.Sprintf("dim %d hashes %d", dim, n), nil, factPow(dim, perms), func() string {
				h := wta_hash.New(n, dim)
				return tableKey(wtaTable(h, n, dim))
			})
		}
		alpha := []float64{-1, 0, 1, 2.5}
		type dims struct{ dim, n int }
		// all permutation outcomes
		for _, s := range []dims{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {3, 1}, {4, 1}, {3, 2}, {4, 2}, {5, 1}, {6, 1}, {7, 1}} {
			s := s
			perms := (8*s.n + s.dim - 1) / s.dim
			fact := 1
			for i := 2; i <= s.dim; i++ {
				fact *= i
			}
			total := 1
			for i := 0; i < perms && total < 1e7; i++ {
				total *= fact
			}
			bound := -1
			if total > 40000 {
				bound = 1
				if r.Thorough() {
					bound = 2
				}
			}
			vecs := 0
			vectors(s.dim, alpha, func([]float64) { vecs++ })
			work := total
			if bound > 0 {
				work = 300
			}
			for vi := 0; vi < len(alpha); vi++ {
				vi := vi
				r.Case(fmt.Sprintf("all draws/dim %d hashes %d/vectors starting with %v", s.dim, s.n, alpha[vi]), func() {
					what := fmt.Sprintf("dim %d, %d hashes", s.dim, s.n)
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						if bound < 0 {
							env.Use(env.Choices(c, 1, nil))
						} else {
							env.Use(env.Deviations(c, 1))
						}
						h := wta_hash.New(s.n, s.dim)
						env.Use(env.Fixed(9))
						w := wtaWindows(r, h, s.n, s.dim, what)
						g := &guard{r: r, what: what}
						tag := hashInts(uint64(s.dim*10+s.n), wtaTable(h, s.n, s.dim))
						k := 0
						v := make([]float64, s.dim)
						v[0] = alpha[vi]
						rest := s.dim - 1
						vectors(rest, alpha, func(t []float64) {
							copy(v[1:], t)
							k++
							// bound the number of vectors per outcome when there are many outcomes
							if work*vecs > 4000000 && !r.Thorough() && (k+len(c.V))%16 != 0 && rest > 3 {
								return
							}
							r.StateHash(hashVec(tag, v))
							wtaVector(r, g, h, w, v, s.dim <= 3)
						})
						if w2 := wtaWindows(r, h, s.n, s.dim, what); fmt.Sprint(w2) != fmt.Sprint(w) {
							r.Failf("%s: the windows changed from %v to %v", what, w, w2)
						}
					})
				})
			}
		}
		// larger shapes: every permutation-draw deviation, structured vectors
		for _, s := range []dims{{8, 1}, {8, 3}, {9, 2}, {10, 5}, {12, 4}, {16, 2}, {16, 6}, {17, 6}, {30, 12}, {64, 8}, {100, 40}, {784, 60}, {5, 30}, {784, 300}, {5000, 700}, {9001, 30}, {70001, 12}} {
			for seed := uint64(1); seed <= 3 && (seed == 1 || s.dim < 10000); seed++ {
				s, seed := s, seed
				r.Case(fmt.Sprintf("structured/dim %d hashes %d/stream %d", s.dim, s.n, seed), func() {
					what := fmt.Sprintf("dim %d, %d hashes", s.dim, s.n)
					bound := 0
					if s.dim <= 17 || r.Thorough() && s.dim <= 64 {
						bound = 1
					}
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						env.Use(env.Deviations(c, seed))
						h := wta_hash.New(s.n, s.dim)
						w := wtaWindows(r, h, s.n, s.dim, what)
						g := &guard{r: r, what: what}
						tag := hashInts(seed, wtaTable(h, s.n, s.dim))
						v := make([]float64, s.dim)
						try := func() { r.StateHash(hashVec(tag, v)); wtaVector(r, g, h, w, v, true) }
						try()
						for i := range v { // ascending, descending, alternating, huge
							v[i] = float64(i + 1)
						}
						try()
						for i := range v {
							v[i] = -float64(i + 1)
						}
						try()
						for i := range v {
							v[i] = float64((i*7+3)%11) - 5
						}
						try()
						for i := range v {
							v[i] = -1e300 * float64(i%5+1) / 8
						}
						try()
						for i := range v {
							v[i] = -1e19
						}
						try()
						for i := range v {
							v[i] = 0
						}
						step := 1
						if s.dim > 100 {
							step = 29
						}
						if s.dim > 1000 {
							step = s.dim/9 + 1
						}
						for i := 0; i < s.dim; i += step {
							for _, x := range []float64{1, -1, 1e300, -1e300, 5e-324} {
								v[i] = x
								try()
							}
							v[i] = 0
						}
					})
				})
			}
		}
		// sequences of calls on two hashers, input storage reused by the caller
		// many calls between two that share nothing
		r.Case("calls/many", func() {
			r.Eval()
			env.Use(env.Fixed(7))
			dense, few := make([]float64, 20), make([]float64, 20)
			for i := range dense {
				dense[i] = float64(i*7%20) + 1
			}
			few[3] = 0.5
			h := wta_hash.New(6, 20)
			w := wtaWindows(r, h, 6, 20, "many calls")
			g := &guard{r: r, what: "many calls"}
			wtaVector(r, g, h, w, dense, true)
			for i := 0; i < 1<<16+300; i++ {
				wtaVector(r, g, h, w, few, true)
				if i%4096 == 0 {
					r.StateHash(hashInts(uint64(i), nil))
				}
			}
		})
		r.Case("calls/interleaved", func() {
			env.Use(env.Fixed(5))
			for _, s := range []dims{{3, 1}, {6, 2}, {9, 3}, {20, 5}} {
				what := fmt.Sprintf("dim %d, %d hashes, interleaved calls", s.dim, s.n)
				h := [2]*wta_hash.WtaHash{wta_hash.New(s.n, s.dim), wta_hash.New(s.n+1, s.dim)}
				w := [2][][]int{wtaWindows(r, h[0], s.n, s.dim, what), wtaWindows(r, h[1], s.n+1, s.dim, what)}
				g := &guard{r: r, what: what}
				var vs [][]float64
				for k := 0; k < 5; k++ {
					v := make([]float64, s.dim)
					for i := range v {
						v[i] = float64((i*(k+2)+k)%5) - 2
					}
					vs = append(vs, v)
				}
				buf := make([]float64, s.dim)
				pbuf := make([]pair, s.dim)
				tuples(3, 2*5*2, func(seq []int) {
					r.Eval()
					for _, o := range seq {
						i, k, sparse := o%2, o/2%5, o >= 10
						copy(buf, vs[k])
						var res []int
						if sparse {
							res = g.sparse(h[i].GetHash, pbuf[:copy(pbuf, nonzero(buf))])
						} else {
							res = g.dense(h[i].GetHashDense, buf)
						}
						checkWta(r, res, w[i], vs[k], what)
					}
					r.StateHash(hashInts(uint64(s.dim), seq))
				})
			}
		})
	}}
