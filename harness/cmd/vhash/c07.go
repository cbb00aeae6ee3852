package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/sparse_random_projection"

	"goslideverif/env"
	"goslideverif/mc"
)

type srp struct {
	h     *sparse_random_projection.SparseRandomProjection
	n     int
	dim   int
	signs [][]int // per hash, the sign of every coordinate (0: not sampled)
	tag   uint64
}

// newSrp builds a hasher and observes its samples with unit vectors.
func newSrp(r *mc.R, dim, n, ratio int, what string) *srp {
	h := sparse_random_projection.New(dim, n, ratio)
	s := &srp{h: h, n: n, dim: dim, signs: make([][]int, n)}
	for i := range s.signs {
		s.signs[i] = make([]int, dim)
	}
	unit := make([]float64, dim)
	for c := 0; c < dim; c++ {
		r.Tick()
		unit[c] = 1
		plus := h.GetHash(unit)
		unit[c] = -1
		minus := h.GetHash(unit)
		unit[c] = 0
		if len(plus) != n || len(minus) != n {
			r.Failf("%s: %d codes, want %d", what, len(plus), n)
		}
		for i := range plus {
			switch {
			case plus[i] == 0 && minus[i] == 1:
				s.signs[i][c] = 1
			case plus[i] == 1 && minus[i] == 0:
				s.signs[i][c] = -1
			case plus[i] == 0 && minus[i] == 0:
			default:
				r.Failf("%s: hash %d gives %d for coordinate %d = 1 and %d for -1", what, i, plus[i], c, minus[i])
			}
		}
	}
	want := (dim + ratio - 1) / ratio
	for i := range s.signs {
		k := 0
		for _, x := range s.signs[i] {
			if x != 0 {
				k++
			}
		}
		if k != want {
			r.Failf("%s: hash %d samples %d distinct coordinates, want %d", what, i, k, want)
		}
	}
	s.tag = uint64(n)
	for i := range s.signs {
		s.tag = hashInts(s.tag, s.signs[i])
	}
	return s
}

func (s *srp) codes(v []float64) []int {
	res := make([]int, s.n)
	for i := range res {
		sum := 0.0
		for c, sg := range s.signs[i] {
			sum += float64(sg) * v[c]
		}
		if sum < 0 {
			res[i] = 1
		}
	}
	return res
}

func (s *srp) vector(r *mc.R, g *guard, v []float64) {
	want := s.codes(v)
	if d := g.dense(s.h.GetHash, v); !eqInts(d, want) {
		r.Failf("%s: dense %v hashes to %v, want %v", g.what, v, d, want)
	}
	for _, p := range [][]pair{nonzero(v), full(v)} {
		orders(p, func(q []pair) {
			if x := g.sparse(s.h.GetHashSparse, q); !eqInts(x, want) {
				r.Failf("%s: sparse %v hashes to %v, want %v", g.what, q, x, want)
			}
		})
	}
	r.StateHash(hashVec(s.tag, v))
}

var c07 = mc.Prop{ID: "C07", Level: "model_checking",
	Rule:        "every outcome of the sampling and sign draws for small dimensions (bounded deviations from fixed streams for larger ones), every vector over a small alphabet, every pair order, every ordered pair of calls; up to 70001 coordinates; values and differences of values from 5e-324 to 1e300; a state is a (samples, vector) pair; the samples and signs are observed through unit vectors",
	Assumptions: []string{"vectors are finite, without repeated coordinates, and their signed sums are exact in floating point"},
	Fn: func(r *mc.R) {
		for _, s := range [][3]int{{1, 1, 1}, {2, 1, 1}, {2, 2, 2}, {3, 1, 2}, {3, 2, 3}, {4, 1, 2}, {5, 1, 2}, {5, 1, 5}} {
			dim, n, ratio := s[0], s[1], s[2]
			k := (dim + ratio - 1) / ratio
			want := 1 // choices of k coordinates and their signs, per hash
			for i := 0; i < k; i++ {
				want = want * (dim - i) / (i + 1)
			}
			want <<= k
			for all := want; n > 1; n-- {
				want *= all
			}
			n = s[1]
			reach(r, fmt.Sprintf("dim %d hashes %d ratio %d", dim, n, ratio), []uint64{0, 1<<64 - 1}, want, func() string {
				h := newSrp(r, dim, n, ratio, "reach")
				return tableKey(h.signs...)
			})
		}
		alpha := []float64{-1, 0, 1, 2.5}
		type dims struct{ dim, n, ratio int }
		for _, s := range []dims{{1, 1, 1}, {1, 2, 32}, {2, 1, 1}, {2, 2, 1}, {2, 1, 2}, {3, 1, 1}, {3, 1, 2}, {3, 2, 3}, {3, 2, 2}, {4, 1, 1}, {4, 1, 2}, {4, 1, 3}, {4, 2, 4}, {5, 1, 1}, {5, 1, 2}, {5, 2, 3}, {6, 2, 2}, {6, 1, 1}} {
			for vi := range alpha {
				s, vi := s, vi
				r.Case(fmt.Sprintf("all draws/dim %d hashes %d ratio %d/vectors starting with %v", s.dim, s.n, s.ratio, alpha[vi]), func() {
					what := fmt.Sprintf("dim %d, %d hashes, ratio %d", s.dim, s.n, s.ratio)
					fact := 1
					for i := 2; i <= s.dim; i++ {
						fact *= i
					}
					total := 1
					for i := 0; i < s.n; i++ {
						total *= fact << ((s.dim + s.ratio - 1) / s.ratio)
					}
					bound := -1
					if total > 2500 && (!r.Thorough() || total > 6000) {
						bound = 1
						if r.Thorough() {
							bound = 2
						}
					}
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						src := env.Choices(c, 1, []uint64{0, 1})
						if bound > 0 {
							src = env.Deviations(c, 1)
							src.BitsF = func() uint64 { return uint64(c.Choose(2)) }
						}
						env.Use(src)
						h := newSrp(r, s.dim, s.n, s.ratio, what)
						env.Use(env.Fixed(9))
						g := &guard{r: r, what: what}
						v := make([]float64, s.dim)
						v[0] = alpha[vi]
						al := alpha
						if s.dim > 4 && !r.Thorough() {
							al = []float64{-1, 0, 2.5}
						}
						vectors(s.dim-1, al, func(t []float64) {
							copy(v[1:], t)
							h.vector(r, g, v)
						})
					})
				})
			}
		}
		for _, s := range []dims{{8, 4, 1}, {10, 3, 3}, {16, 5, 4}, {31, 4, 32}, {32, 4, 32}, {33, 4, 32}, {64, 6, 32}, {65, 6, 32}, {100, 10, 3}, {784, 20, 32}, {784, 60, 1}, {50, 12, 7}, {5000, 4, 32}, {5000, 3, 1}, {9001, 3, 2}, {70001, 2, 1000}} {
			for seed := uint64(1); seed <= 3 && (seed == 1 || s.dim < 10000); seed++ {
				s, seed := s, seed
				r.Case(fmt.Sprintf("structured/dim %d hashes %d ratio %d/stream %d", s.dim, s.n, s.ratio, seed), func() {
					what := fmt.Sprintf("dim %d, %d hashes, ratio %d, stream %d", s.dim, s.n, s.ratio, seed)
					bound := 0
					if s.dim <= 16 || r.Thorough() && s.dim <= 33 {
						bound = 1
					}
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						src := env.Deviations(c, seed)
						env.Use(src)
						h := newSrp(r, s.dim, s.n, s.ratio, what)
						g := &guard{r: r, what: what}
						v := make([]float64, s.dim)
						h.vector(r, g, v)
						for k := 0; k < 5; k++ {
							for i := range v {
								switch k {
								case 0:
									v[i] = float64(i) - float64(s.dim)/2
								case 1:
									v[i] = 1
								case 2:
									v[i] = -1
								case 3:
									v[i] = float64((i*7+3)%11) - 5
								case 4:
									v[i] = float64(i%2)*0x1p997 - 0x1p996
									if i > 60 {
										v[i] = 0
									}
								}
							}
							h.vector(r, g, v)
						}
						for i := range v {
							v[i] = 0
						}
						// single coordinates and differences of any magnitude
						plain := true
						for _, x := range c.V {
							plain = plain && x == 0
						}
						coarse := s.dim/7 + 1
						for i := 0; plain && i < s.dim && s.dim < 10000; i += coarse {
							j := (i + coarse) % s.dim
							for _, x := range []float64{1e-6, 1e-13, 1e-20, 1e-100, 1e-301, 5e-324, 1e15, 1e200} {
								for _, y := range []float64{0, x, -x, math.Nextafter(x, 1), -math.Nextafter(x, 1)} {
									for _, sg := range []float64{1, -1} {
										v[i], v[j] = sg*x, y
										h.vector(r, g, v)
										v[i], v[j] = 0, 0
									}
								}
							}
						}
						step := s.dim/50 + 1
						if s.dim > 1000 {
							step = s.dim/7 + 1
						}
						for i := 0; i < s.dim; i += step {
							for j := 0; j <= i; j += step {
								v[i] = 1
								v[j] = -2
								h.vector(r, g, v)
								v[j] = -1
								h.vector(r, g, v)
								v[i], v[j] = 0, 0
							}
						}
					})
				})
			}
		}
		// many calls between two that share nothing
		r.Case("calls/many", func() {
			r.Eval()
			env.Use(env.Fixed(7))
			dense, few := make([]float64, 20), make([]float64, 20)
			for i := range dense {
				dense[i] = float64(i*7%20) + 1
			}
			few[3] = 0.5
			h := newSrp(r, 20, 3, 2, "many calls")
			g := &guard{r: r, what: "many calls"}
			h.vector(r, g, dense)
			for i := 0; i < 1<<16+300; i++ {
				h.vector(r, g, few)
				if i%4096 == 0 {
					r.StateHash(hashInts(uint64(i), nil))
				}
			}
		})
		r.Case("calls/interleaved", func() {
			env.Use(env.Fixed(6))
			for _, s := range []dims{{3, 2, 1}, {6, 4, 2}, {40, 8, 3}} {
				what := fmt.Sprintf("dim %d, %d hashes, interleaved calls", s.dim, s.n)
				hs := [2]*srp{newSrp(r, s.dim, s.n, s.ratio, what), newSrp(r, s.dim, s.n*2, s.ratio, what)}
				g := &guard{r: r, what: what}
				var vs [][]float64
				for k := 0; k < 5; k++ {
					v := make([]float64, s.dim)
					for i := range v {
						v[i] = float64((i*(k+2)+k)%5) - 2
					}
					vs = append(vs, v)
				}
				buf := make([]float64, s.dim)
				pbuf := make([]pair, s.dim)
				tuples(3, 2*5*2, func(seq []int) {
					r.Eval()
					for _, o := range seq {
						h, k, sparse := hs[o%2], o/2%5, o >= 10
						copy(buf, vs[k])
						var res []int
						if sparse {
							p := pbuf[:copy(pbuf, nonzero(buf))]
							for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
								p[i], p[j] = p[j], p[i]
							}
							res = g.sparse(h.h.GetHashSparse, p)
						} else {
							res = g.dense(h.h.GetHash, buf)
						}
						if want := h.codes(vs[k]); !eqInts(res, want) {
							r.Failf("%s: %v hashes to %v, want %v", what, vs[k], res, want)
						}
					}
					r.StateHash(hashInts(uint64(s.dim), seq))
				})
			}
		})
	}}
