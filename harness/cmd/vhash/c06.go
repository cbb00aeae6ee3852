package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/densified_minhash"

	"goslideverif/env"
	"goslideverif/mc"
)

type minh struct {
	h   *densified_minhash.DensifiedMinhash
	n   int
	dim int
}

// codes computes the codes for a set of selected coordinates.
func (m *minh) codes(selected, binIds []int) []int {
	res := make([]int, m.n)
	for i := range res {
		res[i] = math.MinInt64
	}
	for _, c := range selected {
		if b := binIds[c]; res[b] < c {
			res[b] = c
		}
	}
	out := copyInts(res)
	for b := range res {
		if res[b] != math.MinInt64 {
			continue
		}
		for c := 1; c <= 101; c++ {
			p := m.h.GetRandDoubleHash(b, c)
			if p > m.n-1 {
				p = m.n - 1
			}
			if res[p] != math.MinInt64 {
				out[b] = res[p]
				break
			}
		}
	}
	return out
}

// selections calls f with every valid choice of the k largest pairs.
func selections(p []pair, k int, f func([]int) bool) bool {
	q := copyPairs(p)
	sort.SliceStable(q, func(i, j int) bool { return q[i].Value > q[j].Value })
	if k >= len(q) {
		sel := []int{}
		for _, x := range q {
			sel = append(sel, x.Index)
		}
		return f(sel)
	}
	lo, hi := k, k
	for lo > 0 && q[lo-1].Value == q[k].Value {
		lo--
	}
	for hi < len(q) && q[hi].Value == q[k].Value {
		hi++
	}
	need := k - lo
	sel := []int{}
	for _, x := range q[:lo] {
		sel = append(sel, x.Index)
	}
	var rec func(i, need int) bool
	rec = func(i, need int) bool {
		if need == 0 {
			return f(sel)
		}
		if hi-i < need {
			return false
		}
		sel = append(sel, q[i].Index)
		if rec(i+1, need-1) {
			return true
		}
		sel = sel[:len(sel)-1]
		return rec(i+1, need)
	}
	return rec(lo, need)
}

func (m *minh) check(r *mc.R, res []int, p []pair, k int, binIds []int, what string) {
	if len(res) != m.n {
		r.Failf("%s: %d codes, want %d", what, len(res), m.n)
	}
	var wanted [][]int
	if !selections(p, k, func(sel []int) bool {
		w := m.codes(sel, binIds)
		if eqInts(w, res) {
			return true
		}
		wanted = append(wanted, w)
		return false
	}) {
		if len(wanted) > 4 {
			wanted = wanted[:4]
		}
		r.Failf("%s: values %v, K %d, bins %v: codes %v, want %v", what, p, k, binIds, res, wanted)
	}
}

func distinctAt(p []pair, k int) bool { // is the choice of the k largest unique?
	n := 0
	selections(p, k, func([]int) bool { n++; return n > 1 })
	return n == 1
}

func (m *minh) sparseVector(r *mc.R, g *guard, p []pair, k int, binIds []int) {
	uniq := distinctAt(p, k)
	var first []int
	orders(p, func(q []pair) {
		res := g.sparse(func(x []pair) []int { return m.h.GetHashEasy(binIds, x, k) }, q)
		m.check(r, res, q, k, binIds, g.what)
		if first == nil {
			first = copyInts(res)
		} else if uniq && !eqInts(first, res) {
			r.Failf("%s: %v hashes to %v, another order to %v", g.what, q, res, first)
		}
	})
	// the already selected form: coordinates with their values
	if k >= len(p) {
		orders(p, func(q []pair) {
			idx, data := []int{}, []float64{}
			for _, x := range q {
				idx, data = append(idx, x.Index), append(data, x.Value)
			}
			res := g.keep(m.h.GetHash(idx, data, binIds))
			m.check(r, res, p, len(p), binIds, g.what+", selected coordinates")
		})
	}
	h := mc.NewH().Add(uint64(m.n*64 + k))
	for _, x := range p {
		h = h.Add(uint64(x.Index)).Add(uint64(int64(x.Value * 16)))
	}
	r.StateHash(hashInts(uint64(h), binIds[:minI(len(binIds), 40)]))
}

func (m *minh) denseVector(r *mc.R, g *guard, v []float64, k int, binIds []int) {
	res := g.dense(func(x []float64) []int { return m.h.GetHashEasyDense(binIds, x, k) }, v)
	p := full(v)
	m.check(r, res, p, k, binIds, g.what+", dense")
	s := g.sparse(func(x []pair) []int { return m.h.GetHashEasy(binIds, x, k) }, p)
	if distinctAt(p, k) && !eqInts(s, res) {
		r.Failf("%s: dense %v hashes to %v, listed as a sparse vector to %v", g.what, v, res, s)
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// checkMap checks the coordinate-to-bin map.
func checkMap(r *mc.R, h *densified_minhash.DensifiedMinhash, numHashes, dim int, what string) []int {
	if numHashes&(numHashes-1) == 0 {
		for b := 0; b < numHashes && b < 64; b++ {
			for c := 1; c <= 101; c++ {
				g := h.GetRandDoubleHash(b, c)
				if g < 0 || g >= numHashes {
					r.Failf("%s: probe %d of bin %d is %d, not a bin number", what, c, b, g)
				}
				if again := h.GetRandDoubleHash(b, c); again != g {
					r.Failf("%s: probe %d of bin %d is %d first and %d later", what, c, b, g, again)
				}
			}
		}
	}
	m := h.GetMap(dim)
	if len(m) != dim {
		r.Failf("%s: the map has %d entries for %d coordinates", what, len(m), dim)
	}
	for c, b := range m {
		if b < 0 || b >= numHashes {
			r.Failf("%s: coordinate %d maps to bin %d of %d", what, c, b, numHashes)
		}
	}
	if m2 := h.GetMap(dim); !eqInts(m, m2) {
		r.Failf("%s: the map is %v first and %v later", what, m, m2)
	}
	return m
}

var c06 = mc.Prop{ID: "C06", Level: "model_checking",
	Rule:        "every coordinate-to-bin map and every sparse and dense vector over a small alphabet for small dimensions, every K, every pair order, several probe constants; structured vectors for larger dimensions; the map with every hash value of small ranges and boundary hash values of all ranges up to 784 bits; a state is a (map, vector, K) triple; codes are recomputed for every valid choice of the K largest",
	Assumptions: []string{"vectors are finite and without repeated coordinates", "hash values are those of hash/maphash, replaced by enumerated ones where the bin map is checked"},
	Fn: func(r *mc.R) {
		bits := []uint64{0x123456789abcdef1, 1, math.MaxInt64, 0x9E3779B97F4A7C15}
		vals := []float64{-1, 0, 2}
		for dim := 1; dim <= 4; dim++ {
			for n := 1; n <= 4; n++ {
				for bi := range bits {
					dim, n, bi := dim, n, bi
					if dim == 4 && n > 2 && bi > 1 && !r.Thorough() {
						continue
					}
					r.Case(fmt.Sprintf("all maps and vectors/dim %d bins %d/probe constant %d", dim, n, bi), func() {
						src := env.Fixed(1)
						src.BitsF = func() uint64 { return bits[bi] }
						env.Use(src)
						m := &minh{densified_minhash.New(n, dim), n, dim}
						what := fmt.Sprintf("dim %d, %d bins, probe constant %d", dim, n, bi)
						checkMap(r, m.h, n, dim, what)
						g := &guard{r: r, what: what}
						for k := 1; k <= dim+1; k++ {
							tuples(dim, n, func(binIds []int) {
								ids := copyInts(binIds)
								r.Eval()
								tuples(dim, len(vals)+1, func(t []int) {
									p := []pair{}
									for i, a := range t {
										if a > 0 {
											p = append(p, pair{Index: i, Value: vals[a-1]})
										}
									}
									m.sparseVector(r, g, p, k, binIds)
								})
								vectors(dim, vals, func(v []float64) { m.denseVector(r, g, v, k, binIds) })
								if !eqInts(ids, binIds) {
									r.Failf("%s: hashing changed the map", what)
								}
							})
						}
					})
				}
			}
		}
		// distinct and tied values in all orders, larger K
		for _, dim := range []int{5, 6, 7} {
			for _, n := range []int{1, 2, 3, 8} {
				dim, n := dim, n
				r.Case(fmt.Sprintf("all orders/dim %d bins %d", dim, n), func() {
					env.Use(env.Fixed(2))
					m := &minh{densified_minhash.New(n, dim), n, dim}
					what := fmt.Sprintf("dim %d, %d bins", dim, n)
					g := &guard{r: r, what: what}
					binIds := m.h.GetMap(dim)
					spread := make([]int, dim)
					for i := range spread {
						spread[i] = i % n
					}
					for _, ids := range [][]int{binIds, spread, make([]int, dim)} {
						for _, tied := range []bool{false, true} {
							base := make([]float64, dim)
							for i := range base {
								base[i] = float64(i - 2)
								if tied {
									base[i] = float64(i / 2)
								}
							}
							p := full(base)
							permutations(p, func(q []pair) {
								// every assignment of the values to coordinates and every pair order
								v := make([]float64, dim)
								for i, x := range q {
									v[i] = x.Value
								}
								r.Eval()
								for k := 1; k <= dim+1; k++ {
									res := g.sparse(func(x []pair) []int { return m.h.GetHashEasy(ids, x, k) }, q)
									m.check(r, res, q, k, ids, what)
									m.denseVector(r, g, v, k, ids)
								}
								r.StateHash(hashVec(uint64(n), v))
							})
						}
					}
				})
			}
		}
		for _, dim := range []int{20, 31, 40, 100, 784, 5000, 70001} {
			for _, n := range []int{1, 4, 6, 32, 100, 1000} {
				for seed := uint64(1); seed <= 2; seed++ {
					if dim > 10000 && (n != 6 && n != 1000 || seed > 1) {
						continue
					}
					dim, n, seed := dim, n, seed
					r.Case(fmt.Sprintf("structured/dim %d bins %d/stream %d", dim, n, seed), func() {
						env.Use(env.Fixed(seed))
						what := fmt.Sprintf("dim %d, %d bins", dim, n)
						m := &minh{densified_minhash.New(n, dim), n, dim}
						g := &guard{r: r, what: what}
						ids := checkMap(r, m.h, n, dim, what)
						v := make([]float64, dim)
						for k := 0; k < 4; k++ {
							for i := range v {
								switch k {
								case 0:
									v[i] = float64(i) - 10
								case 1:
									v[i] = -float64(i)
								case 2:
									v[i] = float64((i*7919)%dim) - 3.5
								case 3:
									v[i] = -1e300 + float64(i)*1e296
								}
							}
							for _, tk := range []int{1, 2, 29, 30, 31, dim} {
								r.Eval()
								m.denseVector(r, g, v, tk, ids)
								m.sparseVector(r, g, full(v), tk, ids)
								p := []pair{}
								for i := 0; i < dim; i += 3 {
									p = append(p, pair{Index: i, Value: v[i]})
								}
								m.sparseVector(r, g, p, tk, ids)
							}
						}
						m.sparseVector(r, g, nil, 30, ids)
						for i := 0; i < dim; i += dim/20 + 1 {
							m.sparseVector(r, g, []pair{{Index: i, Value: -2}}, 30, ids)
							m.sparseVector(r, g, []pair{{Index: i, Value: 0}, {Index: (i + 1) % dim, Value: 1}}, 1, ids)
						}
					})
				}
			}
		}
		// the coordinate-to-bin map
		r.Case("map/every hash value of small ranges", func() {
			for bitsN := 0; bitsN <= 12; bitsN++ {
				for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 33, 64, 100, 127, 1000, 4096, 5000} {
					r.Eval()
					env.Use(env.Fixed(1))
					h := densified_minhash.New(n, bitsN)
					env.HashValues(func(b []byte, seed uint64) uint64 {
						v, _ := binary.Varint(b)
						return uint64(v)
					})
					rng := 1 << bitsN
					what := fmt.Sprintf("%d bins, %d bits", n, bitsN)
					m := checkMap(r, h, n, rng, what)
					count := make([]int, n)
					for _, b := range m {
						count[b]++
					}
					for b, c := range count {
						if limit := (rng + n - 1) / n; c > limit {
							r.Failf("%s: bin %d owns %d of %d hash values, more than %d", what, b, c, rng, limit)
						}
					}
					r.StateHash(hashInts(uint64(n), []int{bitsN}))
					env.HashValues(nil)
				}
			}
		})
		r.Case("map/boundary hash values of all ranges", func() {
			var special []uint64
			for b := 0; b < 64; b++ {
				special = append(special, 1<<b, 1<<b-1, 1<<b+1, ^uint64(0)<<b, ^uint64(0)>>b)
			}
			special = append(special, 0, math.MaxUint64)
			ranges := []int{}
			for b := 1; b <= 130; b++ {
				ranges = append(ranges, b)
			}
			ranges = append(ranges, 255, 256, 500, 784, 5000, 135909)
			for _, bitsN := range ranges {
				for _, n := range []int{1, 2, 3, 5, 6, 7, 8, 30, 100, 128, 999, 1024} {
					r.Eval()
					env.Use(env.Fixed(1))
					h := densified_minhash.New(n, bitsN)
					env.HashValues(func(b []byte, seed uint64) uint64 {
						v, _ := binary.Varint(b)
						return special[int(v)%len(special)]
					})
					checkMap(r, h, n, len(special), fmt.Sprintf("%d bins, %d bits, boundary hash values", n, bitsN))
					env.HashValues(nil)
					// the real hash function spreads the coordinates
					for _, dim := range []int{0, 1, 2, 64, 300} {
						checkMap(r, h, n, dim, fmt.Sprintf("%d bins, %d bits", n, bitsN))
					}
					r.StateHash(hashInts(uint64(n), []int{bitsN, 1}))
				}
			}
		})
		for _, dim := range []int{1<<20 + 9, 1<<21 + 9, 1<<23 + 9} {
			dim := dim
			r.Case(fmt.Sprintf("map/dim %d", dim), func() {
				r.Eval()
				env.Use(env.Fixed(1))
				checkMap(r, densified_minhash.New(1000, 64), 1000, dim, "many coordinates")
				r.StateHash(uint64(dim))
			})
		}
		r.Case("map/stable while other hashers come and go", func() {
			env.Use(env.Fixed(3))
			h := []*densified_minhash.DensifiedMinhash{}
			var maps [][]int
			for i := 0; i < 6; i++ {
				r.Eval()
				h = append(h, densified_minhash.New(4+i, 20))
				maps = append(maps, nil)
				for j := range h {
					m := checkMap(r, h[j], 4+j, 30+j, "several hashers")
					if maps[j] == nil {
						maps[j] = copyInts(m)
					} else if !eqInts(maps[j], m) {
						r.Failf("the map of hasher %d changed from %v to %v", j, maps[j], m)
					}
					long := checkMap(r, h[j], 4+j, 60+j, "several hashers")
					if !eqInts(long[:30+j], maps[j]) {
						r.Failf("the map of hasher %d depends on the dimension asked for", j)
					}
					r.StateHash(hashInts(uint64(j), m))
				}
			}
		})
		// many calls between two that share nothing
		r.Case("calls/many", func() {
			r.Eval()
			env.Use(env.Fixed(7))
			dense, few := make([]float64, 20), make([]float64, 20)
			for i := range dense {
				dense[i] = float64(i*7%20) + 1
			}
			few[3] = 0.5
			m := &minh{densified_minhash.New(8, 20), 8, 20}
			ids := m.h.GetMap(20)
			g := &guard{r: r, what: "many calls"}
			m.sparseVector(r, g, full(dense), 20, ids)
			m.denseVector(r, g, dense, 20, ids)
			for i := 0; i < 1<<16+300; i++ {
				m.sparseVector(r, g, nonzero(few), 20, ids)
				if i%4096 == 0 {
					r.StateHash(hashInts(uint64(i), nil))
				}
			}
		})
		r.Case("calls/interleaved", func() {
			env.Use(env.Fixed(6))
			dim := 8
			ms := [2]*minh{{densified_minhash.New(4, dim), 4, dim}, {densified_minhash.New(8, dim), 8, dim}}
			ids := [2][]int{ms[0].h.GetMap(dim), ms[1].h.GetMap(dim)}
			what := "interleaved calls"
			g := &guard{r: r, what: what}
			var vs [][]float64
			for k := 0; k < 5; k++ {
				v := make([]float64, dim)
				for i := range v {
					v[i] = float64((i*(k+2)+k)%7) - 2
				}
				vs = append(vs, v)
			}
			buf := make([]float64, dim)
			pbuf := make([]pair, dim)
			tuples(3, 2*5*2, func(seq []int) {
				r.Eval()
				for _, o := range seq {
					i, k, sparse := o%2, o/2%5, o >= 10
					copy(buf, vs[k])
					if sparse {
						p := pbuf[:copy(pbuf, nonzero(buf))]
						res := g.sparse(func(x []pair) []int { return ms[i].h.GetHashEasy(ids[i], x, 3) }, p)
						ms[i].check(r, res, p, 3, ids[i], what)
					} else {
						res := g.dense(func(x []float64) []int { return ms[i].h.GetHashEasyDense(ids[i], x, 3) }, buf)
						ms[i].check(r, res, full(vs[k]), 3, ids[i], what)
					}
				}
				r.StateHash(hashInts(77, seq))
			})
		})
	}}
