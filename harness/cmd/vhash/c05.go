package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/densified_wta_hash"

	"goslideverif/env"
	"goslideverif/mc"
)

type place struct{ coord, pos int }

// dwta is a hasher with its tables.
type dwta struct {
	h    *densified_wta_hash.DensifiedWtaHash
	n    int
	dim  int
	bins [][]place // per bin, the coordinates that occupy it
	tag  uint64
}

func newDwta(r *mc.R, n, dim int, what string) *dwta {
	h := densified_wta_hash.New(n, dim)
	idx, pos := dwtaTables(h, n, dim)
	d := &dwta{h: h, n: n, dim: dim, bins: make([][]place, n)}
	if idx == nil {
		d.bins = observeBins(r, h, n, dim)
	} else {
		if f := placesFault(idx, pos, dim); f != nil {
			r.Failf("%s: permutation %d puts coordinate %d at bin %d position %d, which is taken or outside the permutation", what, f[0], f[1], f[2], f[3])
		}
		for i, b := range idx {
			if b < n {
				d.bins[b] = append(d.bins[b], place{i % dim, pos[i]})
			}
		}
	}
	// probe sequences are sequences of bin numbers
	if n&(n-1) == 0 {
		for b := 0; b < n; b++ {
			for c := 1; c <= 101; c++ {
				if g := h.GetRandDoubleHash(b, c); g < 0 || g >= n {
					r.Failf("%s: probe %d of bin %d is %d, not a bin number", what, c, b, g)
				}
			}
		}
	}
	d.tag = hashInts(hashInts(uint64(n*1000+dim), idx), pos)
	return d
}

// check compares codes with the bins' contents; present[c] tells whether
// coordinate c is there.
func (d *dwta) check(r *mc.R, res []int, v []float64, present []bool, what string) {
	if len(res) != d.n {
		r.Failf("%s: %d codes, want %d", what, len(res), d.n)
	}
	empty := make([]bool, d.n)
	for b := range res {
		max := math.Inf(-1)
		any := false
		for _, pl := range d.bins[b] {
			if present[pl.coord] {
				any = true
				if v[pl.coord] > max {
					max = v[pl.coord]
				}
			}
		}
		if !any {
			empty[b] = true
			continue
		}
		ok := false
		for _, pl := range d.bins[b] {
			ok = ok || present[pl.coord] && v[pl.coord] == max && pl.pos == res[b]
		}
		if !ok {
			r.Failf("%s: values %v present %v: bin %d has code %d, not a position of its largest value; it holds %v", what, v, present, b, res[b], d.bins[b])
		}
	}
	for b := range res {
		if !empty[b] {
			continue
		}
		want := 0
		how := "no probe finds a bin"
		for c := 1; c <= 100; c++ {
			p := d.h.GetRandDoubleHash(b, c)
			if p > d.n-1 {
				p = d.n - 1
			}
			if p >= 0 && !empty[p] {
				want = res[p]
				how = fmt.Sprintf("probe %d finds bin %d", c, p)
				break
			}
		}
		if res[b] != want {
			r.Failf("%s: values %v present %v: empty bin %d has code %d, want %d: %s", what, v, present, b, res[b], want, how)
		}
		r.Outcome(how[:5])
	}
}

func distinct(p []pair) bool {
	for i := range p {
		for j := range p[:i] {
			if p[i].Value == p[j].Value {
				return false
			}
		}
	}
	return true
}

// sparseVector checks a sparse vector in several orders.
func (d *dwta) sparseVector(r *mc.R, g *guard, p []pair) {
	v, present := make([]float64, d.dim), make([]bool, d.dim)
	for _, x := range p {
		v[x.Index], present[x.Index] = x.Value, true
	}
	uniq := distinct(p)
	var first []int
	orders(p, func(q []pair) {
		res := g.sparse(d.h.GetHash, q)
		d.check(r, res, v, present, g.what)
		if first == nil {
			first = copyInts(res)
		} else if uniq && !eqInts(first, res) {
			// distinct values leave only the copies of one coordinate within a bin
			r.Failf("%s: %v hashes to %v, another order to %v", g.what, q, res, first)
		}
	})
	h := mc.NewH().Add(d.tag)
	for _, x := range p {
		h = h.Add(uint64(x.Index)).Add(uint64(int64(x.Value * 16)))
	}
	r.StateHash(uint64(h))
}

func (d *dwta) denseVector(r *mc.R, g *guard, v []float64) {
	present := make([]bool, d.dim)
	for i := range present {
		present[i] = true
	}
	res := g.dense(func(x []float64) []int { return d.h.GetHashEasy(x, 30) }, v)
	d.check(r, res, v, present, g.what)
	// the coordinates up to some number only
	ms := []int{0, 1, d.dim / 2, d.dim - 1}
	if d.dim > 8 {
		ms = []int{1 + len(v)/3}
	}
	for k, m := range ms {
		if m > d.dim || k > 0 && m <= ms[k-1] {
			continue
		}
		part := make([]bool, d.dim)
		copy(part, present[:m])
		res := g.dense(func(x []float64) []int { return d.h.GetHashEasy(x, 30) }, v[:m])
		d.check(r, res, v, part, fmt.Sprintf("%s, dense vector of %d coordinates", g.what, m))
	}
	p := full(v)
	s := g.sparse(d.h.GetHash, p)
	if !eqInts(s, res) && distinct(p) {
		r.Failf("%s: dense %v hashes to %v, listed as a sparse vector to %v", g.what, v, res, s)
	}
	r.StateHash(hashVec(d.tag+1, v))
}

var c05 = mc.Prop{ID: "C05", Level: "model_checking",
	Rule:        "every outcome of the permutation draws for small dimensions (bounded deviations from fixed streams for larger ones, up to 70001 coordinates) and several probe constants, every sparse and dense vector over a small alphabet, every pair order; a state is a (tables, vector) pair; codes are recomputed from the hasher's bin and position tables and its probe function",
	Assumptions: []string{"vectors are finite and without repeated coordinates"},
	Fn: func(r *mc.R) {
		for _, s := range [][2]int{{2, 1}, {3, 1}, {4, 1}, {8, 1}} {
			dim, n := s[0], s[1]
			perms := (8*n + dim - 1) / dim
			reach(r, fmt.Sprintf("dim %d bins %d", dim, n), nil, factPow(dim, perms), func() string {
				h := densified_wta_hash.New(n, dim)
				idx, pos := dwtaTables(h, n, dim)
				return tableKey(idx, pos)
			})
		}
		bits := []uint64{0x123456789abcdef1, 1, math.MaxInt64, 0x9E3779B97F4A7C15, 1<<29 + 1}
		type dims struct{ dim, n int }
		alpha := []float64{-2, 0, 1, 3}
		for _, s := range []dims{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {4, 1}, {3, 2}, {4, 2}, {2, 4}, {5, 1}, {5, 3}, {6, 4}, {4, 8}, {8, 1}, {8, 4}, {3, 5}} {
			for bi := range bits {
				s, bi := s, bi
				perms := (8*s.n + s.dim - 1) / s.dim
				fact, total := 1, 1
				for i := 2; i <= s.dim; i++ {
					fact *= i
				}
				for i := 0; i < perms && total < 1e7; i++ {
					total *= fact
				}
				bound := -1
				if total > 1000 && (!r.Thorough() || total > 20000) {
					bound = 1
					if r.Thorough() && s.dim <= 5 {
						bound = 2
					}
				}
				vals := alpha
				if s.dim > 4 {
					vals = []float64{-2, 3}
					if r.Thorough() && s.dim < 8 {
						vals = []float64{-2, 0, 3}
					}
				}
				r.Case(fmt.Sprintf("all vectors/dim %d bins %d/probe constant %d", s.dim, s.n, bi), func() {
					what := fmt.Sprintf("dim %d, %d bins, probe constant %d", s.dim, s.n, bi)
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						var src *env.Source
						if bound < 0 {
							src = env.Choices(c, 1, nil)
						} else {
							src = env.Deviations(c, 1)
						}
						nb := bi
						src.BitsF = func() uint64 { nb++; return bits[(nb-1)%len(bits)] }
						env.Use(src)
						d := newDwta(r, s.n, s.dim, what)
						env.Use(env.Fixed(9))
						g := &guard{r: r, what: what}
						// every sparse vector: each coordinate absent or one of the values
						tuples(s.dim, len(vals)+1, func(t []int) {
							p := []pair{}
							for i, a := range t {
								if a > 0 {
									p = append(p, pair{Index: i, Value: vals[a-1]})
								}
							}
							d.sparseVector(r, g, p)
						})
						vectors(s.dim, vals, func(v []float64) { d.denseVector(r, g, v) })
					})
				})
			}
		}
		for _, s := range []dims{{8, 2}, {9, 8}, {16, 16}, {10, 3}, {20, 16}, {32, 64}, {33, 7}, {64, 32}, {100, 100}, {784, 128}, {40, 256}, {784, 300}, {12, 24}, {5000, 700}, {9001, 20}, {70001, 7}} {
			for seed := uint64(1); seed <= 5 && (seed == 1 || s.dim < 10000); seed++ {
				s, seed := s, seed
				r.Case(fmt.Sprintf("structured/dim %d bins %d/stream %d", s.dim, s.n, seed), func() {
					what := fmt.Sprintf("dim %d, %d bins, stream %d", s.dim, s.n, seed)
					bound := 0
					if s.dim <= 16 || r.Thorough() && s.dim <= 33 {
						bound = 1
					}
					r.Explore(bound, 0, func(c *mc.Chooser) {
						r.Eval()
						src := env.Deviations(c, seed)
						if seed > 3 {
							src.BitsF = func() uint64 { return bits[seed-3] }
						}
						env.Use(src)
						d := newDwta(r, s.n, s.dim, what)
						g := &guard{r: r, what: what}
						d.sparseVector(r, g, nil)
						step := 1
						if s.dim > 40 {
							step = s.dim/40 + 1
						}
						if s.dim > 1000 {
							step = s.dim/8 + 1
						}
						if len(c.V) > 0 && bound == 1 {
							step = step + 2
						}
						for i := 0; i < s.dim; i += step {
							for _, x := range []float64{0.5, -3, 0, -1e300} {
								d.sparseVector(r, g, []pair{{Index: i, Value: x}})
							}
							for j := 0; j < i; j += step {
								d.sparseVector(r, g, []pair{{Index: j, Value: 2}, {Index: i, Value: -1}})
								d.sparseVector(r, g, []pair{{Index: i, Value: 2}, {Index: j, Value: 2}})
							}
						}
						p := []pair{}
						for i := 0; i < s.dim; i += 3 {
							p = append(p, pair{Index: i, Value: float64((i*13)%29) - 9.5})
						}
						d.sparseVector(r, g, p)
						v := make([]float64, s.dim)
						for k := 0; k < 6; k++ {
							for i := range v {
								switch k {
								case 0:
									v[i] = float64(i) - 3
								case 1:
									v[i] = -float64(i)
								case 2:
									v[i] = 0
								case 3:
									v[i] = -1e300 * float64(i+1) / 1e3
								case 4:
									v[i] = float64((i*31)%s.dim) * 1e-300
								case 5:
									v[i] = -1e19
								}
							}
							d.denseVector(r, g, v)
							d.sparseVector(r, g, full(v))
						}
					})
				})
			}
		}
		// many calls between two that share nothing
		r.Case("calls/many", func() {
			r.Eval()
			env.Use(env.Fixed(7))
			dense, few := make([]float64, 20), make([]float64, 20)
			for i := range dense {
				dense[i] = float64(i*7%20) + 1
			}
			few[3] = 0.5
			d := newDwta(r, 8, 20, "many calls")
			g := &guard{r: r, what: "many calls"}
			d.sparseVector(r, g, full(dense))
			d.denseVector(r, g, dense)
			for i := 0; i < 1<<16+300; i++ {
				d.sparseVector(r, g, nonzero(few))
				if i%4096 == 0 {
					r.StateHash(hashInts(uint64(i), nil))
				}
			}
		})
		r.Case("calls/interleaved", func() {
			env.Use(env.Fixed(6))
			for _, s := range []dims{{3, 2}, {6, 4}, {20, 8}} {
				what := fmt.Sprintf("dim %d, %d bins, interleaved calls", s.dim, s.n)
				ds := [2]*dwta{newDwta(r, s.n, s.dim, what), newDwta(r, s.n*2, s.dim, what)}
				g := &guard{r: r, what: what}
				var vs [][]float64
				for k := 0; k < 5; k++ {
					v := make([]float64, s.dim)
					for i := range v {
						v[i] = float64((i*(k+2)+k)%5) - 2
					}
					vs = append(vs, v)
				}
				buf := make([]float64, s.dim)
				pbuf := make([]pair, s.dim)
				present := make([]bool, s.dim)
				tuples(3, 2*5*2, func(seq []int) {
					r.Eval()
					for _, o := range seq {
						d, k, sparse := ds[o%2], o/2%5, o >= 10
						copy(buf, vs[k])
						var res []int
						for i := range present {
							present[i] = !sparse || vs[k][i] != 0
						}
						if sparse {
							res = g.sparse(d.h.GetHash, pbuf[:copy(pbuf, nonzero(buf))])
						} else {
							res = g.dense(func(x []float64) []int { return d.h.GetHashEasy(x, 30) }, buf)
						}
						d.check(r, res, vs[k], present, what)
					}
					r.StateHash(hashInts(uint64(s.dim), seq))
				})
			}
		})
	}}
