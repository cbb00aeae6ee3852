package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/env"
	"goslideverif/mc"
)

var c23 = mc.Prop{
	ID: "C23", Level: "model_checking", Fn: runC23,
	Rule: "(a) real layers of 1-2 (3) neurons whose weights are all tuples of permutations of 2-4 distinct exact values (among them 0, and values 1e-9 apart; and of sign patterns), all families, modes 1 and 4, several table layouts of 3 or more tables, each neuron's weights presented as input in every listing order; (b) layers over 9-150 inputs with distinct weights from fixed streams, several listing orders; (c) layers of 1001-1700 neurons in mode 4, and networks large in one respect each after rehash and rebuild; (d) networks of 1-3 layers after all sequences of up to 2 (3) calls ending in a rehash or rebuild, every neuron of every sampled layer; a presented neuron must be held by the bucket of every table the input selects and must be active after the query",
	Assumptions: []string{
		"neurons whose weights have equal coordinates, or whose bucket holds more than the 128 it has room for, are not presented",
		"the hashers and tables of the layer are used for the bucket check, the layer's query for the activity check"},
}

// listings are orders in which the coordinates of a vector can be listed.
func listings(n int, all bool) [][]int {
	var o [][]int
	if all {
		var rec func(v []int, used int)
		rec = func(v []int, used int) {
			if len(v) == n {
				o = append(o, copyOf(v))
				return
			}
			for i := 0; i < n; i++ {
				if used>>i&1 == 0 {
					rec(append(v, i), used|1<<i)
				}
			}
		}
		rec(nil, 0)
		return o
	}
	asc, desc, inter, rot := make([]int, n), make([]int, n), []int{}, make([]int, n)
	for i := range asc {
		asc[i], desc[i], rot[i] = i, n-1-i, (i+n/3+1)%n
	}
	for i := 0; i < (n+1)/2; i++ {
		inter = append(inter, i)
		if n-1-i != i {
			inter = append(inter, n-1-i)
		}
	}
	return [][]int{asc, desc, inter, rot}
}

// orders caches the listings of short vectors.
var orders = map[int][][]int{}

func listingsOf(n int) [][]int {
	o, ok := orders[n]
	if !ok {
		o = listings(n, n <= 4)
		orders[n] = o
	}
	return o
}

func allDistinct(w []float64) bool {
	m := map[float64]bool{}
	for _, x := range w {
		if x != x || m[x] {
			return false
		}
		m[x] = true
	}
	return true
}

// present offers the weights of neuron id of y as its input; sizes[t][a] is
// the number of neurons that belong at address a of table t.
func (y *lay) present(r *mc.R, h *hasher, id int, belong []map[int]int, few bool, what string) {
	w := y.st[id].W
	if !allDistinct(w) {
		r.Note("neurons not presented: equal coordinates", 1)
		return
	}
	for i, ord := range listingsOf(len(w)) {
		if few && i > 1 {
			break
		}
		in := make([]pair, len(w))
		for i, c := range ord {
			in[i] = pair{Index: c, Value: w[c]}
		}
		addr := h.addr(h.sparse(in))
		for t, ids := range h.lsh.RetrieveRaw(addr) {
			if belong[t][addr[t]] > 128 {
				r.Note("neurons not presented: full bucket", 1)
				return
			}
			found := false
			for _, x := range ids {
				found = found || x == id
			}
			if !found {
				r.Failf("%sthe weights %v of neuron %d as input, listed as %v: table %d gives %v", what, w, id, ord, t, brief(ids))
			}
		}
		slots := 1
		if !few {
			slots = y.spec.batch
		}
		for slot := 0; slot < slots; slot++ {
			env.Use(y.spec.source(3 + i))
			got, _ := query(y.l, 901, in, slot, nil, 0.5)
			found := false
			for _, p := range got {
				found = found || p.Index == id
			}
			r.Eval()
			r.Step(1)
			if !found {
				r.Failf("%sthe weights %v of neuron %d as input, listed as %v: it is not active (%d are)", what, w, id, ord, len(got))
			}
		}
	}
	r.State(y.spec.key(), what, id, w)
}

func (y *lay) presentAll(r *mc.R, few bool, what string) {
	y.spec.configure()
	h := y.hasher()
	belong := make([]map[int]int, y.spec.l[0])
	for t := range belong {
		belong[t] = map[int]int{}
	}
	for _, s := range y.st {
		for t, a := range h.addr(h.dense(s.W)) {
			belong[t][a]++
		}
	}
	for id := range y.st {
		if n := len(y.st); few && n > 2500 && id%17 != 0 && id < n-20 {
			continue
		}
		y.present(r, h, id, belong, few, what)
	}
}

// layerOf views layer i of n as a layer of its own.
func (n *net) layerOf(i int) *lay {
	s := *n.s
	s.in, s.sizes, s.k, s.l, s.rp = n.dim(i), []int{n.s.sizes[i]}, []int{n.s.k[i]}, []int{n.s.l[i]}, []int{n.s.rp[i]}
	return &lay{&s, node.ReLU, s.sizes[0], n.layers()[i], layerParams(n.layers()[i], n.s.adam)}
}

func runC23(r *mc.R) {
	th := r.Thorough()
	m1, m4 := configuration.LayerMode1, configuration.LayerMode4
	valueSets := [][]float64{{0.5, -2, 4, -0.25}, {0, 3, -1, 0.5}, {1, 1 + 1e-9, 1 - 1e-9, 1 + 3e-9}}

	// (a)
	maxN, maxDim := 2, 3
	if th {
		maxN, maxDim = 3, 4
	}
	type layout struct{ k, l, rp int }
	for _, hf := range families {
		for _, lo := range []layout{{1, 3, 1}, {2, 3, 3}, {3, 4, 6}, {4, 3, 2}} {
			for dim := 2; dim <= maxDim; dim++ {
				for _, neg := range []float64{1, -1} {
					for n := 1; n <= maxN; n++ {
						perms := listings(dim, true)
						if n == 3 && dim == 4 {
							continue
						}
						hf, lo, dim, neg, n := hf, lo, dim, neg, n
						for vi, values := range valueSets {
							values := values
							s := (&spec{in: dim, sizes: []int{n}, batch: 1, lr: 0.5, adam: n%2 == 0, hf: hf, mode: m1, sp: []float64{0.5, 0.5},
								seed: uint64(dim*7 + lo.k)}).tables(lo.k, lo.l, lo.rp)
							r.Case(fmt.Sprintf("all permutations values %d sign %v/%s", vi, neg, s.key()), func() {
								tuples(n, len(perms), func(t []int) {
									c := *s
									c.params = func(i int) float64 {
										if i >= n*dim {
											return 0
										}
										return neg * values[perms[t[i/dim]][i%dim]]
									}
									c.pname = fmt.Sprint(t)
									if sum(t)%5 == 1 {
										c.mode = m4
									}
									typ := node.ReLU
									if sum(t)%2 == 1 {
										typ = node.Softmax
									}
									buildLayer(&c, typ, c.source(0)).presentAll(r, false, fmt.Sprintf("values %v: ", values))
								})
							})
						}
					}
				}
			}
		}
	}

	// (b)
	dims := []int{9, 16, 31, 33, 64, 150, 1100, 5003}
	seeds := 6
	if th {
		dims = []int{5, 7, 8, 9, 10, 12, 16, 17, 24, 29, 30, 31, 32, 33, 47, 64, 65, 100, 128, 150, 300, 1030, 2500, 5003, 20001}
		seeds = 40
	}
	for _, hf := range families {
		for _, dim := range dims {
			for _, lo := range []layout{{1, 3, 3}, {3, 4, 7}, {6, 5, 9}, {8, 3, 4}, {22, 4, 3}, {33, 3, 9}, {40, 5, 8}, {70, 3, 10}, {140, 3, 6}} {
				hf, dim, lo := hf, dim, lo
				if lo.k > 10 && dim > 200 {
					continue
				}
				r.Case(fmt.Sprintf("generic hf%d dim%d %v", hf, dim, lo), func() {
					for seed := 0; seed < seeds && (dim < 1000 || seed < 4) && (dim < 3000 || seed < 2 || th); seed++ {
						mode := m1
						if seed%4 == 3 {
							mode = m4
						}
						s := (&spec{in: dim, sizes: []int{4}, batch: 2, lr: 0.5, adam: seed%2 == 0, hf: hf, mode: mode, sp: []float64{0.5, 0.5},
							seed: uint64(seed + 50)}).tables(lo.k, lo.l, lo.rp)
						buildLayer(s, node.ReLU, s.source(0)).presentAll(r, false, fmt.Sprintf("seed %d: ", seed))
					}
				})
			}
		}
	}

	// (c)
	for _, hf := range families {
		for _, n := range []int{1001, 1700} {
			for _, lo := range []layout{{3, 1, 6}, {4, 3, 9}} {
				s := (&spec{in: 12, sizes: []int{n}, batch: 1, lr: 0.5, hf: hf, mode: m4, sp: []float64{0.5, 0.5}, seed: uint64(n)}).tables(lo.k, lo.l, lo.rp)
				r.Case("large "+s.key(), func() {
					buildLayer(s, node.ReLU, s.source(0)).presentAll(r, true, "")
				})
			}
		}
	}

	// large networks after calls that insert all neurons again
	for _, b := range bigNets(th) {
		b := b
		if b.l[0] < 3 {
			continue
		}
		r.Case("large after calls "+b.key(), func() {
			ops := b.ops()
			for _, t := range [][]int{{}, {2}, {3}, {2, 3}, {3, 0, 2}} {
				if r.Expired() {
					r.Skipped++
					return
				}
				n := b.build()
				for _, o := range t {
					n = ops[o].apply(n)
					r.Step(1)
				}
				for i := range b.sizes {
					if len(t) > 0 && b.sp[i] == 1 {
						continue
					}
					n.layerOf(i).presentAll(r, true, fmt.Sprintf("calls %s: layer %d: ", opNames(ops, t), i))
				}
			}
		})
	}

	// (d)
	d := 2
	if th {
		d = 3
	}
	for _, s := range tableNets(th) {
		s := s
		for i := range s.l {
			if s.l[i] < 3 {
				s.l[i] = 3
			}
		}
		b := batches(s)
		ops := []op{
			{name: "rehash", ex: b[2], iter: 3, rehash: true},
			{name: "rebuild", ex: b[0], iter: 6945, rebuild: true},
			{name: "both", ex: b[3], iter: 1, rehash: true, rebuild: true},
			{name: "train", ex: b[2], iter: 0},
			{name: "predict", predict: true, ex: b[2]},
		}
		r.Case("calls "+s.key(), func() {
			for k := 0; k <= d; k++ {
				tuples(k, len(ops), func(t []int) {
					if k > 0 && t[k-1] > 2 || r.Expired() {
						return
					}
					n := s.build()
					for _, o := range t {
						n = ops[o].apply(n)
						r.Step(1)
					}
					for i := range s.sizes {
						// layers without sampling keep their first tables
						if k > 0 && s.sp[i] == 1 {
							continue
						}
						n.layerOf(i).presentAll(r, k == d, fmt.Sprintf("calls %s: layer %d: ", opNames(ops, t), i))
					}
				})
			}
			if r.Expired() {
				r.Skipped++
			}
		})
	}
}

func sum(v []int) int {
	s := 0
	for _, x := range v {
		s += x
	}
	return s
}
