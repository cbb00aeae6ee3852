package main

import (
	"fmt"
	"math"

	"goslideverif/mc"
)

var c28 = mc.Prop{
	ID: "C28", Level: "model_checking", Fn: runC28,
	Rule:        "every combination of input count (1-100 around 8, the window of the hash families), layer sizes (1-3 layers of 1-20 neurons), hash family, layer mode, optimizer, K, L, rangePow, sparsity and batch size from the listed values is one network, on which all sequences of up to 2 (3) calls are made (training without and with each flag, empty example lists, examples without features or without labels, repeated labels, iterations 0 to 1000000, predictions); larger networks (over 1000 neurons, 300 inputs, batches of 64) on fewer combinations; initial weights from fixed streams, all zero, all equal, and large; no call may panic or fail to end, counts must be possible, and every weight, bias and moment must be finite",
	Assumptions: []string{"features are finite and at most 1000 in absolute value, learning rates at most 1 with plain SGD"},
}

func finite(v ...float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func (n *net) checkFinite(r *mc.R, what string) {
	for i, l := range n.params() {
		for j := range l {
			p := &l[j]
			if !finite(p.W...) || !finite(p.M...) || !finite(p.V...) || !finite(p.B, p.MB, p.VB) {
				r.Failf("%s: layer %d neuron %d has weights %v, bias %v, moments %v %v %v %v", what, i, j, p.W, p.B, p.M, p.V, p.MB, p.VB)
			}
		}
	}
}

var constParams = []struct {
	name string
	f    func(int) float64
}{
	{"stream", nil},
	{"zero", func(int) float64 { return 0 }},
	{"equal", func(int) float64 { return 0.25 }},
	{"large", func(i int) float64 { return []float64{1000, -1000, 0}[i%3] }},
}

// robustOps are calls with unusual and usual arguments that fit s.
func robustOps(s *spec) []op {
	b := batches(s)
	last := b[len(b)-1]
	out := s.sizes[len(s.sizes)-1]
	all := example{Labels: []int{out - 1, 0, out - 1}}
	for i := 0; i < s.in; i++ {
		all.Features = append(all.Features, pair{Index: s.in - 1 - i, Value: float64(i%7)*300 - 800})
	}
	full := []example{}
	for len(full) < s.batch {
		full = append(full, all, example{Features: []pair{{Index: s.in - 1, Value: 1e-3}}, Labels: []int{}},
			example{Features: []pair{}, Labels: []int{0}})
	}
	full = full[:s.batch]
	return []op{
		{name: "train", ex: last, iter: 1},
		{name: "train full", ex: full, iter: 0},
		{name: "rehash", ex: full, iter: 1000000, rehash: true},
		{name: "rebuild", ex: last, iter: 10, rebuild: true},
		{name: "both", ex: full, iter: 2, rehash: true, rebuild: true},
		{name: "train nothing", ex: []example{}, iter: 3},
		{name: "rehash nothing", ex: []example{}, iter: 3, rehash: true},
		{name: "predict", predict: true, ex: last},
		{name: "predict full", predict: true, ex: full},
		{name: "predict nothing", predict: true, ex: []example{}},
	}
}

func runC28(r *mc.R) {
	th := r.Thorough()
	ins := []int{1, 2, 7, 8, 9, 17, 100}
	shapes := [][]int{{1}, {2}, {9}, {1, 1}, {2, 3}, {20, 7}, {3, 1, 2}}
	ks, ls, rps := []int{1, 3, 8}, []int{1, 4}, []int{1, 3, 6}
	sps := []float64{0, 0.5, 1}
	bs := []int{2}
	if th {
		ins = append(ins, 3, 6, 16, 64)
		shapes = append(shapes, []int{3}, []int{8}, []int{64}, []int{1, 1, 1, 1}, []int{2, 5, 3})
		ks, ls, rps = append(ks, 2, 4), append(ls, 2, 50), append(rps, 2, 9)
		sps = append(sps, 0.005, 0.99)
		bs = append(bs, 1, 5)
	}
	for _, hf := range families {
		for _, mode := range modes() {
			for _, in := range ins {
				for _, sizes := range shapes {
					for _, k := range ks {
						for _, adam := range []bool{true, false} {
							hf, mode, in, sizes, k, adam := hf, mode, in, sizes, k, adam
							r.Case(fmt.Sprintf("hf%d mode%d in%d sizes%v k%d adam%v", hf, mode, in, sizes, k, adam), func() {
								no := 0
								for _, l := range ls {
									for _, rp := range rps {
										for _, sp := range sps {
											for _, batch := range bs {
												if r.Expired() {
													r.Skipped++
													return
												}
												no++
												s := &spec{in: in, sizes: sizes, batch: batch, lr: 0.01, hf: hf, mode: mode, adam: adam, seed: uint64(no)}
												s.tables(k, l, rp)
												for i := 0; i < 2*len(sizes); i++ {
													s.sp = append(s.sp, sp)
												}
												p := constParams[no%len(constParams)]
												s.params, s.pname = p.f, p.name
												sequencesC28(r, s, 1)
											}
										}
									}
								}
							})
						}
					}
				}
			}
		}
	}
	depth := 2
	if th {
		depth = 3
	}
	for _, s := range append(smallNets(th), mode2Nets(th)...) {
		for _, p := range constParams {
			c := *s
			c.params, c.pname = p.f, p.name
			s := &c
			r.Case("sequences "+s.key(), func() { sequencesC28(r, s, depth) })
		}
	}
	for i, hf := range families {
		for j, mode := range modes() {
			for _, adam := range []bool{true, false} {
				for _, s := range []*spec{
					(&spec{in: 300, sizes: []int{16, 1030}, batch: 64, lr: 0.01, sp: []float64{1, 0.005, 1, 1}}).tables(2, 6, 8),
					(&spec{in: 40, sizes: []int{1001, 12}, batch: 3, lr: 1, sp: []float64{0.1, 1, 0.1, 0.5}}).tables(1, 3, 3),
				} {
					s.hf, s.mode, s.adam, s.seed = hf, mode, adam, uint64(i*4+j)
					s := s
					r.Case("large "+s.key(), func() { sequencesC28(r, s, 1) })
				}
			}
		}
	}
}

// sequencesC28 makes all sequences of up to depth calls on networks of s.
func sequencesC28(r *mc.R, s *spec, depth int) {
	ops := robustOps(s)
	for d := 1; d <= depth; d++ {
		tuples(d, len(ops), func(t []int) {
			if r.Expired() || d < depth && depth > 1 {
				return
			}
			r.Eval()
			n := s.build()
			if d == 1 {
				n.checkFinite(r, s.key()+": a new network")
			}
			for i, o := range t {
				what := fmt.Sprintf("%s: calls %s", s.key(), opNames(ops, t[:i+1]))
				var c int
				c, n = robustCall(r, n, &ops[o], what)
				if c < 0 || c > len(ops[o].ex) {
					r.Failf("%s: %d of %d examples predicted correctly", what, c, len(ops[o].ex))
				}
				r.Step(1)
				n.checkFinite(r, what)
			}
			r.State(s.key(), t)
		})
	}
}

func robustCall(r *mc.R, n *net, o *op, what string) (c int, m *net) {
	if p, v := mc.Protect(func() { c, m = o.do(n, n.id) }); p {
		r.Failf("%s: panic: %v", what, v)
	}
	return
}
