package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

var c12 = mc.Prop{
	ID: "C12", Level: "model_checking", Fn: runC12,
	Rule: "(a) all parameter tuples over small, extreme and nearly equal alphabets on small networks x all example pairs over small alphabets (labels: none, one, several, wrong), modes 1-4, training and prediction sparsities unequal: the count is compared with the reference top-1 count, and the full state (parameters, optimizer state, tables, hash functions) before and after; the same for all sequences of up to 2 (3) calls ending in a prediction on networks large in one respect each, for predictions within histories of 65560 calls, and with the winner at 25 places of layers of up to 5003 neurons; (b) all interleavings of up to 3 (4) training calls with up to 2 predictions inserted at every position: the state after every training call is compared with that of a twin network that never predicted",
	Assumptions: []string{
		"the neurons active in a prediction are predicted from the hashers and tables (decided by C02-C07, C09); for mode 2 any allowed sample is accepted",
		"between classes whose logits are equal up to rounding any choice is accepted",
		"random draws in a training call are the same with and without earlier inference"},
}

// hits is the range of correct predictions the reference allows.
func (n *net) hits(ex []example) (lo, hi int) {
	n.s.configure()
	P := n.params()
	hs := n.hashers()
	for _, e := range ex {
		can, cannot := false, false
		for _, t := range n.forward(P, hs, e, nil, n.s.sp[len(n.s.sizes):]) {
			set := t.act[len(t.act)-1]
			lab := distinct(e.Labels)
			if t.open {
				can, cannot = true, true
				break
			}
			if len(set) == 0 {
				cannot = true
			}
			best := 0
			for i := range set {
				if t.z[i] > t.z[best] {
					best = i
				}
			}
			for i, c := range set {
				tol := 4*(t.zerr[i]+t.zerr[best]) + 1e-15
				if t.vague {
					tol = 1e-6
				}
				// stored activations exp(z-max) are equal when both round to 1 or to 0
				if t.z[i] >= t.z[best]-tol {
					if lab[c] {
						can = true
					} else {
						cannot = true
					}
				}
			}
		}
		if can {
			hi++
			if !cannot {
				lo++
			}
		}
	}
	return
}

func (n *net) predictChecked(r *mc.R, id int, ex []example, what string) *net {
	lo, hi := n.hits(ex)
	before := n.dump()
	c, m := n.predict(id, ex)
	r.Eval()
	r.Step(1)
	if c < lo || c > hi {
		r.Failf("%s: predicting {%s}: %d correct, want %d..%d", what, exString(ex), c, lo, hi)
	}
	if d := m.dump().diff(before); d != "" {
		r.Failf("%s: predicting {%s} changed the network: %s", what, exString(ex), d)
	}
	r.Outcome(fmt.Sprintf("mode %d: %d of %d correct (%d possible)", n.s.mode, c, len(ex), hi-lo+1))
	return m
}

func runC12(r *mc.R) {
	th := r.Thorough()

	// (a)
	type arch struct {
		in    int
		sizes []int
		mode  configuration.LayerModeType
		sp    []float64
		w     []float64
	}
	ter, ext, near := []float64{0, 1, -1}, []float64{0, 800, -800, 1e6}, []float64{0, 1, 1 + 1e-9, 1 - 1e-11}
	archs := []arch{
		{1, []int{2}, configuration.LayerMode4, []float64{0.5, 1}, ter},
		{1, []int{2}, configuration.LayerMode4, []float64{1, 1}, ext},
		{1, []int{2}, configuration.LayerMode4, []float64{0.5, 1}, near},
		{1, []int{3}, configuration.LayerMode1, []float64{1, 0.5}, ter},
		{2, []int{2}, configuration.LayerMode1, []float64{0.5, 0.3}, ter},
		{1, []int{3}, configuration.LayerMode2, []float64{1, 0.7}, ter},
		{1, []int{3}, configuration.LayerMode3, []float64{1, 0.4}, ter},
		{1, []int{1, 2}, configuration.LayerMode3, []float64{1, 0.5, 1, 0.5}, ter},
		{1, []int{2, 2}, configuration.LayerMode1, []float64{0.5, 0.5, 1, 1}, []float64{1, -1}},
		{1, []int{2}, configuration.LayerMode3, []float64{1, 0}, ter},
	}
	for _, a := range archs {
		for _, hf := range families {
			s := (&spec{in: a.in, sizes: a.sizes, sp: a.sp, batch: 2, lr: 0.5, hf: hf, adam: true, mode: a.mode}).tables(1, 4, 1)
			np := numParams(s)
			free := np
			if free > 6 {
				free = 6
			}
			a := a
			vals := []float64{0, 1, -2}
			lists := [][]int{{}, {0}, {1}, {0, 1}}
			if a.w[1] == 800 {
				vals = []float64{1, -1e100, 1e-3}
			}
			exs := examplesOver(vals, a.in, lists)
			for fi, first := range a.w {
				first := first
				r.Case(fmt.Sprintf("count%d alphabet%v %s", fi, a.w, s.key()), func() {
					tuplesOf(free-1, a.w, func(rest []float64) {
						if r.Expired() {
							return
						}
						w := append([]float64{first}, rest...)
						n := s.withTuple(w).build()
						what := fmt.Sprintf("parameters %v", w)
						for i := range exs {
							n = n.predictChecked(r, 0, exs[i:i+1], what)
							if th || i%3 == 0 {
								n = n.predictChecked(r, 0, []example{exs[i], exs[(i*7+3)%len(exs)]}, what)
							}
						}
						n.predictChecked(r, 0, nil, what)
						r.State(s.key(), w)
					})
					if r.Expired() {
						r.Skipped++
					}
				})
			}
		}
	}

	// large networks
	bd := 2
	if th {
		bd = 3
	}
	bigHistories(r, bd, func(b *bigNet, ops []op, t []int) {
		if len(t) == 0 || !ops[t[len(t)-1]].predict {
			return
		}
		n := b.build()
		for i, o := range t {
			if i < len(t)-1 {
				n = ops[o].apply(n)
				r.Step(1)
			} else {
				n.predictChecked(r, 0, ops[o].ex, "calls "+opNames(ops, t))
			}
		}
	})

	longHistories(r, true, func(n *net, o *op, id int, what string) *net {
		return n.predictChecked(r, id, o.ex, what)
	})

	// winners at all places of large layers
	for _, size := range []int{130, 513, 1500, 5003} {
		size := size
		for fi, sp := range [][]float64{{1, 1}, {0.5, 1}} {
			s := (&spec{in: 2, sizes: []int{size}, sp: sp, batch: 2, lr: 0.1, adam: fi == 0, hf: srp, mode: configuration.LayerMode3, seed: 3}).tables(1, 1, 0)
			s.params = func(i int) float64 {
				if i >= 2*size {
					return 0
				}
				return 300 * [2]func(float64) float64{math.Cos, math.Sin}[i%2](2*math.Pi*float64(i/2)/float64(size))
			}
			s.pname = "circle"
			r.Case("winners "+s.key(), func() {
				n := s.build()
				step := size/25 + 1
				for i := size - 1; i >= 0; i -= step {
					a := 2 * math.Pi * float64(i) / float64(size)
					f := []pair{{Index: 0, Value: math.Cos(a)}, {Index: 1, Value: math.Sin(a)}}
					n = n.predictChecked(r, 0, []example{{Features: f, Labels: []int{i}}, {Features: f, Labels: []int{(i + 1) % size, (i + size - 1) % size}}}, fmt.Sprintf("direction %d", i))
				}
			})
		}
	}

	// (b)
	d := 2
	if th {
		d = 3
	}
	for _, s := range append(smallNets(th), mode2Nets(th)...) {
		s := s
		var trains, preds []op
		for _, o := range netOps(s) {
			if o.predict {
				preds = append(preds, o)
			} else {
				trains = append(trains, o)
			}
		}
		r.Case("interleavings "+s.key(), func() {
			for k := 1; k <= d; k++ {
				tuples(k, len(trains), func(t []int) {
					if r.Expired() {
						return
					}
					// the twin without inference
					var want []*full
					n := s.build()
					for _, o := range t {
						n = trains[o].apply(n)
						want = append(want, n.dump())
					}
					run := func(ins [][]int, what string) {
						n := s.build()
						for i, o := range t {
							for _, p := range ins[i] {
								n = n.predictChecked(r, 0, preds[p].ex, what)
							}
							n = trains[o].apply(n)
							r.Step(1)
							if d := n.dump().diff(want[i]); d != "" {
								r.Failf("%s: after training call %d, unlike without inference: %s", what, i, d)
							}
						}
						r.State(s.key(), t, ins)
					}
					// one or two predictions at every pair of positions
					for i := 0; i < k; i++ {
						for j := i; j < k; j++ {
							for p := range preds {
								ins := make([][]int, k)
								ins[i] = append(ins[i], p)
								if j > i || k == 1 {
									ins[j] = append(ins[j], (p+1)%len(preds))
								}
								run(ins, fmt.Sprintf("calls %s, predictions before them %v", opNames(trains, t), ins))
							}
						}
					}
				})
			}
			if r.Expired() {
				r.Skipped++
			}
		})
	}
}
