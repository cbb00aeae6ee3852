package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/env"
	"goslideverif/mc"
)

var c11 = mc.Prop{
	ID: "C11", Level: "model_checking", Fn: runC11,
	Rule: "(a) all parameter tuples over {-1,0,1} of small one- and two-layer networks, all examples over small feature and label alphabets, alone and in pairs (both orders), both optimizers; (b) all sequences of up to 2 (3) training and prediction calls with all flags on networks of 1-3 layers with unequal per-layer settings, all families, modes 1-4, batches smaller than the batch size, iterations 0, 1, 5, 6945, ...; (c) all sequences of up to 2 (3) calls on networks large in one respect each (1500 inputs, 300 hidden neurons, 400-2100 classes, batches of 300, 130 tables, 8 layers, 30 labels), histories of 65560 calls in place and under changing ids (checked around every place where a counter of 8 to 16 bits comes round), and iterations around every power of two up to 2^39; every training call is one transition, compared with one optimizer step of a reference network computed from the state read back before it",
	Assumptions: []string{
		"which neurons an example activates is predicted from the hashers and tables (decided by C02-C07, C09); for mode 2 any allowed sample is accepted",
		"labels of an example are distinct; calls in which a ReLU pre-activation is within rounding error of 0 without being 0 are left out (counted)"},
}

func (s *spec) withTuple(w []float64) *spec {
	c := *s
	c.params = func(i int) float64 { return w[i%len(w)] }
	c.pname = fmt.Sprint(w)
	return &c
}

func numParams(s *spec) int {
	n, prev := 0, s.in
	for _, z := range s.sizes {
		n += z*prev + z
		prev = z
	}
	return n
}

func examplesOver(values []float64, in int, labels [][]int) []example {
	var o []example
	tuplesOf(in, values, func(v []float64) {
		for _, l := range labels {
			o = append(o, example{Features: sparseOf(v), Labels: copyOf(l)})
		}
	})
	return o
}

func runC11(r *mc.R) {
	th := r.Thorough()

	// (a)
	type arch struct {
		in    int
		sizes []int
	}
	archs := []arch{{1, []int{2}}, {2, []int{2}}, {1, []int{1, 2}}, {1, []int{2, 2}}}
	if th {
		archs = append(archs, arch{2, []int{1, 2}}, arch{1, []int{1, 1, 2}}, arch{1, []int{3}})
	}
	for _, a := range archs {
		for _, adam := range []bool{true, false} {
			s := (&spec{in: a.in, sizes: a.sizes, sp: []float64{1, 1, 1, 1, 1, 1}[:2*len(a.sizes)], batch: 2, lr: 0.5,
				adam: adam, hf: srp, mode: configuration.LayerMode4}).tables(1, 1, 0)
			np := numParams(s)
			values := []float64{0, 1, -2}
			lists := [][]int{{}, {0}, {1}, {0, 1}}
			if np > 8 {
				values = []float64{1, -2}
				lists = [][]int{{0}, {1, 0}}
			}
			exs := examplesOver(values, a.in, lists)
			free := np
			if free > 8 {
				free = 8
			}
			if !th && free > 6 {
				free = 6
			}
			for first := 0; first < 9; first++ {
				first := first
				r.Case(fmt.Sprintf("tuples%d %s", first, s.key()), func() {
					tuplesOf(free-2, []float64{1, -1, 0}, func(rest []float64) {
						w := append([]float64{float64(first%3 - 1), float64(first/3 - 1)}, rest...)
						if free < np {
							w = append(w, 0.5)
						}
						if r.Expired() {
							return
						}
						t := s.withTuple(w)
						what := fmt.Sprintf("parameters %v", w)
						for i, e := range exs {
							t.build().step_(r, 0, []example{e}, 0, false, false, what)
							for j, f := range exs {
								if !th && (i+j)%3 != 0 {
									continue
								}
								m := t.build().step_(r, 0, []example{e, f}, 1, false, false, what)
								if (i+j)%4 == 0 {
									m.step_(r, 0, []example{f}, 2, false, false, what+" after another call")
								}
							}
						}
						r.State(w)
					})
					if r.Expired() {
						r.Skipped++
					}
				})
			}
		}
	}

	// (b)
	nets := append(smallNets(th), mode2Nets(th)...)
	for _, s := range nets {
		s := s
		ops := netOps(s)
		d := 3
		if th {
			d = 4
		}
		if s.mode == configuration.LayerMode2 {
			d--
		}
		for f := range ops {
			f := f
			r.Case(fmt.Sprintf("history %d %s", f, s.key()), func() {
				for k := 0; k < d; k++ {
					tuples(k, len(ops), func(t []int) {
						if r.Expired() {
							return
						}
						n := s.build()
						full := append([]int{f}, t...)
						for i, o := range full {
							// only the last call is new; the others were checked as shorter histories
							if i < len(full)-1 || ops[o].predict {
								n = ops[o].apply(n)
								r.Step(1)
								continue
							}
							p := ops[o]
							n = n.step_(r, 0, p.ex, p.iter, p.rehash, p.rebuild, "history "+opNames(ops, full))
						}
						env.Use(s.source(3))
						r.State(s.key(), full)
					})
				}
				if r.Expired() {
					r.Skipped++
				}
			})
		}
	}

	// (c)
	bd := 2
	if th {
		bd = 3
	}
	bigC11(r, bd)
	longHistories(r, false, func(n *net, o *op, id int, what string) *net {
		return n.step_(r, id, o.ex, o.iter, o.rehash, o.rebuild, what)
	})
	// iterations of any size
	for _, s := range smallNets(false)[:4] {
		s := s
		r.Case("iterations "+s.key(), func() {
			b := batches(s)
			for sh := 0; sh < 40; sh++ {
				for d := -1; d <= 1; d++ {
					it := 1<<sh + d
					m := s.build().step_(r, 0, b[2], it, false, false, "first call")
					m.step_(r, 0, b[0], it+1, false, false, "second call")
					r.State(s.key(), it)
				}
			}
		})
	}
}

// bigC11 checks the last call of sequences on large networks.
func bigC11(r *mc.R, depth int) {
	bigHistories(r, depth, func(b *bigNet, ops []op, t []int) {
		if len(t) == 0 || ops[t[len(t)-1]].predict {
			return
		}
		n := b.build()
		for i, o := range t {
			if i < len(t)-1 {
				n = ops[o].apply(n)
				r.Step(1)
				continue
			}
			p := ops[o]
			n = n.step_(r, 0, p.ex, p.iter, p.rehash, p.rebuild, "calls "+opNames(ops, t))
		}
	})
}

func mode2Nets(th bool) []*spec {
	var o []*spec
	for _, adam := range []bool{true, false} {
		for seed := uint64(0); seed < 3; seed++ {
			o = append(o, (&spec{in: 2, sizes: []int{2, 4}, sp: []float64{1, 0.5, 1, 0.5}, batch: 2, lr: 0.3, adam: adam,
				hf: families[seed], mode: configuration.LayerMode2, seed: seed}).tables(1, 2, 1))
		}
	}
	return o
}
