package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
)

// op is a call on a network.
type op struct {
	name            string
	predict         bool
	ex              []example
	iter            int
	rehash, rebuild bool
}

// do makes the call under id; a prediction's count is returned.
func (o *op) do(n *net, id int) (int, *net) {
	if o.predict {
		return n.predict(id, o.ex)
	}
	return 0, n.train(id, o.ex, o.iter, o.rehash, o.rebuild)
}

func (o *op) apply(n *net) *net {
	_, m := o.do(n, n.id)
	return m
}

func opNames(ops []op, t []int) string {
	var b []string
	for _, i := range t {
		b = append(b, ops[i].name)
	}
	return "[" + strings.Join(b, ", ") + "]"
}

// batches are fixed example lists that fit s.
func batches(s *spec) [][]example {
	v := func(x ...float64) []pair {
		p := []pair{}
		for i, a := range x {
			if a != 0 {
				p = append(p, pair{Index: i % s.in, Value: a})
			}
		}
		return p
	}
	out := s.sizes[len(s.sizes)-1]
	lab := func(x ...int) []int {
		o := []int{}
		for _, a := range x {
			dup := false
			for _, b := range o {
				dup = dup || b == a%out
			}
			if !dup {
				o = append(o, a%out)
			}
		}
		return o
	}
	e := []example{
		{Features: v(1, -0.5), Labels: lab(0)},
		{Features: v(0.25, 2), Labels: lab(1)},
		{Features: v(-1.5), Labels: lab(1, 2)},
		{Features: v(), Labels: lab(0)},
		{Features: v(0, 1), Labels: lab()},
	}
	var o [][]example
	o = append(o, []example{e[0]}, []example{e[2]})
	if s.batch >= 2 {
		o = append(o, []example{e[0], e[1]}, []example{e[2], e[3]}, []example{e[4], e[1]})
	}
	if s.batch >= 3 {
		o = append(o, []example{e[1], e[4], e[0]})
	}
	return o
}

// netOps is the alphabet of calls for histories.
func netOps(s *spec) []op {
	b := batches(s)
	var o []op
	for i, ex := range b {
		if i == 3 && len(b) > 4 {
			continue
		}
		o = append(o, op{name: fmt.Sprintf("train %d", i), ex: ex, iter: i})
	}
	last := b[len(b)-1]
	o = append(o,
		op{name: "train+rehash", ex: last, iter: 7, rehash: true},
		op{name: "train+rebuild", ex: b[0], iter: 6945, rebuild: true},
		op{name: "predict", predict: true, ex: last},
		op{name: "predict 0", predict: true, ex: b[1]})
	return o
}

// smallNets are the networks for histories of calls.
func smallNets(thorough bool) []*spec {
	var o []*spec
	type arch struct {
		in    int
		sizes []int
		sp    []float64
		batch int
	}
	add := func(a arch, hf configuration.HashFunctionType, mode configuration.LayerModeType, adam bool, seed uint64, k, l, rp int) {
		o = append(o, (&spec{in: a.in, sizes: a.sizes, sp: a.sp, batch: a.batch, lr: 0.1 + float64(seed)*0.4,
			adam: adam, hf: hf, mode: mode, seed: seed}).tables(k, l, rp))
	}
	for _, adam := range []bool{true, false} {
		for i, hf := range families {
			m1, m3, m4 := configuration.LayerMode1, configuration.LayerMode3, configuration.LayerMode4
			add(arch{2, []int{3}, []float64{0.5, 0.5}, 2}, hf, m1, adam, uint64(i), 1, 4, 1)
			add(arch{2, []int{2, 3}, []float64{1, 0.4, 1, 1}, 2}, hf, m1, adam, uint64(i), 1, 5, 1)
			add(arch{3, []int{3, 2, 3}, []float64{1, 0.6, 0.5, 1, 0.7, 1}, 2}, hf, m4, adam, uint64(i+1), 2, 2, 2)
			add(arch{2, []int{3, 4}, []float64{1, 0.5, 1, 0.3}, 3}, hf, m3, adam, uint64(i), 1, 2, 2)
			if thorough {
				for seed := uint64(10); seed < 14; seed++ {
					add(arch{2, []int{3, 3}, []float64{0.9, 0.4, 0.8, 1}, 2}, hf, m1, adam, seed, 1, 6, 1)
					add(arch{3, []int{3, 2, 3}, []float64{1, 1, 0.5, 1, 0.7, 1}, 3}, hf, m1, adam, seed, 2, 4, 1)
					add(arch{2, []int{2, 3}, []float64{1, 1, 1, 1}, 1}, hf, m4, adam, seed, 1, 1, 1)
				}
			}
		}
	}
	return o
}
