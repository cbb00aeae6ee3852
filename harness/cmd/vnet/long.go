package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

// longLength reaches beyond counters of 16 bits.
const longLength = 65560

// watched tells whether call i of a long history is checked: around the
// places where counters of 8, 9, 10, 12, 15 and 16 bits come round, around the
// reshuffling of the random order, and now and then.
func watched(i int) bool {
	for _, c := range []int{0, 128, 256, 512, 1024, 4096, 6946, 13892, 32768, 65536} {
		if i >= c-10 && i < c+20 {
			return true
		}
	}
	return i%509 == 0
}

// longNets are the networks for long histories.
func longNets(th bool) []*spec {
	var o []*spec
	for i, adam := range []bool{true, false} {
		m1, m3, m4 := configuration.LayerMode1, configuration.LayerMode3, configuration.LayerMode4
		o = append(o,
			(&spec{in: 2, sizes: []int{3}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.01, adam: adam, hf: families[i], mode: m1, seed: uint64(i)}).tables(1, 4, 1),
			(&spec{in: 2, sizes: []int{2, 3}, sp: []float64{1, 0.4, 1, 1}, batch: 2, lr: 0.001, adam: adam, hf: families[2+i], mode: m4, seed: uint64(i)}).tables(1, 3, 1))
		if th {
			o = append(o,
				(&spec{in: 3, sizes: []int{4, 3}, sp: []float64{0.7, 0.4, 1, 0.4}, batch: 2, lr: 0.001, adam: adam, hf: families[2-i], mode: m3, seed: uint64(i)}).tables(1, 2, 1),
				(&spec{in: 2, sizes: []int{2, 2, 3}, sp: []float64{1, 1, 0.4, 1, 0.5, 1}, batch: 3, lr: 0.001, adam: adam, hf: families[1-i], mode: m1, seed: uint64(i)}).tables(2, 3, 1))
		}
	}
	return o
}

// longHistories makes one history of longLength calls on every long network,
// in place and under changing ids. At the watched calls check makes the call
// (and compares), otherwise it is just made.
func longHistories(r *mc.R, predict bool, check func(n *net, o *op, id int, what string) *net) {
	for _, s := range longNets(r.Thorough()) {
		for _, changing := range []bool{false, true} {
			s, changing := s, changing
			r.Case(fmt.Sprintf("long history changing ids %v %s", changing, s.key()), func() {
				ops := netOps(s)
				n := s.build()
				id := 0
				for i := 0; i < longLength; i++ {
					if i%4096 == 0 && r.Expired() {
						r.Skipped++
						return
					}
					if changing {
						id = (id + 1 + i%3) % 70000
					}
					o := ops[(i+i/len(ops))%len(ops)]
					o.iter = i
					if i%16 != 0 { // keep the cost down
						o.rebuild = false
					}
					if watched(i) && o.predict == predict {
						n = check(n, &o, id, fmt.Sprintf("call %d (%s)", i, o.name))
						r.State(s.key(), changing, i)
					} else {
						_, n = o.do(n, id)
						r.Step(1)
					}
				}
			})
		}
	}
}
