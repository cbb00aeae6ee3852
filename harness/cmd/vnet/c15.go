package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/mc"
)

var c15 = mc.Prop{
	ID: "C15", Level: "model_checking", Fn: runC15,
	Rule: "all sequences of up to 4 (5) operations on a system of two ReLU neurons feeding one softmax and one ReLU neuron, two batch slots each: activation with several inputs, error contributions, softmax errors, back-propagation with every set of active previous neurons, first-layer back-propagation, on active and inactive slots; both optimizers; after every operation all getters of all neurons are compared with a per-slot reference state machine, and operations on inactive slots must panic and change nothing; the same after a pass through 65-5000 previous neurons and features, 2-300 slots and 70-1100 labels",
	Assumptions: []string{
		"the weights seen with plain SGD are read after CopyWeightsAndBiasFromMirror at the end of a sequence",
		"a slot with a pending error is not activated again, and back-propagation is given previous neurons whose slot is active, as the network does"},
}

// world is two previous neurons (0, 1) and two next ones (2, 3), in both forms.
type world struct {
	r   []*node.Node
	m   []*mnode
	log []string
}

type wop struct {
	name string
	ok   func(w *world) bool // nil: always allowed
	real func(w *world)
	mod  func(w *world)
}

func worldOps(inputs int) []wop {
	var o []wop
	ins := [][]pair{{{Index: 0, Value: 1}, {Index: 1, Value: -2}}, {{Index: 0, Value: -1}}, {}, {{Index: 1, Value: 0.5}, {Index: 0, Value: 0.25}}}
	for slot := 0; slot < 2; slot++ {
		slot := slot
		for n := 0; n < 4; n++ {
			n := n
			for k := 0; k < inputs; k++ {
				in := ins[(k+slot)%len(ins)]
				o = append(o, wop{fmt.Sprintf("activate %d.%d with %v", n, slot, in),
					func(w *world) bool { s := w.m[n].slots[slot]; return !(s.active && s.delta != 0) },
					func(w *world) { _, w.r[n] = w.r[n].GetActivation(0, in, slot) },
					func(w *world) { w.m[n].activate(in, slot) }})
			}
			if n != 1 {
				o = append(o, wop{fmt.Sprintf("error %d.%d", n, slot), nil,
					func(w *world) { w.r[n] = w.r[n].IncrementDelta(0, slot, 0.75) },
					func(w *world) { w.m[n].increment(slot, 0.75) }})
			}
		}
		for _, lab := range [][]int{{2, 9}, {7}} {
			lab := lab
			o = append(o, wop{fmt.Sprintf("softmax 2.%d labels %v", slot, lab), nil,
				func(w *world) { w.r[2] = w.r[2].ComputeExtaStatsForSoftMax(0, 2.5, slot, lab) },
				func(w *world) { w.m[2].softmax(2.5, slot, lab) }})
		}
		for n := 2; n < 4; n++ {
			n := n
			for _, act := range [][]int{{0, 1}, {1}} {
				act := act
				if n == 3 && len(act) == 1 {
					continue
				}
				o = append(o, wop{fmt.Sprintf("backprop %d.%d into %v", n, slot, act),
					func(w *world) bool {
						if !w.m[n].slots[slot].active {
							return true
						}
						for _, i := range act {
							if !w.m[i].slots[slot].active {
								return false
							}
						}
						return true
					},
					func(w *world) {
						prev := []*node.Node{w.r[0], w.r[1]}
						var ps []pair
						for _, i := range act {
							ps = append(ps, pair{Index: i, Value: w.r[i].GetLastActivation(slot)})
						}
						w.r[n] = w.r[n].BackPropagate(0, &prev, ps, 0.5, slot)
						w.r[0], w.r[1] = prev[0], prev[1]
					},
					func(w *world) { w.m[n].backprop(w.m[:2], act, 0.5, slot) }})
			}
		}
		for n := 0; n < 2; n++ {
			n := n
			in := ins[n]
			o = append(o, wop{fmt.Sprintf("first-layer backprop %d.%d", n, slot), nil,
				func(w *world) { w.r[n] = w.r[n].BackPropagateFirstLayer(0, in, 0.5, slot) },
				func(w *world) { w.m[n].backpropFirst(in, 0.5, slot) }})
		}
	}
	return o
}

func newWorld(adam bool, variant int) *world {
	c := configuration.Default()
	c.UseAdam = adam
	c.HashFunction = srp
	configuration.Global = c
	ws := [][]float64{{1, -0.5}, {-0.25, 0.5}, {0.5, -2}, {1.5, 1}}
	if variant == 1 {
		ws = [][]float64{{0, 0}, {1, 1}, {-1, 1}, {0, 3}}
	}
	w := &world{}
	for i, x := range ws {
		typ := node.ReLU
		if i == 2 {
			typ = node.Softmax
		}
		b := 0.125 * float64(i-1-variant)
		mo, ve := []float64{0, 0}, []float64{0, 0}
		w.r = append(w.r, newReal(0, typ, 2, i, adam, x, b, mo, ve))
		w.m = append(w.m, newModel(typ, 2, i, adam, x, b, mo, ve))
	}
	return w
}

// step makes one call in both worlds; false: not covered.
func (w *world) step(r *mc.R, o *wop) bool {
	if o.ok != nil && !o.ok(w) {
		return false
	}
	w.log = append(w.log, o.name)
	no := rejects(func() { o.mod(w) })
	panicked, val := mc.Protect(func() { o.real(w) })
	r.Step(1)
	if panicked != no {
		r.Failf("%s: panic %v (%v), want %v", strings.Join(w.log, "; "), panicked, val, no)
	}
	return true
}

func (w *world) check(r *mc.R, adam bool) {
	for i := range w.r {
		if d := w.m[i].diff(w.r[i]); d != "" {
			r.Failf("%s: then neuron %d: %s", strings.Join(w.log, "; "), i, d)
		}
	}
	h := mc.NewH()
	for _, m := range w.m {
		for _, v := range append(append([]float64{m.tb, m.mb}, m.t...), m.mw...) {
			h = h.Add(fbits(v))
		}
		for _, s := range m.slots {
			h = h.Add(fbits(s.act)).Add(fbits(s.delta))
			if s.active {
				h = h.Add(1)
			}
		}
	}
	r.StateHash(uint64(h))
	if adam {
		return
	}
	for i := range w.r {
		w.r[i] = w.r[i].CopyWeightsAndBiasFromMirror(0)
		copy(w.m[i].w, w.m[i].mw)
		w.m[i].b = w.m[i].mb
		if d := w.m[i].diff(w.r[i]); d != "" {
			r.Failf("%s; CopyWeightsAndBiasFromMirror: then neuron %d: %s", strings.Join(w.log, "; "), i, d)
		}
	}
}

func runC15(r *mc.R) {
	depth, inputs := 3, 2
	if r.Thorough() {
		depth, inputs = 4, 3
	}
	ops := worldOps(inputs)
	find := func(prefix string) int {
		for i, o := range ops {
			if strings.HasPrefix(o.name, prefix) {
				return i
			}
		}
		panic("HARNESS-BUG: no operation " + prefix)
	}
	warmups := [][]int{{},
		{find("activate 0.0"), find("activate 1.0"), find("activate 2.0"), find("softmax 2.0")},
		{find("activate 0.0"), find("activate 0.1"), find("activate 1.1"), find("activate 2.1"), find("softmax 2.1"), find("activate 3.1"), find("error 3.1")},
		{find("activate 0.1"), find("error 0.1"), find("activate 1.0"), find("activate 3.0"), find("activate 2.0"), find("softmax 2.0")}}
	for _, adam := range []bool{true, false} {
		for variant := 0; variant < 2; variant++ {
			for wi, warm := range warmups {
				for f := range ops {
					adam, variant, wi, warm, f := adam, variant, wi, warm, f
					r.Case(fmt.Sprintf("adam%v variant%d warmup%d first %s", adam, variant, wi, ops[f].name), func() {
						seq := append(copyOf(warm), f)
						var rec func()
						rec = func() {
							if r.Expired() {
								return
							}
							w := newWorld(adam, variant)
							for _, o := range seq {
								if !w.step(r, &ops[o]) {
									return
								}
							}
							r.Eval()
							w.check(r, adam)
							if len(seq)-len(warm) == depth {
								return
							}
							for o := range ops {
								seq = append(seq, o)
								rec()
								seq = seq[:len(seq)-1]
							}
						}
						rec()
						if r.Expired() {
							r.Skipped++
						}
					})
				}
			}
		}
	}

	// many previous neurons, features and slots
	sizes := []int{65, 130, 257, 300, 1025, 1500, 5000}
	for _, adam := range []bool{true, false} {
		for _, size := range sizes {
			for _, slots := range []int{2, 70, 300} {
				if slots > 2 && size > 130 && !r.Thorough() {
					continue
				}
				adam, size, slots := adam, size, slots
				r.Case(fmt.Sprintf("large adam%v size%d slots%d", adam, size, slots), func() {
					c := configuration.Default()
					c.UseAdam = adam
					c.HashFunction = srp
					configuration.Global = c
					val := func(i, j int) float64 { return float64((i*31+j*17+5)%23-11) / 64 }
					vec := func(i int) []float64 {
						w := make([]float64, size)
						for j := range w {
							w[j] = val(i, j)
						}
						return w
					}
					w := &world{}
					mk := func(typ node.NodeType, id int, x []float64) {
						zero := make([]float64, len(x))
						w.r = append(w.r, node.NewNode(0, len(x), id, 0, typ, slots, copyFloats(x), val(id, 3), moments(adam, zero), moments(adam, zero)))
						w.m = append(w.m, newModel(typ, slots, id, adam, x, val(id, 3), zero, zero))
					}
					for i := 0; i < size; i++ {
						mk(node.ReLU, i, []float64{val(i, 1) * 3, val(i, 2)})
					}
					mk(node.Softmax, size, vec(1))
					mk(node.ReLU, size+1, vec(2))
					do := func(what string, real, mod func()) {
						w.log = append(w.log, what)
						no := rejects(mod)
						panicked, v := mc.Protect(real)
						r.Step(1)
						if panicked != no {
							r.Failf("%s: panic %v (%v), want %v", strings.Join(w.log, "; "), panicked, v, no)
						}
					}
					for _, slot := range []int{0, slots / 2, slots - 1} {
						w.log = nil
						low := []pair{{Index: 0, Value: 1}, {Index: 1, Value: float64(slot%3) - 1.5}}
						var act []int
						var out []pair
						for i := 0; i < size; i++ {
							if i%7 == 3 && i != size-1 {
								continue
							}
							i := i
							do("activate", func() { _, w.r[i] = w.r[i].GetActivation(0, low, slot) }, func() { w.m[i].activate(low, slot) })
							act = append(act, i)
							out = append(out, pair{Index: i, Value: w.m[i].slots[slot].act})
						}
						w.log = nil
						for n := size; n < size+2; n++ {
							n := n
							do(fmt.Sprintf("activate %d", n), func() { _, w.r[n] = w.r[n].GetActivation(0, out, slot) }, func() { w.m[n].activate(out, slot) })
						}
						labels := make([]int, 70)
						if size > 1100 {
							labels = make([]int, 1100)
						}
						for i := range labels {
							labels[i] = size - len(labels) + 1 + i // the last is the neuron
						}
						do("softmax error", func() { w.r[size] = w.r[size].ComputeExtaStatsForSoftMax(0, 2.5, slot, labels) }, func() { w.m[size].softmax(2.5, slot, labels) })
						do("error", func() { w.r[size+1] = w.r[size+1].IncrementDelta(0, slot, 0.75) }, func() { w.m[size+1].increment(slot, 0.75) })
						for n := size; n < size+2; n++ {
							n := n
							do(fmt.Sprintf("backprop %d", n), func() {
								prev := append([]*node.Node{}, w.r[:size]...)
								w.r[n] = w.r[n].BackPropagate(0, &prev, out, 0.5, slot)
								copy(w.r, prev)
							}, func() { w.m[n].backprop(w.m[:size], act, 0.5, slot) })
						}
						r.Eval()
						w.check(r, adam)
						if slot > 0 { // and the other kind of back-propagation
							in := make([]pair, size)
							for i := range in {
								in[i] = pair{Index: size - 1 - i, Value: val(4, i)}
							}
							n := size + 1
							do("activate again", func() { _, w.r[n] = w.r[n].GetActivation(0, in, slot) }, func() { w.m[n].activate(in, slot) })
							do("error again", func() { w.r[n] = w.r[n].IncrementDelta(0, slot, -1.5) }, func() { w.m[n].increment(slot, -1.5) })
							do("first-layer backprop", func() { w.r[n] = w.r[n].BackPropagateFirstLayer(0, in, 0.25, slot) }, func() { w.m[n].backpropFirst(in, 0.25, slot) })
							w.check(r, adam)
						}
					}
				})
			}
		}
	}
}

// moments are nil without Adam.
func moments(adam bool, v []float64) []float64 {
	if !adam {
		return nil
	}
	return copyFloats(v)
}
