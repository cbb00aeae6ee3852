package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/env"
	"goslideverif/mc"
)

var c10 = mc.Prop{
	ID: "C10", Level: "model_checking", Fn: runC10,
	Rule:        "(a) single layers with all parameter tuples over small and extreme alphabets and all inputs of 1-2 features, including logits up to 1e300; (b) all sequences of up to 3 (4) queries over slots, inputs and sparsities on one layer; (c) all sequences of up to 3 (4) training and prediction calls on small networks of 1-3 layers, both optimizers, all families and modes 1, 3, 4, followed by queries of every layer in every slot; (d) all sequences of up to 1 (2) calls on networks large in one respect each (1500 inputs, 300 hidden neurons, 400-2100 classes, 300 slots, 130 tables, 8 layers), and layers of 65-513 neurons with the largest logit at every position; every answer (active values, stored activations, normalisation constant) is compared with a reference forward pass from the parameters read back",
	Assumptions: []string{"parameters are those returned by Weights and Bias; which neurons are active is taken from the answer here (decided by C09)", "reference and code may differ by the rounding error of a dot product"},
}

// checkForward compares the answer to one query with the reference.
func checkForward(r *mc.R, l *layer.Layer, typ node.NodeType, st []nstate, in []pair, slot int, got []pair, what string) {
	fail := func(f string, a ...interface{}) {
		r.Failf("%sinput %v, slot %d, active %v: %s", what, in, slot, got, fmt.Sprintf(f, a...))
	}
	for _, p := range got {
		if p.Index < 0 || p.Index >= len(st) {
			fail("neuron %d", p.Index)
		}
		if a := l.GetNodeById(p.Index).GetLastActivation(slot); !near(a, p.Value) {
			fail("stored activation of neuron %d is %v, passed on is %v", p.Index, a, p.Value)
		}
	}
	if typ == node.ReLU {
		for _, p := range got {
			z, b := score(&st[p.Index], in)
			want := math.Max(0, z)
			if off(p.Value, want, b*4+1e-15*math.Abs(z)) {
				fail("neuron %d: activation %v, want %v", p.Index, p.Value, want)
			}
		}
		return
	}
	norm := l.GetNomalizationConstant(slot)
	sum, worst, zmax := 0.0, 0.0, math.Inf(-1)
	for _, p := range got {
		if !(p.Value >= 0) || math.IsInf(p.Value, 0) {
			fail("neuron %d: unnormalised probability %v", p.Index, p.Value)
		}
		sum += p.Value
		z, b := score(&st[p.Index], in)
		worst = math.Max(worst, b+math.Abs(z)*2e-16)
		zmax = math.Max(zmax, z)
	}
	if off(norm, sum, 1e-9*sum) || math.IsInf(norm, 0) {
		fail("normalisation constant %v, want %v", norm, sum)
	}
	if len(got) == 0 {
		return
	}
	if norm <= 0 {
		fail("normalisation constant %v", norm)
	}
	total, ref := 0.0, 0.0
	for _, p := range got {
		z, _ := score(&st[p.Index], in)
		ref += math.Exp(z - zmax)
	}
	for _, p := range got {
		z, _ := score(&st[p.Index], in)
		pr := p.Value / norm
		total += pr
		q := math.Exp(z-zmax) / ref
		e := math.Exp(8*worst + 1e-12)
		if worst < 10 && !(pr >= q/e-1e-290 && pr <= q*e+1e-290) {
			fail("neuron %d: probability %v, want %v", p.Index, pr, q)
		}
	}
	if off(total, 1, 1e-6) {
		fail("probabilities sum to %v", total)
	}
}

func (y *lay) forward(r *mc.R, in []pair, slot int, labels []int, sp float64, what string) []pair {
	y.spec.configure()
	got, l := query(y.l, 0, in, slot, labels, sp)
	r.Eval()
	r.Step(1)
	checkForward(r, l, y.typ, y.st, in, slot, got, what)
	h := mc.NewH().Add(uint64(y.typ)).Add(uint64(slot))
	for _, p := range got {
		h = h.Add(uint64(p.Index)).Add(math.Float64bits(p.Value))
	}
	r.StateHash(uint64(h))
	return got
}

// tuplesOf lists all parameter tuples over alphabet.
func tuplesOf(n int, alphabet []float64, f func([]float64)) {
	tuples(n, len(alphabet), func(t []int) {
		v := make([]float64, n)
		for i, a := range t {
			v[i] = alphabet[a]
		}
		f(v)
	})
}

func runC10(r *mc.R) {
	th := r.Thorough()
	types := []node.NodeType{node.Softmax, node.ReLU}

	// (a) values
	small := []float64{0, 1, -1, 0.5}
	huge := []float64{0, 1, -1, 700, -700, 1e6, -1e6, 1e150, -1e150}
	type shape struct {
		n, dim  int
		weights []float64
		inputs  []float64
	}
	shapes := []shape{
		{1, 1, huge, huge}, {2, 1, huge, huge}, {3, 1, huge, huge}, {2, 2, small, small}, {3, 1, small, small},
		{2, 2, []float64{-1, 300, -1e6}, []float64{1, -2, 1e100}},
		{2, 1, []float64{1, -1e9, 3e9, 1e150}, []float64{1e-9, -1e-8, 1e-150, 5e-324}},
		{1, 2, []float64{1, -1e9, 3e9, 1e150}, []float64{1e-9, -1e-8, 1e-150, 5e-324}},
	}
	if th {
		shapes = append(shapes, shape{3, 2, small, small}, shape{4, 1, []float64{0, -1, 800, -800, -1e100}, huge},
			shape{2, 2, []float64{0, -1, 300, -1e6, 1e100}, huge})
	}
	for _, sh := range shapes {
		for _, typ := range types {
			for bi, biases := range [][]float64{{0}, {0.25, -0.5, 1}, {-1000, -900, -1000}} {
				sh, typ, bi, biases := sh, typ, bi, biases
				// one case per value of the first weight
				for fi, first := range sh.weights {
					first := first
					r.Case(fmt.Sprintf("values type%d n%d dim%d alphabet%v bias%d first%d", typ, sh.n, sh.dim, sh.weights, bi, fi), func() {
						var inputs [][]pair
						tuplesOf(sh.dim, sh.inputs, func(v []float64) { inputs = append(inputs, sparseOf(v)) })
						tuplesOf(sh.n*sh.dim-1, sh.weights, func(rest []float64) {
							w := append([]float64{first}, rest...)
							s := (&spec{in: sh.dim, sizes: []int{sh.n}, sp: []float64{1, 1}, batch: 2, lr: 0.1, hf: srp,
								mode: configuration.LayerMode3}).tables(1, 1, 0)
							s.params = func(i int) float64 {
								if i < len(w) {
									return w[i]
								}
								return biases[(i-len(w))%len(biases)]
							}
							y := buildLayer(s, typ, s.source(0))
							for _, in := range inputs {
								y.forward(r, in, 1, nil, 1, fmt.Sprintf("weights %v, bias %v: ", w, biases))
							}
						})
					})
				}
			}
		}
	}

	// (b) histories of queries of one layer
	depth := 3
	if th {
		depth = 4
	}
	for _, typ := range types {
		for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode3, configuration.LayerMode4} {
			for _, hf := range families {
				for seed := uint64(0); seed < 3; seed++ {
					s := (&spec{in: 2, sizes: []int{3}, sp: []float64{0.7, 0.7}, batch: 2, lr: 0.1, hf: hf, mode: mode,
						seed: seed, adam: seed == 1}).tables(1, 3, 1)
					typ := typ
					r.Case(fmt.Sprintf("queries type%d %s", typ, s.key()), func() {
						inputs := [][]pair{{}, {{Index: 0, Value: 1}}, {{Index: 1, Value: -800}, {Index: 0, Value: 2}}, {{Index: 0, Value: -0.5}, {Index: 1, Value: 0.25}}}
						sps := []float64{1, 0.7}
						alts := len(inputs) * len(sps) * 2
						tuples(depth, alts, func(t []int) {
							if r.Expired() {
								return
							}
							y := buildLayer(s, typ, s.source(0))
							var answers, copies [][]pair
							for _, a := range t {
								slot := a % 2
								got := y.forward(r, inputs[a/4], slot, []int{a % 3}, sps[a/2%2], fmt.Sprintf("queries %v: ", t))
								answers, copies = append(answers, got), append(copies, append([]pair{}, got...))
							}
							for i := range answers { // later queries leave earlier answers alone
								if fmt.Sprint(answers[i]) != fmt.Sprint(copies[i]) {
									r.Failf("queries %v: the answer to query %d was %v and is %v after the later ones", t, i, copies[i], answers[i])
								}
							}
						})
						if r.Expired() {
							r.Skipped++
						}
					})
				}
			}
		}
	}

	// (c) histories of calls on networks
	for _, s := range smallNets(th) {
		s := s
		r.Case("history "+s.key(), func() {
			ops := netOps(s)
			d := 2
			if th {
				d = 3
			}
			for k := 0; k <= d; k++ {
				tuples(k, len(ops), func(t []int) {
					n := s.build()
					for _, o := range t {
						n = ops[o].apply(n)
						r.Step(1)
					}
					P := n.params()
					ty := s.types()
					env.Use(s.source(77))
					for slot := s.batch - 1; slot >= 0; slot-- {
						for i, l := range n.layers() {
							for _, v := range probes(n.dim(i))[:3] {
								in := sparseOf(v)
								got, l2 := query(l, n.id, in, slot, nil, s.sp[i])
								r.Eval()
								checkForward(r, l2, ty[i], P[i], in, slot, got, fmt.Sprintf("after %s, layer %d: ", opNames(ops, t), i))
							}
						}
					}
				})
			}
		})
	}

	// (d) large networks
	bd := 1
	if th {
		bd = 2
	}
	bigHistories(r, bd, func(b *bigNet, ops []op, t []int) {
		n := b.build()
		for _, o := range t {
			n = ops[o].apply(n)
			r.Step(1)
		}
		P := n.params()
		ty := b.types()
		env.Use(b.source(77))
		for i, l := range n.layers() {
			var ins [][]pair
			if i == 0 {
				ins = append(ins, b.example(0).Features, b.example(1).Features)
			} else {
				ins = append(ins, sparseOf(probes(n.dim(i))[0]))
			}
			for k, in := range ins {
				slot := (b.batch - 1) * (1 - k)
				got, l2 := query(l, n.id, in, slot, nil, b.sp[i])
				r.Eval()
				checkForward(r, l2, ty[i], P[i], in, slot, got, fmt.Sprintf("after %s, layer %d: ", opNames(ops, t), i))
			}
		}
	})
	// every position of the largest logit of a large layer
	for _, size := range []int{65, 130, 300, 1025, 5003} {
		size := size
		if size == 1025 && !th {
			size = 513
		}
		step, norm := 1, 900.0
		if size > 2000 {
			step, norm = size/31-1, 30000
		}
		for _, adam := range []bool{true, false} {
			s := (&spec{in: 2, sizes: []int{size}, sp: []float64{1, 1}, batch: 2, lr: 0.1, adam: adam, hf: srp, mode: configuration.LayerMode3, seed: 3}).tables(1, 1, 0)
			// neuron i has weights (cos, sin) of its own angle: every input direction has another winner
			s.params = func(i int) float64 {
				if i >= 2*size {
					return 0
				}
				return norm * [2]func(float64) float64{math.Cos, math.Sin}[i%2](2*math.Pi*float64(i/2)/float64(size))
			}
			s.pname = "circle"
			r.Case("largest logit "+s.key(), func() {
				y := buildLayer(s, node.Softmax, s.source(0))
				for i := size - 1; i >= 0; i -= step {
					a := 2 * math.Pi * float64(i) / float64(size)
					y.forward(r, []pair{{Index: 0, Value: math.Cos(a)}, {Index: 1, Value: math.Sin(a)}}, 1, nil, 1, fmt.Sprintf("direction %d: ", i))
				}
			})
		}
	}
}
