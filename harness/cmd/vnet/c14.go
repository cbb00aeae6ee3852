package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/mc"
)

var c14 = mc.Prop{
	ID: "C14", Level: "model_checking", Fn: runC14,
	Rule: "all histories of up to 3 (4) modifying operations on any live neuron of a growing tree of derivations, each either under a fresh id (a new derived neuron) or, on a neuron nothing was derived from, under its owner's id; ids that rise (and, with one operation fewer, fall, lie 2^32 apart, alternate in sign or are huge); all operations of the neuron API, two argument sets, both neuron types, both optimizers, neurons made by NewNode (2 weights and slots; 2 weights and one slot; 4200 weights and 70 slots), by Update and inside layer construction; after every operation all getters of every live neuron are compared with a model that copies values",
	Assumptions: []string{
		"ids are fresh to the line of descent (siblings may share one); once something was derived from a neuron it is not modified under its owner's id, which the property does not cover",
		"CopyWeightsAndBiasFromMirror is only used without Adam, as by the network"},
}

// nodeOp is one modifying operation in both worlds.
type nodeOp struct {
	name string
	real func(n *node.Node, id int) *node.Node
	mod  func(m *mnode)
}

// nodeOps lists the operations for a neuron of 2 weights and 2 slots.
func nodeOps(typ node.NodeType, adam bool) []nodeOp {
	var o []nodeOp
	add := func(name string, real func(n *node.Node, id int) *node.Node, mod func(m *mnode)) {
		o = append(o, nodeOp{name, real, mod})
	}
	ins := [][]pair{{{Index: 0, Value: 1.5}, {Index: 1, Value: -0.25}}, {{Index: 1, Value: 2}}}
	for slot := 0; slot < 2; slot++ {
		slot := slot
		in := ins[slot]
		add(fmt.Sprintf("GetActivation(slot %d)", slot),
			func(n *node.Node, c int) *node.Node { _, m := n.GetActivation(c, in, slot); return m },
			func(m *mnode) { m.activate(in, slot) })
		v := 0.75 - float64(slot)*2
		add(fmt.Sprintf("IncrementDelta(slot %d)", slot),
			func(n *node.Node, c int) *node.Node { return n.IncrementDelta(c, slot, v) },
			func(m *mnode) { m.increment(slot, v) })
		add(fmt.Sprintf("BackPropagateFirstLayer(slot %d)", slot),
			func(n *node.Node, c int) *node.Node { return n.BackPropagateFirstLayer(c, in, 0.5, slot) },
			func(m *mnode) { m.backpropFirst(in, 0.5, slot) })
		act := 0.4 + float64(slot)
		add(fmt.Sprintf("SetlastActivation(slot %d)", slot),
			func(n *node.Node, c int) *node.Node { return n.SetlastActivation(c, slot, act) },
			func(m *mnode) { m.slots[slot].act = act })
		if typ == node.Softmax {
			add(fmt.Sprintf("ComputeExtaStatsForSoftMax(slot %d)", slot),
				func(n *node.Node, c int) *node.Node {
					return n.ComputeExtaStatsForSoftMax(c, 1.7, slot, []int{1 - slot, 5})
				},
				func(m *mnode) { m.softmax(1.7, slot, []int{1 - slot, 5}) })
		}
	}
	add("BackPropagate(slot 0)",
		func(n *node.Node, c int) *node.Node { return realBackprop(n, c, adam) },
		func(m *mnode) {
			a := newModel(node.ReLU, 2, 0, adam, []float64{1}, 0.5, []float64{0}, []float64{0})
			b := a.clone()
			a.activate([]pair{{Index: 0, Value: 1}}, 0)
			b.activate([]pair{{Index: 0, Value: 2}}, 0)
			m.backprop([]*mnode{a, b}, []int{1, 0}, 0.25, 0)
		})
	add("SetBias", func(n *node.Node, c int) *node.Node { return n.SetBias(c, 3.5) }, func(m *mnode) { m.b = 3.5 })
	add("PurturbWeight",
		func(n *node.Node, c int) *node.Node { _, m := n.PurturbWeight(c, 1, 0.125); return m },
		func(m *mnode) { m.w[1] += 0.125 })
	if adam {
		add("SetT", func(n *node.Node, c int) *node.Node { return n.SetT(c, 1, 9) }, func(m *mnode) { m.t[1] = 9 })
		add("SetAdamAvgMom", func(n *node.Node, c int) *node.Node { return n.SetAdamAvgMom(c, 0, 8) }, func(m *mnode) { m.m[0] = 8 })
		add("SetAdamAvgVel", func(n *node.Node, c int) *node.Node { return n.SetAdamAvgVel(c, 1, 7) }, func(m *mnode) { m.v[1] = 7 })
		add("SetAdamAvgMomBias", func(n *node.Node, c int) *node.Node { return n.SetAdamAvgMomBias(c, 6) }, func(m *mnode) { m.mbias = 6 })
		add("SetAdamAvgVelBias", func(n *node.Node, c int) *node.Node { return n.SetAdamAvgVelBias(c, 5) }, func(m *mnode) { m.vbias = 5 })
		add("SetTBias", func(n *node.Node, c int) *node.Node { return n.SetTBias(c, 4) }, func(m *mnode) { m.tb = 4 })
	} else {
		add("CopyWeightsAndBiasFromMirror",
			func(n *node.Node, c int) *node.Node { return n.CopyWeightsAndBiasFromMirror(c) },
			func(m *mnode) { copy(m.w, m.mw); m.b = m.mb })
	}
	add("Update",
		func(n *node.Node, c int) *node.Node {
			var mo, ve []float64
			if adam {
				mo, ve = []float64{0.5, 0.25}, []float64{0.125, 1}
			}
			return n.Update(c, 2, 1, 0, typ, 2, []float64{-1, 2}, 0.5, mo, ve,
				[]*node.NodeTrain{node.NewNodeTrain(c), node.NewNodeTrain(c)})
		},
		func(m *mnode) {
			// bias moments and bias gradient are not among the arguments
			n := newModel(typ, 2, 1, adam, []float64{-1, 2}, 0.5, []float64{0.5, 0.25}, []float64{0.125, 1})
			n.mbias, n.vbias, n.tb = m.mbias, m.vbias, m.tb
			*m = *n
		})
	return o
}

// oneSlot leaves out the operations that need a second slot.
func oneSlot(ops []nodeOp) (o []nodeOp) {
	for _, x := range ops {
		if !strings.Contains(x.name, "slot 1") && x.name != "Update" {
			o = append(o, x)
		}
	}
	return
}

type prevChanged string

// realBackprop back-propagates into two fresh neurons of the first owner.
func realBackprop(n *node.Node, id int, adam bool) *node.Node {
	mk := func(x float64) (*node.Node, *mnode) {
		r := newReal(cow(0), node.ReLU, 2, 0, adam, []float64{1}, 0.5, []float64{0}, []float64{0})
		m := newModel(node.ReLU, 2, 0, adam, []float64{1}, 0.5, []float64{0}, []float64{0})
		in := []pair{{Index: 0, Value: x}}
		_, r = r.GetActivation(cow(0), in, 0)
		m.activate(in, 0)
		return r, m
	}
	a, am := mk(1)
	b, bm := mk(2)
	prev := []*node.Node{a, b}
	d := -n.GetGradient(0, 0, 0, 1)
	w := copyFloats(n.Weights())
	res := n.BackPropagate(id, &prev, []pair{{Index: 1, Value: 2.5}, {Index: 0, Value: 1.5}}, 0.25, 0)
	if id != cow(0) {
		if x := am.diff(a); x != "" {
			panic(prevChanged("the original of a previous neuron changed: " + x))
		}
		if x := bm.diff(b); x != "" {
			panic(prevChanged("the original of a previous neuron changed: " + x))
		}
	}
	am.increment(0, d*w[0])
	bm.increment(0, d*w[1])
	if x := am.diff(prev[0]); x != "" {
		panic(prevChanged("previous neuron 0: " + x))
	}
	if x := bm.diff(prev[1]); x != "" {
		panic(prevChanged("previous neuron 1: " + x))
	}
	return res
}

// live is one neuron of a tree of derivations.
type live struct {
	r       *node.Node
	m       *mnode
	id      int // owner
	derived bool
	what    string
}

type ntree struct {
	nodes []*live
	ops   []nodeOp
	log   []string
}

// step applies operation o to neuron i; fresh: under a new id.
// It reports false when the history is outside the property.
func (t *ntree) step(r *mc.R, i, o int, fresh bool) bool {
	x := t.nodes[i]
	if !fresh && x.derived {
		return false
	}
	op := t.ops[o]
	m := x.m.clone()
	if strings.HasPrefix(op.name, "GetActivation") {
		slot := int(op.name[len("GetActivation(slot ")] - '0')
		if s := m.slots[slot]; s.active && s.delta != 0 {
			return false // activated again with a pending error
		}
	}
	no := rejects(func() { op.mod(m) })
	id := x.id
	if fresh {
		id = x.id + 1
	}
	t.log = append(t.log, fmt.Sprintf("%s on neuron %d (owner %d) under id %d", op.name, i, cow(x.id), cow(id)))
	var res *node.Node
	panicked, val := mc.Protect(func() { res = op.real(x.r, cow(id)) })
	r.Step(1)
	if panicked != no {
		r.Failf("%s: panic %v (%v), want %v", strings.Join(t.log, "; "), panicked, val, no)
	}
	if p, ok := val.(prevChanged); ok {
		r.Failf("%s: %s", strings.Join(t.log, "; "), p)
	}
	switch {
	case no: // nothing changed
	case fresh && res == x.r:
		if d := m.diff(x.r); d != "" { // nothing to change, and nothing changed
			r.Failf("%s: the original was returned: %s", strings.Join(t.log, "; "), d)
		}
		if d := x.m.diff(x.r); d != "" {
			r.Failf("%s: the original was modified: %s", strings.Join(t.log, "; "), d)
		}
	case fresh:
		x.derived = true
		t.nodes = append(t.nodes, &live{r: res, m: m, id: id})
	default:
		x.m = m
		if d := m.diff(res); d != "" {
			r.Failf("%s: the returned neuron: %s", strings.Join(t.log, "; "), d)
		}
	}
	return true
}

func (t *ntree) check(r *mc.R) {
	for i, x := range t.nodes {
		if d := x.m.diff(x.r); d != "" {
			r.Failf("%s: then neuron %d: %s", strings.Join(t.log, "; "), i, d)
		}
	}
	h := mc.NewH()
	for _, x := range t.nodes {
		h = h.Add(uint64(x.id))
		for _, v := range append(append(append([]float64{x.m.b, x.m.tb, x.m.mb}, x.m.w...), x.m.t...), x.m.mw...) {
			h = h.Add(fbits(v))
		}
		for _, s := range x.m.slots {
			h = h.Add(fbits(s.act)).Add(fbits(s.delta))
		}
	}
	r.StateHash(uint64(h))
}

func runC14(r *mc.R) {
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	for _, adam := range []bool{true, false} {
		for _, typ := range []node.NodeType{node.Softmax, node.ReLU} {
			for _, made := range []string{"NewNode", "Update", "layer", "wide", "one slot"} {
				for _, warm := range []bool{false, true} {
					adam, typ, made, warm := adam, typ, made, warm
					ops := nodeOps(typ, adam)
					slots := 2
					if made == "one slot" {
						slots = 1
						ops = oneSlot(ops)
					}
					depth := depth
					if made == "wide" {
						depth--
					}
					start := func() *ntree {
						c := configuration.Default()
						c.UseAdam = adam
						c.HashFunction = srp
						configuration.Global = c
						w, mo, ve := []float64{1, -0.5}, []float64{0.25, 0.5}, []float64{1, 2}
						m := newModel(typ, 2, 1, adam, w, 0.125, mo, ve)
						var n *node.Node
						switch made {
						case "NewNode":
							n = newReal(cow(0), typ, 2, 1, adam, w, 0.125, mo, ve)
						case "Update":
							var a, b []float64
							if adam {
								a, b = copyFloats(mo), copyFloats(ve)
							}
							// neurons of a layer share one array
							all := append(copyFloats(w), 77, 78)
							n = node.NewEmptyNode(cow(0)).Update(cow(0), 2, 1, 0, typ, 2, all[:2], 0.125, a, b,
								[]*node.NodeTrain{node.NewNodeTrain(cow(0)), node.NewNodeTrain(cow(0))})
						case "one slot":
							m = newModel(typ, 1, 1, adam, w, 0.125, mo, ve)
							n = newReal(cow(0), typ, 1, 1, adam, w, 0.125, mo, ve)
						case "wide": // many weights and slots
							w, mo, ve = nil, nil, nil
							for i := 0; i < 4200; i++ {
								w, mo, ve = append(w, float64(i%17)/8-1), append(mo, float64(i%5)/4), append(ve, float64(i%7)/2)
							}
							m = newModel(typ, 70, 1, adam, w, 0.125, mo, ve)
							n = node.NewNode(cow(0), len(w), 1, 0, typ, 70, copyFloats(w), 0.125, moments(adam, mo), moments(adam, ve))
						case "layer":
							s := (&spec{in: 2, sizes: []int{2}, sp: []float64{1, 1}, batch: 2, lr: 0.1, adam: adam, hf: srp}).tables(1, 1, 0)
							y := buildLayer(s, typ, s.source(0))
							n = y.l.GetNodeById(1)
							st := y.st[1]
							m = newModel(typ, 2, 1, adam, st.W, st.B, st.M, st.V)
						}
						t := &ntree{nodes: []*live{{r: n, m: m}}, ops: ops}
						if warm { // both slots active, with an error pending in the first
							n := t.nodes[0]
							for s := 0; s < slots; s++ {
								in := []pair{{Index: s, Value: 1.25 - 2.5*float64(s)}}
								_, n.r = n.r.GetActivation(cow(0), in, s)
								n.m.activate(in, s)
							}
							n.r = n.r.IncrementDelta(cow(0), 0, 0.5)
							n.m.increment(0, 0.5)
						}
						return t
					}
					explore := func(f int, fresh bool, sc idScheme, depth int) {
						r.Case(fmt.Sprintf("adam%v type%d %s warm%v first %s fresh%v%s", adam, typ, made, warm, ops[f].name, fresh, sc.suffix()), func() {
							withIds(sc, func() {
								type mv struct {
									i, o  int
									fresh bool
								}
								var seq []mv
								var rec func()
								rec = func() {
									if r.Expired() {
										return
									}
									t := start()
									for _, s := range seq {
										if !t.step(r, s.i, s.o, s.fresh) {
											return
										}
									}
									r.Eval()
									t.check(r)
									if len(seq) == depth {
										return
									}
									for i := range t.nodes {
										for o := range ops {
											seq = append(seq, mv{i, o, true})
											rec()
											seq = seq[:len(seq)-1]
											if !t.nodes[i].derived {
												seq = append(seq, mv{i, o, false})
												rec()
												seq = seq[:len(seq)-1]
											}
										}
									}
								}
								seq = []mv{{0, f, fresh}}
								rec()
								if r.Expired() {
									r.Skipped++
								}
							})
						})
					}
					for f := range ops {
						for _, fresh := range []bool{true, false} {
							explore(f, fresh, rising, depth)
							for _, sc := range otherIds {
								explore(f, fresh, sc, depth-1)
							}
						}
					}
				}
			}
		}
	}
}
