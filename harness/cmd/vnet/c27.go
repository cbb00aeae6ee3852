package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/env"
	"goslideverif/mc"
)

var c27 = mc.Prop{
	ID: "C27", Level: "model_checking", Fn: runC27,
	Rule: "all histories of up to 3 (4) operations on any live layer of a growing tree: a query (two inputs, two slots, with and without labels), new hash functions, or a copy followed by one in-place change (clear the tables, insert a neuron, reshuffle, replace a neuron by a trained one), each under a fresh id, or in place on a layer nothing was derived from; ids that rise (and, for up to 2 operations, fall, lie 2^32 apart, alternate in sign or are huge); after every history the full state of every live layer (parameters, slots, normalization constants, tables, hash functions, active neurons of probe queries) is compared with that of a layer built and driven in place through the same operations; all families, both optimizers, modes 1-4, both neuron types",
	Assumptions: []string{"ids are fresh to the line of descent (siblings may share one); a layer something was derived from is not changed in place any more",
		"random draws depend only on the number of operations in a line of descent"},
}

type layerOp struct {
	name string
	do   func(s *spec, l *layer.Layer, id int) *layer.Layer
}

func layerOps(s *spec, typ node.NodeType) []layerOp {
	q := func(in []pair, slot int, labels []int, sp float64) func(*spec, *layer.Layer, int) *layer.Layer {
		return func(s *spec, l *layer.Layer, id int) *layer.Layer {
			_, m := query(l, id, in, slot, labels, sp)
			return m
		}
	}
	return []layerOp{
		{"query", q([]pair{{Index: 0, Value: 1}, {Index: 1, Value: -0.5}}, 0, []int{0}, 1)},
		{"query slot 1", q([]pair{{Index: 1, Value: 2}}, 1, []int{1}, 0.5)},
		{"new hash functions", func(s *spec, l *layer.Layer, id int) *layer.Layer { return l.UpdateTable(cow(id)) }},
		{"clear", func(s *spec, l *layer.Layer, id int) *layer.Layer {
			m := l.CloneIfNeeded(cow(id))
			m.ClearHashTables()
			return m
		}},
		{"insert", func(s *spec, l *layer.Layer, id int) *layer.Layer {
			m := l.CloneIfNeeded(cow(id))
			a := make([]int, s.l[0])
			for i := range a {
				a[i] = i % (1 << s.rp[0])
			}
			m.HashTablesAdd(a, 1)
			return m
		}},
		{"reshuffle", func(s *spec, l *layer.Layer, id int) *layer.Layer {
			m := l.CloneIfNeeded(cow(id))
			m.UpdateRandomNodes()
			return m
		}},
		{"train a neuron", func(s *spec, l *layer.Layer, id int) *layer.Layer {
			_, m := query(l, id, []pair{{Index: 0, Value: 3}}, 0, nil, 1)
			nd := m.GetNodeById(0).IncrementDelta(cow(id), 0, 0.75)
			nd = nd.BackPropagateFirstLayer(cow(id), []pair{{Index: 0, Value: 3}}, 0.5, 0)
			nd = nd.SetBias(cow(id), nd.GetBias()+1)
			nd.Weights()[0] += 0.5 // owned by id
			m.GetAllNodes()[0] = nd
			return m
		}},
	}
}

// layerState is the whole observable state of a layer.
func layerState(s *spec, typ node.NodeType, l *layer.Layer) string {
	s.configure()
	var b strings.Builder
	for i, nd := range l.GetAllNodes() {
		fmt.Fprintf(&b, "neuron %d %+v;", i, readNode(nd, s.adam))
		for slot := 0; slot < s.batch; slot++ {
			fmt.Fprintf(&b, " slot %d %v %v;", slot, nd.GetLastActivation(slot), nd.GetGradient(0, 0, slot, 1))
		}
		b.WriteByte('\n')
	}
	if typ == node.Softmax {
		for slot := 0; slot < s.batch; slot++ {
			fmt.Fprintf(&b, "constant %d %v\n", slot, l.GetNomalizationConstant(slot))
		}
	}
	fmt.Fprintf(&b, "tables %v\n", dumpTables(l, s.l[0], s.rp[0]))
	h := hasherOf(l, s.hf, s.in)
	for _, v := range probes(s.in) {
		c := h.dense(v)
		fmt.Fprintf(&b, "codes %v %v %v\n", c, h.addr(c), l.GetHashForInputProcessing(v))
	}
	for i, in := range [][]pair{{{Index: 0, Value: 1}}, {{Index: 0, Value: -1}, {Index: 1, Value: 1}}, {}} {
		env.Use(s.source(500 + i))
		got, _ := query(l, 9000, in, 0, nil, 0.5)
		ids := make([]int, len(got))
		h := mc.NewH()
		for j, p := range got {
			ids[j] = p.Index
			h = h.Add(uint64(p.Index))
		}
		fmt.Fprintf(&b, "active %v %v\n", brief(ids), h)
	}
	return b.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := ""
			if i < len(y) {
				w = y[i]
			}
			return clip(x[i]) + ", want " + clip(w)
		}
	}
	return "different"
}

type layerTwig struct {
	l       *layer.Layer
	id      int
	recipe  []int
	derived bool
}

func runC27(r *mc.R) {
	th := r.Thorough()
	depth := 3
	if th {
		depth = 4
	}
	for _, hf := range families {
		for _, mode := range modes() {
			for _, adam := range []bool{true, false} {
				for _, typ := range []node.NodeType{node.Softmax, node.ReLU} {
					hf, mode, typ := hf, mode, typ
					s := (&spec{in: 2, sizes: []int{3}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.5, adam: adam, hf: hf, mode: mode,
						seed: uint64(hf)*3 + uint64(mode)}).tables(1, 4, 1)
					layerHistories(r, s, typ, depth)
				}
			}
		}
		s := (&spec{in: 2, sizes: []int{1003}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.5, adam: hf%2 == 0, hf: hf, mode: configuration.LayerMode4,
			seed: 77}).tables(2, 2, 3)
		layerHistories(r, s, node.Softmax, depth-2)
		// large in other respects
		for i, b := range []*spec{
			(&spec{in: 2, sizes: []int{70}, batch: 2}).tables(1, 4, 1),
			(&spec{in: 2, sizes: []int{3}, batch: 70}).tables(1, 4, 1),
			(&spec{in: 2, sizes: []int{3}, batch: 2}).tables(1, 130, 2),
			(&spec{in: 2, sizes: []int{5}, batch: 2}).tables(2, 3, 11),
			(&spec{in: 300, sizes: []int{4}, batch: 2}).tables(2, 4, 2),
			(&spec{in: 5000, sizes: []int{2}, batch: 2}).tables(2, 4, 2),
			(&spec{in: 2, sizes: []int{4200}, batch: 2}).tables(1, 4, 3),
		} {
			b.sp, b.lr, b.adam, b.hf, b.seed = []float64{0.5, 0.5}, 0.5, (i+int(hf))%2 == 0, hf, uint64(i)
			b.mode = modes()[(i+int(hf))%4]
			d := depth - 1
			if i >= 5 {
				d--
			}
			layerHistories(r, b, node.Softmax, d)
		}
	}
}

func layerHistories(r *mc.R, s *spec, typ node.NodeType, depth int) {
	schemes := append([]idScheme{rising}, otherIds...)
	ops := layerOps(s, typ)
	for i, sc := range schemes {
		depth := depth
		if i > 0 {
			depth = min(depth, 2)
			if !r.Thorough() && (i+int(s.seed)+int(typ))%4 != 0 {
				continue
			}
		}
		for f := range ops {
			layerHistory(r, s, typ, ops, depth, sc, f, true)
			layerHistory(r, s, typ, ops, depth, sc, f, false)
		}
	}
}

func layerHistory(r *mc.R, s *spec, typ node.NodeType, ops []layerOp, depth int, sc idScheme, f int, fresh bool) {
	r.Case(fmt.Sprintf("first %s fresh%v type%d %s%s", ops[f].name, fresh, typ, s.key(), sc.suffix()), func() {
		withIds(sc, func() {
			build := func() *layer.Layer { return buildLayer(s, typ, s.source(0)).l }
			apply := func(l *layer.Layer, id, o, step int) *layer.Layer {
				s.configure()
				env.Use(s.source(step))
				return ops[o].do(s, l, id)
			}
			refs := map[string]string{}
			reference := func(recipe []int) string {
				k := fmt.Sprint(recipe)
				if v, ok := refs[k]; ok {
					return v
				}
				var v string
				withIds(rising, func() {
					l := build()
					for i, o := range recipe {
						l = apply(l, 0, o, i+1)
					}
					v = layerState(s, typ, l)
				})
				refs[k] = v
				return v
			}
			type mv struct {
				i, o  int
				fresh bool
			}
			seq := []mv{{0, f, fresh}}
			var rec func()
			rec = func() {
				if r.Expired() {
					return
				}
				t := []*layerTwig{{l: build()}}
				var log []string
				for _, m := range seq {
					x := t[m.i]
					if !m.fresh && x.derived {
						return
					}
					id := x.id
					if m.fresh {
						id++
					}
					log = append(log, fmt.Sprintf("%s on layer %d (owner %d) under id %d", ops[m.o].name, m.i, cow(x.id), cow(id)))
					l := apply(x.l, id, m.o, len(x.recipe)+1)
					r.Step(1)
					recipe := append(copyOf(x.recipe), m.o)
					if m.fresh {
						x.derived = true
						t = append(t, &layerTwig{l: l, id: id, recipe: recipe})
					} else {
						x.l, x.recipe = l, recipe
					}
				}
				r.Eval()
				for i, x := range t {
					if got, want := layerState(s, typ, x.l), reference(x.recipe); got != want {
						r.Failf("%s: then layer %d: %s", strings.Join(log, "; "), i, firstDiff(got, want))
					}
				}
				r.State(s.key(), typ, seq)
				if len(seq) >= depth {
					return
				}
				for i := range t {
					for o := range ops {
						for _, fr := range []bool{true, false} {
							if !fr && t[i].derived {
								continue
							}
							seq = append(seq, mv{i, o, fr})
							rec()
							seq = seq[:len(seq)-1]
						}
					}
				}
			}
			rec()
			if r.Expired() {
				r.Skipped++
			}
		})
	})
}
