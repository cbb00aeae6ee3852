package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

var c25 = mc.Prop{
	ID: "C25", Level: "model_checking", Fn: runC25,
	Rule:        "all sequences of up to 3 (4) training and prediction calls (plain, rehash, rebuild), in place and under fresh ids, in all modes, families and optimizers, and of up to 2 calls on networks large in one respect each (among them 30 labels or 1500 features per example); the examples handed over have spare capacity holding marks; after each call the examples, their spare capacity and the list itself must be as they were, then every number in them is overwritten (the next call gets its examples in the same memory, or in other memory), and the network must stay equal to one driven through the same calls with examples that are never touched",
	Assumptions: []string{"examples are compared bit by bit through the slices handed over, up to their capacity"},
}

// lent are examples in memory of their own, with spare capacity.
type lent struct {
	ex   []example
	full []example // ex and its spare capacity
	f    [][]pair
	l    [][]int
	was  string
}

// lend puts the examples into new memory, or into that of an earlier call.
func lend(ex []example, old *lent) *lent {
	o := &lent{}
	if old != nil && cap(old.full) > len(ex) {
		o.full = old.full[:len(ex)+1]
		o.full[len(ex)] = example{}
	} else {
		o.full = make([]example, len(ex)+1, len(ex)+4)
	}
	for i, e := range ex {
		f := make([]pair, len(e.Features)+2, len(e.Features)+8)
		l := make([]int, len(e.Labels)+2, len(e.Labels)+8)
		if old != nil && i < len(old.f) {
			if cap(old.f[i]) >= len(f) {
				f = old.f[i][:len(f)]
			}
			if cap(old.l[i]) >= len(l) {
				l = old.l[i][:len(l)]
			}
		}
		copy(f, e.Features)
		copy(l, e.Labels)
		for j := len(e.Features); j < len(f); j++ {
			f[j] = pair{Index: -77, Value: 77.5}
		}
		for j := len(e.Labels); j < len(l); j++ {
			l[j] = -78
		}
		o.f, o.l = append(o.f, f), append(o.l, l)
		o.full[i] = example{Features: f[:len(e.Features)], Labels: l[:len(e.Labels)]}
	}
	o.ex = o.full[:len(ex)]
	o.was = o.String()
	return o
}

func (o *lent) String() string { return fmt.Sprint(o.full, o.f, o.l) }

// scribble overwrites everything that was handed over.
func (o *lent) scribble() {
	for i := range o.f {
		for j := range o.f[i] {
			o.f[i][j] = pair{Index: 1 << 40, Value: 1e30}
		}
		for j := range o.l[i] {
			o.l[i][j] = -1 << 40
		}
	}
	for i := range o.full {
		o.full[i] = example{}
	}
}

func (o *lent) check(r *mc.R, what string) {
	if s := o.String(); s != o.was {
		r.Failf("%s: the examples were %s and are %s afterwards", what, o.was, s)
	}
	o.scribble()
}

func runC25(r *mc.R) {
	th := r.Thorough()
	depth := 3
	if th {
		depth = 4
	}
	bigC25(r)
	nets := smallNets(th)
	nets = append(nets, mode2Nets(th)...)
	for i, s := range tableNets(false) {
		if i%5 == 0 || th {
			nets = append(nets, s)
		}
	}
	// a sampled layer of which most queries find some neurons and not all
	for i, hf := range families {
		for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4} {
			nets = append(nets, (&spec{in: 11, sizes: []int{9}, sp: []float64{0.5, 0.5}, batch: 1 + i%2, lr: 0.5, adam: i%2 == 0,
				hf: hf, mode: mode, seed: uint64(i + 40)}).tables(1, 3, 3))
		}
	}
	for _, s := range nets {
		s := s
		b := batches(s)
		last := b[len(b)-1]
		// unsorted lists, explicit zeros, more labels than one
		odd := example{Labels: []int{}}
		for i := s.in - 1; i >= 0; i-- {
			odd.Features = append(odd.Features, pair{Index: i, Value: []float64{0.5, 0, -2}[i%3]})
		}
		for i := s.sizes[len(s.sizes)-1] - 1; i >= 0; i-- {
			odd.Labels = append(odd.Labels, i)
		}
		oddBatch := []example{odd}
		if s.batch > 1 {
			oddBatch = []example{b[1][0], odd}
		}
		// the same indices with other values
		negated := example{Labels: []int{1 % s.sizes[len(s.sizes)-1]}}
		for _, f := range odd.Features {
			negated.Features = append(negated.Features, pair{Index: f.Index, Value: 0.25 - f.Value})
		}
		negatedBatch := append(append([]example{}, oddBatch[:len(oddBatch)-1]...), negated)
		shuffled := example{Labels: negated.Labels}
		for i, f := range odd.Features {
			shuffled.Features = append(shuffled.Features, pair{Index: f.Index, Value: float64(i*5%s.in) + 0.5})
		}
		shuffledBatch := append(append([]example{}, oddBatch[:len(oddBatch)-1]...), shuffled)
		ops := []op{
			{name: "train negated", ex: negatedBatch, iter: 5},
			{name: "train shuffled", ex: shuffledBatch, iter: 7},
			{name: "train odd", ex: oddBatch, iter: 9, rehash: true},
			{name: "predict odd", predict: true, ex: oddBatch},
			{name: "train", ex: last, iter: 2},
			{name: "train 1", ex: b[1], iter: 4},
			{name: "rehash", ex: b[0], iter: 0, rehash: true},
			{name: "both", ex: last, iter: 6945, rehash: true, rebuild: true},
			{name: "predict", predict: true, ex: last},
			{name: "predict 1", predict: true, ex: b[1]},
		}
		for f := range ops {
			for _, fresh := range []bool{false, true} {
				f, fresh := f, fresh
				r.Case(fmt.Sprintf("first %s fresh%v %s", ops[f].name, fresh, s.key()), func() {
					c := &recipes{s, ops, map[string]*full{}, map[string]int{}, nil}
					for k := 0; k < depth; k++ {
						tuples(k, len(ops), func(t []int) {
							if r.Expired() {
								return
							}
							seq := append([]int{f}, t...)
							sum := 0
							for _, o := range seq {
								sum += o
							}
							for _, reuse := range []bool{false, true} {
								if k == depth-1 && reuse != (sum%2 == 1) {
									continue
								}
								n := s.build()
								var lentEx *lent
								for i, o := range seq {
									id := n.id
									if fresh {
										id++
									}
									if !reuse {
										lentEx = nil
									}
									lentEx = lend(ops[o].ex, lentEx)
									count, m := lentEx.do(n, &ops[o], id)
									r.Step(1)
									lentEx.check(r, fmt.Sprintf("calls %s", opNames(ops, seq[:i+1])))
									if _, want := c.reference(seq[:i+1]); ops[o].predict && count != want {
										r.Failf("calls %s: %d correct, with untouched examples %d", opNames(ops, seq[:i+1]), count, want)
									}
									n = m
								}
								r.Eval()
								want, _ := c.reference(seq)
								if d := n.dump().diff(want); d != "" {
									r.Failf("calls %s, examples overwritten after each: %s, as with untouched examples", opNames(ops, seq), d)
								}
								r.State(s.key(), fresh, reuse, seq)
							}
						})
					}
					if r.Expired() {
						r.Skipped++
					}
				})
			}
		}
	}
}

// large examples, with features and labels in no order
func bigC25(r *mc.R) {
	bigHistories(r, 2, func(b *bigNet, ops []op, t []int) {
		if len(t) == 0 {
			return
		}
		c := &recipes{b.spec, ops, map[string]*full{}, map[string]int{}, nil}
		for _, fresh := range []bool{false, true} {
			n := b.build()
			var lentEx *lent
			for i, o := range t {
				id := n.id
				if fresh {
					id++
				}
				lentEx = lend(ops[o].ex, lentEx)
				_, m := lentEx.do(n, &ops[o], id)
				r.Step(1)
				lentEx.check(r, fmt.Sprintf("calls %s", opNames(ops, t[:i+1])))
				n = m
			}
			r.Eval()
			if want, _ := c.reference(t); len(t) > 1 {
				if d := n.dump().diff(want); d != "" {
					r.Failf("calls %s, examples overwritten after each: %s, as with untouched examples", opNames(ops, t), d)
				}
			}
		}
	})
}

// do makes the call with the very memory of o.
func (o *lent) do(n *net, p *op, id int) (int, *net) {
	n.s.configure()
	if p.predict {
		n.use(1000 + n.step)
		c, r := n.n.PredictClass(id, o.ex)
		return c, &net{n.s, r, id, n.step}
	}
	n.use(n.step + 1)
	_, r := n.n.ProcessInput(id, o.ex, p.iter, p.rehash, p.rebuild)
	return 0, &net{n.s, r, id, n.step + 1}
}
