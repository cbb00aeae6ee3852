package main

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

var c13 = mc.Prop{
	ID: "C13", Level: "model_checking", Fn: runC13,
	Rule: "all sequences of up to 4 (6) training calls with every combination of rehash and rebuild flags, and predictions, empty batches included, on networks of 1-3 layers with unequal K, L, rangePow and sparsities (1 and below, at every position), all families, both optimizers, plus networks whose buckets overflow and all sequences of up to 2 (3) calls on networks large in one respect each (2100 neurons, 130 tables, 4096 buckets, 1500 inputs, 8 layers), histories of 65560 calls, and single calls with all flags at the iterations 0-300 and larger ones; after construction and after every call the dump of every table is compared with the addresses recomputed from the current weights, hashers and tables, or with the previous dump where nothing may change",
	Assumptions: []string{
		"which table contents a call must leave alone is decided on dumps through RetrieveRaw; hash functions are identified by the codes and addresses of 12 probe vectors",
		"a rebuild is recognised by changed codes: the fixed random stream gives other functions at every step"},
}

// wantTables recomputes the tables of layer i from the weights.
func (n *net) addresses(i int) [][]int {
	l := n.layers()[i]
	h := hasherOf(l, n.s.hf, n.dim(i))
	var o [][]int
	for _, nd := range l.GetAllNodes() {
		o = append(o, h.addr(h.dense(copyFloats(nd.Weights()))))
	}
	return o
}

// tablesMatch compares the tables of layer i with its weights.
func (n *net) tablesMatch(i int, got tables) string {
	addr := n.addresses(i)
	for t := range got {
		want := make([][]int, len(got[t]))
		for id, a := range addr {
			want[a[t]] = append(want[a[t]], id)
		}
		for a := range want {
			g := copyOf(got[t][a])
			sort.Ints(g)
			for j := 1; j < len(g); j++ {
				if g[j] == g[j-1] {
					return fmt.Sprintf("table %d address %d holds neuron %d twice", t, a, g[j])
				}
			}
			if len(want[a]) <= 128 {
				if !equalInts(g, want[a]) {
					return fmt.Sprintf("table %d address %d holds %v, want %v", t, a, g, want[a])
				}
				continue
			}
			in := distinct(want[a])
			for _, x := range g {
				if !in[x] {
					return fmt.Sprintf("table %d address %d holds neuron %d, which belongs elsewhere", t, a, x)
				}
			}
			if len(g) != 128 {
				return fmt.Sprintf("table %d address %d holds %d of %d neurons, want the 128 it has room for", t, a, len(g), len(want[a]))
			}
		}
	}
	return ""
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type tstate struct {
	T []tables
	F []string
}

func (n *net) tstate() *tstate {
	n.s.configure()
	o := &tstate{}
	for i, l := range n.layers() {
		o.T = append(o.T, dumpTables(l, n.s.l[i], n.s.rp[i]))
		o.F = append(o.F, n.fingerprint(l, n.dim(i)))
	}
	return o
}

// checkTables compares the state after a call with the one before it.
func (n *net) checkTables(r *mc.R, before, after *tstate, o *op, what string) {
	for i := range after.T {
		rehash, rebuild := o.rehash, o.rebuild
		if o.predict || n.s.sp[i] == 1 {
			rehash, rebuild = false, false
		}
		if rebuild != (before.F[i] != after.F[i]) {
			if rebuild {
				r.Failf("%s: layer %d still has the old hash functions after a rebuild", what, i)
			}
			r.Failf("%s: layer %d: the hash functions changed", what, i)
		}
		if rehash || rebuild {
			if d := n.tablesMatch(i, after.T[i]); d != "" {
				r.Failf("%s: layer %d: %s", what, i, d)
			}
		} else if a, b := after.T[i].String(), before.T[i].String(); a != b {
			r.Failf("%s: layer %d: tables changed from %s to %s", what, i, b, a)
		}
	}
}

func tableNets(th bool) []*spec {
	var o []*spec
	for _, adam := range []bool{true, false} {
		for fi, hf := range families {
			for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4} {
				// more than 8 inputs per layer: with fewer all WTA functions are the same
				o = append(o,
					&spec{in: 11, sizes: []int{5}, k: []int{3}, l: []int{3}, rp: []int{6}, sp: []float64{0.5, 1}, batch: 2},
					&spec{in: 12, sizes: []int{11, 4}, k: []int{2, 3}, l: []int{4, 3}, rp: []int{5, 6}, sp: []float64{1, 0.5, 0.3, 0.2}, batch: 2},
					&spec{in: 12, sizes: []int{11, 4}, k: []int{3, 2}, l: []int{3, 4}, rp: []int{6, 4}, sp: []float64{0.99, 1, 1, 1}, batch: 2},
					&spec{in: 13, sizes: []int{12, 11, 5}, k: []int{4, 2, 3}, l: []int{2, 5, 3}, rp: []int{7, 3, 5}, sp: []float64{0.9, 1, 0.4, 1, 1, 1}, batch: 3},
					&spec{in: 13, sizes: []int{11, 12, 5}, k: []int{2, 4, 4}, l: []int{5, 3, 2}, rp: []int{4, 8, 6}, sp: []float64{1, 0.7, 0.8, 1, 1, 0}, batch: 2})
				for j := len(o) - 5; j < len(o); j++ {
					s := o[j]
					s.adam, s.hf, s.mode, s.lr, s.seed = adam, hf, mode, 0.7, uint64(fi+j)
				}
			}
		}
	}
	return o
}

func runC13(r *mc.R) {
	th := r.Thorough()
	d := 4
	if th {
		d = 6
	}
	for _, s := range tableNets(th) {
		s := s
		b := batches(s)
		ops := []op{
			{name: "train", ex: []example{{Features: []pair{{Index: s.in / 2, Value: 1.5}}, Labels: []int{0}}}, iter: 0},
			{name: "rehash", ex: b[2], iter: 3, rehash: true},
			{name: "rebuild", ex: b[0], iter: 6945, rebuild: true},
			{name: "both", ex: b[3], iter: 1, rehash: true, rebuild: true},
			{name: "predict", predict: true, ex: b[2]},
			{name: "empty", ex: []example{}, iter: 2, rehash: true},
			{name: "empty both", ex: []example{}, iter: 5, rehash: true, rebuild: true},
		}
		for f := range ops {
			f := f
			r.Case(fmt.Sprintf("flags %s %s", ops[f].name, s.key()), func() {
				n := s.build()
				st := n.tstate()
				for i := range st.T {
					if d := n.tablesMatch(i, st.T[i]); d != "" {
						r.Failf("after construction: layer %d: %s", i, d)
					}
				}
				for k := 0; k < d; k++ {
					tuples(k, len(ops), func(t []int) {
						if r.Expired() {
							return
						}
						n := s.build()
						var st *tstate
						full := append([]int{f}, t...)
						for i, o := range full {
							if i == len(full)-1 {
								st = n.tstate()
							}
							n = ops[o].apply(n)
							r.Step(1)
						}
						r.Eval()
						after := n.tstate()
						n.checkTables(r, st, after, &ops[full[len(full)-1]], "calls "+opNames(ops, full))
						r.State(s.key(), after.T, after.F)
					})
				}
				if r.Expired() {
					r.Skipped++
				}
			})
		}
	}

	// every early iteration number, and later ones
	iters := []int{999, 1000, 1023, 1024, 4095, 4096, 6944, 6945, 6946, 9999, 10000, 65535, 65536, 1 << 20}
	for i := 0; i <= 300; i++ {
		iters = append(iters, i)
	}
	for si, s := range tableNets(false) {
		s := s
		if si%7 != 1 && !th {
			continue
		}
		r.Case("iterations "+s.key(), func() {
			b := batches(s)
			for _, it := range iters {
				for f := 0; f < 4; f++ {
					if r.Expired() {
						r.Skipped++
						return
					}
					o := op{name: fmt.Sprintf("iteration %d rehash %v rebuild %v", it, f&1 != 0, f&2 != 0), ex: b[2], iter: it, rehash: f&1 != 0, rebuild: f&2 != 0}
					n := s.build()
					before := n.tstate()
					n = o.apply(n)
					r.Step(1)
					r.Eval()
					n.checkTables(r, before, n.tstate(), &o, o.name)
				}
			}
		})
	}

	// large networks
	bd := 2
	if th {
		bd = 3
	}
	bigHistories(r, bd, func(b *bigNet, ops []op, t []int) {
		n := b.build()
		if len(t) == 0 {
			st := n.tstate()
			for i := range st.T {
				if d := n.tablesMatch(i, st.T[i]); d != "" {
					r.Failf("after construction: layer %d: %s", i, d)
				}
			}
			return
		}
		for i, o := range t {
			if i < len(t)-1 {
				n = ops[o].apply(n)
				r.Step(1)
				continue
			}
			before := n.tstate()
			n = ops[o].apply(n)
			r.Step(1)
			r.Eval()
			n.checkTables(r, before, n.tstate(), &ops[o], "calls "+opNames(ops, t))
		}
	})

	longHistories(r, false, func(n *net, o *op, id int, what string) *net {
		before := n.tstate()
		_, m := o.do(n, id)
		r.Step(1)
		r.Eval()
		m.checkTables(r, before, m.tstate(), o, what)
		return m
	})

	// full buckets
	for _, adam := range []bool{true, false} {
		for _, hf := range families {
			for _, n := range []int{127, 128, 129, 130, 260} {
				for rp := 0; rp <= 1; rp++ {
					s := &spec{in: 12, sizes: []int{n}, k: []int{3}, l: []int{2}, rp: []int{rp}, sp: []float64{0.5, 1}, batch: 1,
						lr: 0.7, adam: adam, hf: hf, mode: configuration.LayerMode4, seed: uint64(n)}
					r.Case("overflow "+s.key(), func() {
						b := batches(s)
						net := s.build()
						st := net.tstate()
						if d := net.tablesMatch(0, st.T[0]); d != "" {
							r.Failf("after construction: %s", d)
						}
						ops := []op{
							{name: "train", ex: b[0], iter: 0},
							{name: "rehash", ex: b[1], iter: 3, rehash: true},
							{name: "both", ex: b[1], iter: 3, rehash: true, rebuild: true},
						}
						for k, o := range []int{1, 0, 1, 2, 0, 1, 1} {
							before := net.tstate()
							net = ops[o].apply(net)
							r.Eval()
							r.Step(1)
							after := net.tstate()
							net.checkTables(r, before, after, &ops[o], fmt.Sprintf("call %d (%s)", k, ops[o].name))
						}
					})
				}
			}
		}
	}
}
