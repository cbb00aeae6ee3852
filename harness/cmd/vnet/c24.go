package main

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/env"
	"goslideverif/mc"
)

var c24 = mc.Prop{
	ID: "C24", Level: "model_checking", Fn: runC24,
	Rule: "(a) networks of 1-3 layers over all sizes 1-3 (4) per layer and inputs 1-3, all families, optimizers and batch sizes 1-3: every normal draw is a distinct value and every weight and bias must be its own draw times 0.01, every draw used once, and values put into every slot, gradient and moment are all read back afterwards; a generator seeded with a value used before gives the same draws again, also for networks built one after the other; shapes, optimizer state, slots, tables and node types are read back; constructed twice, with every other drawn choice of the permutation of a small layer; (b) layers made from all supplied parameter tuples over a small alphabet, with and without supplied moments; (c) all interleavings of up to 4 (5) calls on two networks built one after the other (equal or different shapes), compared with each network driven alone",
	Assumptions: []string{"shapes beyond three neurons per layer are those of the networks of the other properties, among them networks large in one respect each (1500 inputs, 2100 neurons, 75000 weights, 300 slots, 130 tables, 4096 buckets, 8 layers)",
		"parameters are matched to draws by value, so the order of drawing is free"},
}

func normals(src *env.Source, drawn *[]float64) *env.Source {
	next := 0
	src.MarkF = func() int { return next }
	src.BackF = func(i int) { next = i }
	src.NormF = func() float64 {
		i := next
		next++
		v := float64(i+1)*1.25 + 1e-7/3
		if i%2 == 1 {
			v = -v
		}
		*drawn = append(*drawn, v)
		return v
	}
	return src
}

// checkShape reads a new network back; drawn are the normal draws made.
func (n *net) checkShape(r *mc.R, drawn []float64, what string) {
	s := n.s
	var params []float64
	for i, l := range n.layers() {
		nodes := l.GetAllNodes()
		if len(nodes) != s.sizes[i] || l.NumOfNodes() != s.sizes[i] {
			r.Failf("%slayer %d has %d neurons (%d), want %d", what, i, len(nodes), l.NumOfNodes(), s.sizes[i])
		}
		for j, nd := range nodes {
			at := fmt.Sprintf("%slayer %d neuron %d: ", what, i, j)
			if l.GetNodeById(j) != nd {
				r.Failf("%sGetNodeById gives another neuron", at)
			}
			checkNewNode(r, nd, n.dim(i), s, at)
			params = append(params, nd.Weights()...)
			params = append(params, nd.Bias())
		}
		codes := l.GetHashForInputProcessing(nodes[0].Weights())
		if len(codes) != s.k[i]*s.l[i] && s.hf != dwta && s.hf != minh || len(codes) < s.k[i]*s.l[i] {
			r.Failf("%slayer %d: %d hash codes, want %d", what, i, len(codes), s.k[i]*s.l[i])
		}
		if a := l.HashesToIndex(codes); len(a) != s.l[i] {
			r.Failf("%slayer %d: %d bucket addresses, want %d", what, i, len(a), s.l[i])
		}
		if d := n.tablesMatch(i, dumpTables(l, s.l[i], s.rp[i])); d != "" {
			r.Failf("%slayer %d: %s", what, i, d)
		}
		checkConstants(r, l, s.types()[i], s.batch, fmt.Sprintf("%slayer %d: ", what, i))
	}
	if drawn == nil {
		return
	}
	want := copyFloats(drawn)
	for i := range want {
		want[i] *= 0.01
	}
	sort.Float64s(want)
	sort.Float64s(params)
	if d := diffSlices("the sorted parameters against the draws times 0.01: value", params, want); d != "" {
		r.Failf("%s%s", what, d)
	}
	for i := 1; i < len(want); i++ {
		if want[i] == want[i-1] {
			r.Failf("%sthe same draw %v was made for two parameters: the generator was seeded with the same value again", what, want[i]*100)
		}
	}
}

func checkNewNode(r *mc.R, nd *node.Node, dim int, s *spec, at string) {
	if len(nd.Weights()) != dim {
		r.Failf("%s%d weights, want %d", at, len(nd.Weights()), dim)
	}
	if nd.Bias() != nd.GetBias() {
		r.Failf("%sBias is %v, GetBias %v", at, nd.Bias(), nd.GetBias())
	}
	if s.adam {
		if nd.AdamTDim() != dim {
			r.Failf("%s%d gradient entries, want %d", at, nd.AdamTDim(), dim)
		}
	}
	st := readNode(nd, s.adam)
	for _, v := range append(copyFloats(st.T), st.MB, st.VB, st.TB) {
		if v != 0 {
			r.Failf("%spending gradient or bias moment %v, want 0", at, v)
		}
	}
	for slot := 0; slot < s.batch; slot++ {
		if a := nd.GetLastActivation(slot); a != 0 {
			r.Failf("%sslot %d: activation %v, want 0", at, slot, a)
		}
		if g := nd.GetGradient(0, 0, slot, 1); g != 0 {
			r.Failf("%sslot %d: error %v, want 0", at, slot, -g)
		}
		if !panics(func() { nd.ComputeExtaStatsForSoftMax(77, 1, slot, []int{0}) }) {
			r.Failf("%sslot %d is active", at, slot)
		}
	}
}

func checkConstants(r *mc.R, l *layer.Layer, typ node.NodeType, batch int, at string) {
	for slot := 0; slot < batch; slot++ {
		var v float64
		refusedIt := panics(func() { v = l.GetNomalizationConstant(slot) })
		if refusedIt != (typ != node.Softmax) {
			r.Failf("%sreading a normalization constant of a %v layer is refused: %v", at, typ, refusedIt)
		}
		if v != 0 {
			r.Failf("%snormalization constant %v, want 0", at, v)
		}
	}
}

// checkOwn gives every slot, moment and gradient of every neuron a value of
// its own and reads all of them back: none is shared.
func (n *net) checkOwn(r *mc.R, id int, what string) {
	s := n.s
	n.s.configure()
	val := 0.0
	next := func() float64 { val++; return val }
	var want [][][]float64
	for i, l := range n.layers() {
		want = append(want, nil)
		nodes := l.GetAllNodes()
		for j, nd := range nodes {
			var w []float64
			put := func(f func(v float64) *node.Node) {
				v := next()
				w = append(w, v)
				nd = f(v)
			}
			for slot := 0; slot < s.batch; slot++ {
				_, nd = nd.GetActivation(id, nil, slot)
				put(func(v float64) *node.Node { return nd.SetlastActivation(id, slot, v) })
				nd = nd.IncrementDelta(id, slot, w[len(w)-1])
			}
			if s.adam {
				for d := 0; d < n.dim(i); d++ {
					put(func(v float64) *node.Node { return nd.SetT(id, d, v) })
					put(func(v float64) *node.Node { return nd.SetAdamAvgMom(id, d, v) })
					put(func(v float64) *node.Node { return nd.SetAdamAvgVel(id, d, v) })
				}
			}
			put(func(v float64) *node.Node { return nd.SetAdamAvgMomBias(id, v) })
			put(func(v float64) *node.Node { return nd.SetAdamAvgVelBias(id, v) })
			put(func(v float64) *node.Node { return nd.SetTBias(id, v) })
			nodes[j] = nd
			want[i] = append(want[i], w)
		}
	}
	for i, l := range n.layers() {
		for j, nd := range l.GetAllNodes() {
			w := want[i][j]
			k := 0
			get := func(name string, at int, got float64) {
				if got != w[k] {
					r.Failf("%slayer %d neuron %d: %s %d is %v after %v was put there and other values elsewhere", what, i, j, name, at, got, w[k])
				}
				k++
			}
			for slot := 0; slot < s.batch; slot++ {
				if e := -nd.GetGradient(id, 0, slot, 1); e != w[k] {
					r.Failf("%slayer %d neuron %d: the error of slot %d is %v after %v was added there and other values elsewhere", what, i, j, slot, e, w[k])
				}
				get("activation of slot", slot, nd.GetLastActivation(slot))
			}
			if s.adam {
				for d := 0; d < n.dim(i); d++ {
					get("gradient", d, nd.GetT(d))
					get("first moment", d, nd.GetAdamAvgMom(d))
					get("second moment", d, nd.GetAdamAvgVel(d))
				}
			}
			get("bias first moment", 0, nd.GetAdamAvgMomBias())
			get("bias second moment", 0, nd.GetAdamAvgVelBias())
			get("bias gradient", 0, nd.GetTBias())
		}
	}
}

func noMoments(r *mc.R, P [][]nstate, what string) {
	for i := range P {
		for j, st := range P[i] {
			for _, v := range append(copyFloats(st.M), st.V...) {
				if v != 0 {
					r.Failf("%slayer %d neuron %d: moment %v, want 0", what, i, j, v)
				}
			}
		}
	}
}

func runC24(r *mc.R) {
	th := r.Thorough()
	maxN := 3
	if th {
		maxN = 4
	}

	// (a)
	for nl := 1; nl <= 3; nl++ {
		for _, hf := range families {
			for _, adam := range []bool{true, false} {
				nl, hf, adam := nl, hf, adam
				r.Case(fmt.Sprintf("shapes of %d layers hf%d adam%v", nl, hf, adam), func() {
					count := 0
					tuples(nl+1, maxN, func(t []int) {
						sizes := make([]int, nl)
						for i := range sizes {
							sizes[i] = t[i+1] + 1
						}
						for batch := 1; batch <= 3; batch++ {
							count++
							if nl == 3 && (count%4 != 0) && !th {
								continue
							}
							s := &spec{in: t[0] + 1, sizes: sizes, batch: batch, lr: 0.5, adam: adam, hf: hf, mode: configuration.LayerMode1, seed: uint64(count)}
							for i := 0; i < nl; i++ {
								s.k = append(s.k, 1+(i+count)%3)
								s.l = append(s.l, 1+(i+count/2)%4)
								s.rp = append(s.rp, 1+(i+count/3)%4)
								s.sp = append(s.sp, []float64{1, 0.5}[(i+count)%2])
							}
							s.sp = append(s.sp, s.sp...)
							var first *full
							for round := 0; round < 2; round++ {
								s.configure()
								drawn := []float64{}
								env.Use(normals(s.source(0), &drawn))
								n := &net{s: s, n: network.New(round*5, nl, copyOf(sizes), s.types(), batch, 0.5, s.in, copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))}
								env.Use(s.source(1))
								r.Eval()
								r.Step(1)
								n.checkShape(r, drawn, fmt.Sprintf("%s: ", s.key()))
								noMoments(r, n.params(), s.key()+": ")
								f := n.dump()
								if first == nil {
									first = f
								} else if d := f.diff(first); d != "" {
									r.Failf("%s: built again from the same draws: %s", s.key(), d)
								}
								n.checkOwn(r, round*5, s.key()+": ")
								r.State(s.key())
							}
						}
					})
				})
			}
		}
	}
	for i, s := range tableNets(th) {
		s := s
		r.Case(fmt.Sprintf("larger shape %d", i), func() {
			s.configure()
			drawn := []float64{}
			env.Use(normals(s.source(0), &drawn))
			n := &net{s: s, n: network.New(3, len(s.sizes), copyOf(s.sizes), s.types(), s.batch, s.lr, s.in, copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))}
			env.Use(s.source(1))
			r.Eval()
			n.checkShape(r, drawn, s.key()+": ")
			noMoments(r, n.params(), s.key()+": ")
			n.checkOwn(r, 3, s.key()+": ")
			r.State(s.key())
		})
	}
	for i, b := range bigNets(th) {
		b := b
		r.Case(fmt.Sprintf("large shape %d", i), func() {
			s := b.spec
			s.configure()
			drawn := []float64{}
			env.Use(normals(s.source(0), &drawn))
			n := &net{s: s, n: network.New(3, len(s.sizes), copyOf(s.sizes), s.types(), s.batch, s.lr, s.in, copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))}
			env.Use(s.source(1))
			r.Eval()
			n.checkShape(r, drawn, s.key()+": ")
			noMoments(r, n.params(), s.key()+": ")
			n.checkOwn(r, 3, s.key()+": ")
			r.State(s.key())
		})
	}
	// the parameters of networks built one after the other are all their own draws
	for _, hf := range families {
		for _, sizes := range [][]int{{3}, {2, 2, 2}} {
			s := (&spec{in: 2, sizes: sizes, sp: []float64{0.5, 0.5, 0.5, 0.5, 0.5, 0.5}[:2*len(sizes)], batch: 1, lr: 0.5, adam: true, hf: hf, mode: configuration.LayerMode4, seed: 4}).tables(2, 2, 4)
			r.Case("one after the other "+s.key(), func() {
				s.configure()
				drawn := []float64{}
				src := normals(s.source(0), &drawn)
				env.Use(src)
				for i := 0; i < 3; i++ {
					network.New(i, len(sizes), copyOf(sizes), s.types(), 1, 0.5, 2, copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))
					r.Eval()
				}
				env.Use(s.source(1))
				met := map[float64]bool{}
				for _, v := range drawn {
					if met[v] {
						r.Failf("%s: the draw %v was made for two parameters: the generator was seeded with the same value again", s.key(), v)
					}
					met[v] = true
				}
				r.State(s.key(), len(drawn))
			})
		}
	}
	// every permutation outcome leaves the parameters alone
	for _, hf := range families {
		s := (&spec{in: 2, sizes: []int{3}, sp: []float64{0.5, 0.5}, batch: 1, lr: 0.5, adam: true, hf: hf, mode: configuration.LayerMode4, seed: 2}).tables(1, 2, 2)
		bound := 2
		if th {
			bound = 3
		}
		r.Case("random outcomes "+s.key(), func() {
			r.Explore(bound, 100000, func(c *mc.Chooser) {
				s.configure()
				drawn := []float64{}
				env.Use(normals(env.Deviations(c, 3), &drawn))
				n := &net{s: s, n: network.New(0, 1, []int{3}, s.types(), 1, 0.5, 2, copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))}
				env.Use(s.source(1))
				r.Eval()
				n.checkShape(r, drawn, s.key()+": ")
				r.State(s.key(), c.V)
			})
		})
	}

	// (b)
	alpha := []float64{0, 1.5, -2}
	for _, hf := range families {
		for _, adam := range []bool{true, false} {
			for _, typ := range []node.NodeType{node.ReLU, node.Softmax} {
				for n := 1; n <= 2; n++ {
					hf, adam, typ, n := hf, adam, typ, n
					s := (&spec{in: 2, sizes: []int{n}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.5, adam: adam, hf: hf, mode: configuration.LayerMode1, seed: 9}).tables(2, 2, 3)
					r.Case(fmt.Sprintf("supplied type%d %s", typ, s.key()), func() {
						tuples(3*n, len(alpha), func(t []int) {
							s.configure()
							configuration.Global.LoadWeight = true
							var w, b, m, v []float64
							for i := 0; i < 2*n; i++ {
								w = append(w, alpha[t[i]])
								m = append(m, float64(i)+0.25)
								v = append(v, float64(10*i)+0.5)
							}
							for i := 0; i < n; i++ {
								b = append(b, alpha[t[2*n+i]])
							}
							given := [][]float64{copyFloats(w), copyFloats(b), copyFloats(m), copyFloats(v)}
							src := s.source(0)
							src.NormF = func() float64 { return 1e9 }
							env.Use(src)
							mm, vv := m, v
							if !adam {
								mm, vv = nil, nil
							}
							l := layer.New(4, n, 2, 0, typ, 2, 2, 2, 3, 0.5, w, b, mm, vv)
							env.Use(s.source(1))
							r.Eval()
							r.Step(1)
							if fmt.Sprint(given) != fmt.Sprint([][]float64{w, b, m, v}) {
								r.Failf("making a layer changes the supplied parameters %v to %v", given, [][]float64{w, b, m, v})
							}
							nodes := l.GetAllNodes()
							if len(nodes) != n {
								r.Failf("%d neurons, want %d", len(nodes), n)
							}
							for j, nd := range nodes {
								at := fmt.Sprintf("supplied %v: neuron %d: ", given, j)
								checkNewNode(r, nd, 2, s, at)
								st := readNode(nd, adam)
								for _, d := range []string{diffSlices("weight", st.W, w[2*j:2*j+2]), diffSlices("bias", []float64{st.B}, b[j:j+1])} {
									if d != "" {
										r.Failf("%s%s", at, d)
									}
								}
								if adam {
									for _, d := range []string{diffSlices("first moment", st.M, m[2*j:2*j+2]), diffSlices("second moment", st.V, v[2*j:2*j+2])} {
										if d != "" {
											r.Failf("%s%s", at, d)
										}
									}
								}
							}
							checkConstants(r, l, typ, 2, "")
							h := hasherOf(l, hf, 2)
							got := dumpTables(l, 2, 3)
							for j, nd := range nodes {
								for t, a := range h.addr(h.dense(copyFloats(nd.Weights()))) {
									k := 0
									for _, x := range got[t][a] {
										if x == j {
											k++
										}
									}
									if k != 1 {
										r.Failf("supplied %v: table %d address %d holds %v, want neuron %d once", given, t, a, got[t][a], j)
									}
								}
							}
							total := 0
							for _, tab := range got {
								for _, bk := range tab {
									total += len(bk)
								}
							}
							if total != 2*n {
								r.Failf("supplied %v: the tables hold %d entries, want %d", given, total, 2*n)
							}
							configuration.Global.LoadWeight = false
							r.State(typ, adam, hf, given)
						})
					})
				}
			}
		}
	}

	// (c)
	d := 4
	if th {
		d = 5
	}
	nets := smallNets(false)
	for i, s := range nets {
		for _, j := range []int{i, (i + 1) % len(nets)} {
			a, b := s, nets[j]
			if a.adam != b.adam || a.hf != b.hf && i != j && !th && i%2 == 0 {
				continue
			}
			r.Case(fmt.Sprintf("two networks %s and %s", a.key(), b.key()), func() {
				two := [2]*spec{a, b}
				var ref [2]*recipes
				for x, s := range two {
					bs := batches(s)
					last := bs[len(bs)-1]
					ref[x] = &recipes{s, []op{
						{name: "train", ex: last, iter: 2},
						{name: "both", ex: bs[0], iter: 6945, rehash: true, rebuild: true},
						{name: "predict", predict: true, ex: last},
					}, map[string]*full{}, map[string]int{}, nil}
				}
				for k := 0; k <= d; k++ {
					tuples(k, 6, func(t []int) {
						if r.Expired() || k > 2 && !th && t[0]+2*t[1]+t[2]+t[k-1] > 9 {
							return
						}
						n := [2]*net{a.build(), b.build()}
						var recipe [2][]int
						for _, o := range t {
							x := o / 3
							var c int
							c, n[x] = ref[x].ops[o%3].do(n[x], 0)
							recipe[x] = append(recipe[x], o%3)
							r.Step(1)
							if _, want := ref[x].reference(recipe[x]); c != want {
								r.Failf("calls %v on two networks: network %d: %d correct, alone %d", t, x, c, want)
							}
						}
						r.Eval()
						for x := range n {
							want, _ := ref[x].reference(recipe[x])
							if d := n[x].dump().diff(want); d != "" {
								r.Failf("calls %v (0-2 on the first, 3-5 on the second network): network %d (%s): %s", t, x, ref[x].names(recipe[x]), d)
							}
						}
						r.State(a.key(), b.key(), t)
					})
				}
				if r.Expired() {
					r.Skipped++
				}
			})
		}
	}
}

func panics(f func()) bool {
	p, v := mc.Protect(f)
	if l, ok := v.(mc.Livelock); ok {
		panic(l)
	}
	return p
}
