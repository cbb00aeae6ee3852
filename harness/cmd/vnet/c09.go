package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/env"
	"goslideverif/mc"
)

var c09 = mc.Prop{
	ID: "C09", Level: "model_checking", Fn: runC09,
	Rule:        "layer.New and QueryActiveNodeAndComputeActivations: every case is a layer configuration (family, mode, neuron type, 1-4 (5) neurons, table layout, parameters) and every query of it (all inputs of 2-3 features over a small alphabet, all label lists up to length 3 with repeats, sparsities 1, 0.99, 0.5, 0.3, 0) is one execution, compared with the selection rule computed from the layer's own hashers and tables; mode 2 under all random outcomes up to 2 (3) deviations from three fixed streams; modes 1 and 4 over all contents of small tables (each neuron at address 0, 1 or absent in each table), 127-260 tables with neurons in every number of them around 127 and 255, up to 420 hash functions; all modes with 31 to 1300 labels, distinct and repeated; up to 65584 queries of one layer, every label again after each of 20 numbers of queries around 256 and 65536; mode 4 with 999-1600 (500-3000) neurons around the 1000 and 1500 limits, five random starting points and reshuffled permutations",
	Assumptions: []string{"the addresses of an input are those computed by the layer's hasher and table objects (decided by C02-C07)"},
}

type lay struct {
	spec *spec
	typ  node.NodeType
	n    int
	l    *layer.Layer
	st   []nstate
}

// build makes one layer with s.sizes[0] neurons.
func buildLayer(s *spec, typ node.NodeType, src *env.Source) *lay {
	s.configure()
	env.Use(s.withParams(src))
	l := layer.New(cow(0), s.sizes[0], s.in, 0, typ, s.batch, s.k[0], s.l[0], s.rp[0], s.sp[0], nil, nil, nil, nil)
	env.Use(s.source(1))
	return &lay{s, typ, s.sizes[0], l, layerParams(l, s.adam)}
}

func (y *lay) hasherTables() *lsh.LSH { return tablesOf(y.l) }

func (y *lay) hasher() *hasher { return hasherOf(y.l, y.spec.hf, y.spec.in) }

// ask queries the layer once and checks the selection.
func (y *lay) ask(r *mc.R, in []pair, slot int, labels []int, sp float64, what string) []pair {
	y.spec.configure()
	ru := ruleFor(y.st, y.typ, y.spec.mode, y.hasher(), in, labels, sp)
	got, _ := query(y.l, 0, in, slot, labels, sp)
	r.Eval()
	r.Step(1)
	ids := make([]int, len(got))
	for i, p := range got {
		ids[i] = p.Index
	}
	if d := ru.check(ids); d != "" {
		r.Failf("%sinput %v, labels %v, sparsity %v: active neurons %v: %s", what, in, labels, sp, brief(ids), d)
	}
	r.Outcome(fmt.Sprintf("mode %d type %d active %d/%d", y.spec.mode, y.typ, min(len(ids), 2000), y.n))
	h := mc.NewH().Add(uint64(y.spec.mode)).Add(uint64(y.typ)).Add(uint64(y.n))
	for _, i := range ids {
		h = h.Add(uint64(i))
	}
	for _, i := range labels {
		h = h.Add(uint64(i) + 77)
	}
	r.StateHash(uint64(h))
	return got
}

func brief(v []int) string {
	if len(v) > 20 {
		return fmt.Sprintf("%v... (%d)", v[:20], len(v))
	}
	return fmt.Sprint(v)
}

// labelLists lists all label lists up to length m.
func labelLists(n, m int) [][]int {
	o := [][]int{{}}
	for k := 1; k <= m; k++ {
		tuples(k, n, func(t []int) { o = append(o, copyOf(t)) })
	}
	return o
}

func smallInputs(dim int, thorough bool) [][]pair {
	var o [][]pair
	alpha := []float64{0, 1, -1}
	if dim <= 2 || thorough {
		alpha = []float64{0, 1, -1, 0.5}
	}
	tuples(dim, len(alpha), func(t []int) {
		v := make([]float64, dim)
		for i, a := range t {
			v[i] = alpha[a]
		}
		o = append(o, sparseOf(v))
	})
	return o
}

func modes() []configuration.LayerModeType {
	return []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode2,
		configuration.LayerMode3, configuration.LayerMode4}
}

func runC09(r *mc.R) {
	th := r.Thorough()
	maxN := 4
	if th {
		maxN = 5
	}
	types := []node.NodeType{node.Softmax, node.ReLU}
	sparsities := []float64{1, 0.99, 0.5, 0.3, 0}
	type layout struct{ k, l, rp int }
	layouts := []layout{{1, 1, 1}, {2, 4, 1}, {1, 3, 3}}
	if th {
		layouts = append(layouts, layout{3, 5, 2}, layout{2, 9, 4})
	}

	// all small layers as constructed
	for n := 1; n <= maxN; n++ {
		for _, typ := range types {
			for _, mode := range modes() {
				for _, hf := range families {
					for _, lo := range layouts {
						for dim := 2; dim <= 3; dim++ {
							seeds := uint64(2)
							if th {
								seeds = 4
							}
							for seed := uint64(0); seed < seeds; seed++ {
								s := (&spec{in: dim, sizes: []int{n}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.1,
									adam: seed%2 == 0, hf: hf, mode: mode, seed: seed}).tables(lo.k, lo.l, lo.rp)
								if seed%2 == 1 { // many equal scores
									s.pname = "ternary"
									s.params = func(i int) float64 { return float64((i*i+int(seed))%3 - 1) }
								}
								typ := typ
								r.Case(fmt.Sprintf("layer type%d %s", typ, s.key()), func() {
									y := buildLayer(s, typ, s.source(0))
									lists := labelLists(n, 3)
									if typ == node.ReLU {
										lists = [][]int{{}, {0}, {n, n + 3}, {0, 0, 1}}
									}
									for _, sp := range sparsities {
										for _, in := range smallInputs(dim, th) {
											for li, labels := range lists {
												if mode == configuration.LayerMode2 && typ == node.Softmax && sp != 1 {
													continue // below, with all random outcomes
												}
												env.Use(s.source(li))
												env.MapOrder(uint64(li % 8))
												y.ask(r, in, li%2, labels, sp, "")
											}
										}
									}
								})
							}
						}
					}
				}
			}
		}
	}

	// mode 2: random outcomes
	dev := 2
	if th {
		dev = 3
	}
	for n := 1; n <= maxN+1; n++ {
		n := n
		for _, sp := range []float64{1, 0.99, 0.75, 0.5, 0.34, 0} {
			sp := sp
			s := (&spec{in: 2, sizes: []int{n}, sp: []float64{sp, sp}, batch: 2, lr: 0.1,
				hf: srp, mode: configuration.LayerMode2, seed: 5}).tables(1, 1, 1)
			r.Case("outcomes "+s.key(), func() {
				y := buildLayer(s, node.Softmax, s.source(0))
				for _, labels := range labelLists(n, 3) {
					labels := labels
					for stream := uint64(0); stream < 3; stream++ {
						r.Explore(dev, 5000, func(c *mc.Chooser) {
							env.Use(env.Deviations(c, stream))
							y.ask(r, []pair{{Index: 0, Value: 1}}, 0, labels, sp, fmt.Sprintf("random stream %d, deviations %v: ", stream, c.V))
						})
					}
				}
			})
		}
	}

	// mode 2: a layer beyond any fixed bound (325056 in the original)
	{
		n := 325100
		s := (&spec{in: 1, sizes: []int{n}, sp: []float64{1e-5, 1e-5}, batch: 1, lr: 0.1,
			hf: srp, mode: configuration.LayerMode2, seed: 5}).tables(1, 1, 0)
		r.Case("huge "+s.key(), func() {
			y := buildLayer(s, node.Softmax, s.source(0))
			for _, labels := range [][]int{{}, {n - 1, 0, n - 1}, {325055, 325056, 325057}} {
				env.Use(s.source(1))
				y.ask(r, []pair{{Index: 0, Value: 1}}, 0, labels, 1e-5, "")
			}
		})
	}

	// mode 3: scores of any size
	for n := 2; n <= maxN; n++ {
		for _, big := range []float64{1e9, 1e10, 1e17, 1e100, 1e300, 1e-300} {
			n, big := n, big
			s := (&spec{in: 2, sizes: []int{n}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.1,
				hf: srp, mode: configuration.LayerMode3, seed: 5, pname: "signs"}).tables(1, 1, 1)
			s.params = func(i int) float64 { return float64((i*7)%5 - 2) }
			r.Case(fmt.Sprintf("scores %g %s", big, s.key()), func() {
				y := buildLayer(s, node.Softmax, s.source(0))
				for _, in := range [][]pair{{{Index: 0, Value: big}}, {{Index: 1, Value: -big}}, {{Index: 0, Value: -big}, {Index: 1, Value: big}}, {{Index: 0, Value: big}, {Index: 1, Value: 1}}} {
					for _, labels := range labelLists(n, 2) {
						for _, sp := range []float64{0.3, 0.5, 0.99} {
							y.ask(r, in, 0, labels, sp, "")
						}
					}
				}
			})
		}
	}

	// modes 1 and 4: all contents of small tables
	type content struct{ n, l int }
	contents := []content{{1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 3}}
	if th {
		contents = append(contents, content{3, 4}, content{1, 6}, content{2, 5})
	}
	for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4} {
		for _, typ := range types {
			for _, hf := range families {
				for _, co := range contents {
					co, typ := co, typ
					s := (&spec{in: 2, sizes: []int{co.n}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.1,
						hf: hf, mode: mode, seed: 3}).tables(1, co.l, 1)
					r.Case(fmt.Sprintf("contents type%d %s", typ, s.key()), func() {
						y := buildLayer(s, typ, s.source(0))
						inputs := [][]pair{{{Index: 0, Value: 1}}, {{Index: 1, Value: 2}, {Index: 0, Value: -1}}}
						lists := labelLists(co.n, 2)
						// address of each neuron in each table; 2 means: not in the table
						tuples(co.n*co.l, 3, func(t []int) {
							if co.n*co.l > 7 {
								for _, a := range t {
									if a == 2 {
										return
									}
								}
							}
							y.spec.configure()
							y.l.ClearHashTables()
							for i := 0; i < co.n; i++ {
								for b := 0; b < co.l; b++ {
									if a := t[i*co.l+b]; a < 2 {
										y.hasherTables().AddSingle(b, a, i)
									}
								}
							}
							for _, in := range inputs {
								for li, labels := range lists {
									env.Use(s.source(li))
									env.MapOrder(uint64(li))
									y.ask(r, in, 0, labels, 0.5, fmt.Sprintf("table addresses %v: ", t))
								}
							}
						})
					})
				}
			}
		}
	}

	// modes 1 and 4: many tables
	for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4} {
		for _, typ := range types {
			for hi, hf := range families {
				for _, l := range []int{127, 128, 129, 130, 256, 257, 260} {
					if !th && (l+hi)%2 == 0 && l != 130 {
						continue
					}
					typ, l := typ, l
					s := (&spec{in: 2, sizes: []int{6}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.1,
						hf: hf, mode: mode, seed: 3}).tables(1, l, 0)
					r.Case(fmt.Sprintf("many tables type%d %s", typ, s.key()), func() {
						y := buildLayer(s, typ, s.source(0))
						lists := [][]int{{}, {0}, {5, 1}, {3, 3, 4}}
						// how many tables hold each neuron
						counts := []int{0, 1, 2, 3, 126, 127, 128, 129, 130, 255, 256, 257, 258, 259, l - 2, l - 1, l}
						for i, c0 := range counts {
							for j, c1 := range counts {
								if c0 > l || c1 > l || c0 < 0 {
									continue
								}
								y.spec.configure()
								y.l.ClearHashTables()
								for t := 0; t < l; t++ {
									for id, c := range []int{c0, c1, (c0 + c1) / 2, counts[(i+j)%len(counts)]} {
										if t < c || id%2 == 1 && c < l && t >= l-c {
											y.hasherTables().AddSingle(t, 0, id)
										}
									}
								}
								for li, labels := range lists {
									env.Use(s.source(li))
									y.ask(r, []pair{{Index: 0, Value: 1}}, 0, labels, 0.5, fmt.Sprintf("counts %d and %d: ", c0, c1))
								}
							}
						}
						// as constructed, and with all neurons everywhere
						y.spec.configure()
						y = buildLayer(s, typ, s.source(0))
						for li, labels := range lists {
							env.Use(s.source(li))
							y.ask(r, []pair{{Index: 1, Value: -1}}, 1, labels, 0.5, "as constructed: ")
						}
					})
				}
			}
		}
	}

	// all modes: many labels, distinct and repeated
	for _, mode := range modes() {
		for hi, hf := range families {
			for _, n := range []int{90, 300, 700, 1300} {
				if !th && n > 300 && (n/100+hi+int(mode))%2 == 0 {
					continue
				}
				s := (&spec{in: 2, sizes: []int{n}, sp: []float64{0.1, 0.1}, batch: 2, lr: 0.1,
					hf: hf, mode: mode, seed: uint64(n + hi)}).tables(1, 4, 3)
				r.Case("many labels "+s.key(), func() {
					y := buildLayer(s, node.Softmax, s.source(0))
					for li, m := range []int{31, 33, 63, 64, 65, 66, 70, 127, 128, 129, 140, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 1300} {
						// descending, and with every label repeated once or often
						for rep := 1; rep <= 3; rep++ {
							k := m
							if rep == 2 {
								k = m / 2
							} else if rep == 3 {
								k = 3
							}
							if k > n {
								continue
							}
							labels := make([]int, m)
							for i := range labels {
								labels[i] = n - 1 - i%k
							}
							for _, sp := range []float64{0.05, 0.5} {
								env.Use(s.source(li))
								y.ask(r, []pair{{Index: 0, Value: 1}, {Index: 1, Value: -0.5}}, rep%2, labels, sp, "")
							}
						}
					}
				})
			}
		}
	}

	// all modes: many queries of one layer
	for _, mode := range modes() {
		for hi, hf := range families {
			for _, typ := range types {
				for _, gap := range []int{256, 65536} {
					if gap > 256 && (!th && hi != int(mode)%4 || typ != node.Softmax) {
						continue
					}
					gap, typ := gap, typ
					s := (&spec{in: 2, sizes: []int{60}, sp: []float64{0.02, 0.02}, batch: 2, lr: 0.1,
						hf: hf, mode: mode, seed: uint64(hi)}).tables(1, 2, 1)
					r.Case(fmt.Sprintf("many queries %d type%d %s", gap, typ, s.key()), func() {
						y := buildLayer(s, typ, s.source(0))
						in := []pair{{Index: 0, Value: 1}, {Index: 1, Value: -0.5}}
						env.Use(s.source(1))
						// label i is asked for as query i, and again gap-8+i queries later
						next := 0
						for i := 0; i < gap+48; i++ {
							switch {
							case i < 20:
								y.ask(r, in, i%2, []int{i}, 0.02, fmt.Sprintf("query %d: ", i))
							case next < 20 && i == gap-8+2*next:
								y.ask(r, in, i%2, []int{next}, 0.02, fmt.Sprintf("query %d: ", i))
								next++
							case i < 300 || i > gap-8:
								y.ask(r, in, i%2, []int{59}, 0.02, fmt.Sprintf("query %d: ", i))
							default:
								query(y.l, 0, in, i%2, []int{59}, 0.02)
								r.Step(1)
							}
						}
					})
				}
			}
		}
	}

	// modes 1 and 4: many hash functions per table
	for _, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4} {
		for _, hf := range families {
			for _, lo := range []layout{{22, 4, 3}, {33, 3, 9}, {40, 5, 8}, {70, 4, 6}, {140, 3, 9}} {
				s := (&spec{in: 40, sizes: []int{9}, sp: []float64{0.5, 0.5}, batch: 2, lr: 0.1,
					hf: hf, mode: mode, seed: 8}).tables(lo.k, lo.l, lo.rp)
				r.Case("many functions "+s.key(), func() {
					y := buildLayer(s, node.Softmax, s.source(0))
					for id := range y.st {
						in := sparseOf(y.st[id].W)
						for li, labels := range [][]int{{}, {8}, {2, 0}} {
							env.Use(s.source(li))
							y.ask(r, in, li%2, labels, 0.5, fmt.Sprintf("weights of neuron %d: ", id))
						}
					}
				})
			}
		}
	}

	// mode 4: large layers
	type big struct{ n, cands int }
	bigs := []big{{999, 0}, {1000, 0}, {1001, 0}, {1001, 1}, {1100, 500}, {1600, 0}, {1600, 999}, {1600, 1000},
		{1600, 1001}, {1600, 1400}, {1600, 1498}, {1600, 1499}, {1600, 1500}, {1600, 1501}, {1600, 1536}}
	if th {
		for _, n := range []int{500, 1023, 1024, 1025, 2000, 3000} {
			for _, c := range []int{0, 1, 128, 997, 998, 999, 1000, 1001, 1499, 1500, 1535} {
				if c <= n {
					bigs = append(bigs, big{n, c})
				}
			}
		}
	}
	for _, typ := range types {
		for _, b := range bigs {
			for reshuffled := 0; reshuffled < 3; reshuffled++ {
				typ, b, reshuffled := typ, b, reshuffled
				s := (&spec{in: 2, sizes: []int{b.n}, sp: []float64{0.1, 0.1}, batch: 1, lr: 0.1,
					hf: srp, mode: configuration.LayerMode4, seed: 11 + uint64(reshuffled)}).tables(1, 12, 0)
				r.Case(fmt.Sprintf("large type%d cands%d reshuffled%d %s", typ, b.cands, reshuffled, s.key()), func() {
					y := buildLayer(s, typ, s.source(0))
					for i := 0; i < reshuffled; i++ {
						env.Use(s.source(20 + i))
						y.l.UpdateRandomNodes()
					}
					y.spec.configure()
					y.l.ClearHashTables()
					// each neuron of [0,cands) in exactly one of the 12 tables
					for i := 0; i < b.cands; i++ {
						y.hasherTables().AddSingle(i/128, 0, b.n-1-i)
					}
					y.hasherTables().AddSingle(0, 0, b.n-1) // may overflow; read back by the oracle
					last := b.n - 1
					for _, labels := range [][]int{{}, {0}, {last}, {0, last, 0}, {1, 2, 3, last - 1}} {
						for _, start := range []int64{0, 1, int64(b.n / 2), int64(b.n - 2), int64(b.n - 1)} {
							src := s.source(0)
							start := start
							src.IntnF = func(n int64) int64 {
								if start < n {
									return start
								}
								return n - 1
							}
							env.Use(src)
							y.ask(r, []pair{{Index: 0, Value: 1}}, 0, labels, 0.1, fmt.Sprintf("random start %d: ", start))
						}
					}
					// a growing set of labels
					var many []int
					for i := 0; i < b.n; i += 1 {
						many = append(many, i)
					}
					for _, m := range []int{10, 900, b.n} {
						env.Use(s.source(m))
						if m <= b.n {
							y.ask(r, []pair{{Index: 1, Value: 1}}, 0, many[:m], 0.1, "many labels: ")
						}
					}
				})
			}
		}
	}
}
