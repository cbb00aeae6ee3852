package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/mc"
)

var c16 = mc.Prop{
	ID: "C16", Level: "model_checking", Fn: runC16,
	Rule: "all histories of up to 3 (4) training and prediction calls (plain, rehash, rebuild, both, batches of different sizes, iteration 6945) on any live network of a growing tree of derivations, each under a fresh id or, on a network nothing was derived from, in place; ids that rise (and, for up to 2 calls, fall, lie 2^32 apart, alternate in sign or are huge); after every call the full state (parameters, optimizer state, tables, hash functions, batch slots) of every live network is compared with that of a network built and driven in place through the same calls, and prediction counts likewise; all families, both optimizers, modes 1-4, 1-3 layers, layers of 1002 and 4200 neurons, and histories of 2 calls on networks large in one respect each",
	Assumptions: []string{
		"ids are fresh to the line of descent (siblings may share one); when a network something was derived from is used in place, the derived networks are no longer compared",
		"random draws depend only on the number of training calls in a line of descent"},
}

type branch struct {
	n       *net
	recipe  []int // calls since construction
	id      int
	derived bool
	dead    bool
	parent  int
}

type recipes struct {
	s     *spec
	ops   []op
	state map[string]*full
	count map[string]int
	slots map[string]uint64 // nil: not compared
}

// slotHash summarises the slots of all neurons and the normalization constants.
func (n *net) slotHash() uint64 {
	h := mc.NewH()
	ty := n.s.types()
	for i, l := range n.layers() {
		for slot := 0; slot < n.s.batch; slot++ {
			for _, nd := range l.GetAllNodes() {
				h = h.Add(fbits(nd.GetLastActivation(slot))).Add(fbits(nd.GetGradient(0, 0, slot, 1)))
			}
			if ty[i] == node.Softmax {
				h = h.Add(fbits(l.GetNomalizationConstant(slot)))
			}
		}
	}
	return uint64(h)
}

// reference drives a fresh network in place through recipe.
func (c *recipes) reference(recipe []int) (*full, int) {
	k := fmt.Sprint(recipe)
	if f, ok := c.state[k]; ok {
		return f, c.count[k]
	}
	var n *net
	count := 0
	var f *full
	withIds(rising, func() {
		n = c.s.build()
		for _, o := range recipe {
			count, n = c.ops[o].do(n, 0)
		}
		f = n.dump()
	})
	c.state[k], c.count[k] = f, count
	if c.slots != nil {
		c.slots[k] = n.slotHash()
	}
	return f, count
}

func (c *recipes) names(t []int) string { return opNames(c.ops, t) }

type forest struct {
	c   *recipes
	b   []*branch
	log []string
}

func (t *forest) step(r *mc.R, i, o int, fresh bool) bool {
	x := t.b[i]
	if x.dead {
		return false
	}
	id := x.id
	if fresh {
		id++
	}
	t.log = append(t.log, fmt.Sprintf("%s on network %d (owner %d) under id %d", t.c.ops[o].name, i, cow(x.id), cow(id)))
	count, m := t.c.ops[o].do(x.n, id)
	r.Step(1)
	recipe := append(copyOf(x.recipe), o)
	if _, want := t.c.reference(recipe); count != want {
		r.Failf("%s: %d correct, in place on a copy %d", strings.Join(t.log, "; "), count, want)
	}
	if fresh {
		x.derived = true
		t.b = append(t.b, &branch{n: m, recipe: recipe, id: id, parent: i})
		return true
	}
	if x.derived { // what was derived from it is not covered any more
		for j := range t.b {
			for k := t.b[j].parent; k >= 0; k = t.b[k].parent {
				if k == i {
					t.b[j].dead = true
					break
				}
			}
		}
	}
	x.n, x.recipe = m, recipe
	return true
}

func (t *forest) check(r *mc.R) {
	for i, x := range t.b {
		if x.dead {
			continue
		}
		want, _ := t.c.reference(x.recipe)
		if d := x.n.dump().diff(want); d != "" {
			r.Failf("%s: then network %d (calls %s): %s", strings.Join(t.log, "; "), i, t.c.names(x.recipe), d)
		}
		if t.c.slots != nil && x.n.slotHash() != t.c.slots[fmt.Sprint(x.recipe)] {
			r.Failf("%s: then network %d (calls %s): slots (activations, errors) or normalization constants differ", strings.Join(t.log, "; "), i, t.c.names(x.recipe))
		}
	}
}

func cowNets(th bool) []*spec {
	o := smallNets(th)
	o = append(o, mode2Nets(th)...)
	for i, s := range tableNets(false) {
		if i%3 == 0 || th {
			o = append(o, s)
		}
	}
	return o
}

func runC16(r *mc.R) {
	th := r.Thorough()
	depth := 3
	if th {
		depth = 4
	}
	explore := func(s *spec, ops []op, depth int, sc idScheme, f int, fresh bool) {
		r.Case(fmt.Sprintf("first %s fresh%v %s%s", ops[f].name, fresh, s.key(), sc.suffix()), func() {
			withIds(sc, func() {
				c := &recipes{s, ops, map[string]*full{}, map[string]int{}, map[string]uint64{}}
				type mv struct {
					i, o  int
					fresh bool
				}
				seq := []mv{{0, f, fresh}}
				var rec func()
				rec = func() {
					if r.Expired() {
						return
					}
					t := &forest{c: c, b: []*branch{{n: s.build(), parent: -1}}}
					for _, m := range seq {
						if !t.step(r, m.i, m.o, m.fresh) {
							return
						}
					}
					r.Eval()
					t.check(r)
					r.State(s.key(), seq)
					if len(seq) == depth {
						return
					}
					for i := range t.b {
						for o := range ops {
							for _, fr := range []bool{true, false} {
								seq = append(seq, mv{i, o, fr})
								rec()
								seq = seq[:len(seq)-1]
							}
						}
					}
				}
				rec()
				if r.Expired() {
					r.Skipped++
				}
			})
		})
	}
	nets := 0
	run := func(s *spec, ops []op, depth int) {
		nets++
		for f := range ops {
			for _, fresh := range []bool{true, false} {
				explore(s, ops, depth, rising, f, fresh)
				for i, sc := range otherIds {
					if th || (nets+i)%4 == 0 {
						explore(s, ops, min(depth, 2), sc, f, fresh)
					}
				}
			}
		}
	}
	for _, s := range cowNets(th) {
		b := batches(s)
		last := b[len(b)-1]
		ops := []op{
			{name: "train", ex: last, iter: 2},
			{name: "predict", predict: true, ex: last},
			{name: "rehash", ex: b[0], iter: 0, rehash: true},
			{name: "both", ex: b[1], iter: 6945, rehash: true, rebuild: true},
		}
		if th {
			ops = append(ops, op{name: "rebuild", ex: last, iter: 5, rebuild: true})
		}
		run(s, ops, depth)
	}
	// a layer large enough for the random permutation to matter
	for i, adam := range []bool{true, false, true} {
		size := 1002
		if i == 2 {
			size = 4200
		}
		s := (&spec{in: 2, sizes: []int{2, size}, sp: []float64{1, 0.5, 1, 0.5}, batch: 1, lr: 0.3, adam: adam, hf: srp,
			mode: configuration.LayerMode4, seed: 4}).tables(2, 1, 2)
		b := batches(s)
		run(s, []op{{name: "train", ex: b[0], iter: 6945}, {name: "predict", predict: true, ex: b[1]},
			{name: "rehash", ex: b[1], iter: 0, rehash: true}}, 2)
	}

	for i, b := range bigNets(th) {
		if b.rows > 2 && i%2 == 1 && !th {
			continue
		}
		all := b.ops()
		run(b.spec, []op{all[0], all[3], all[4]}, 2)
	}
}
