package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

var c33 = mc.Prop{
	ID: "C33", Level: "model_checking", Fn: runC33,
	Rule: "all sequences of up to 2 (3) training and prediction calls on small networks of all families and optimizers in modes 1 and 4, over batches of 1 to 3 examples (300 in one network), flags in all combinations, and on networks large in one respect each, everything printed captured: a call that rehashes prints one line of sample sizes with, for every layer, the mean over the batch of the number of neurons the tables and the labels supply (0 for a layer without sampling), computed from the tables before the call; other calls print none",
	Assumptions: []string{"what the tables supply is read through the lookup decided by C02 and the hash functions decided by C04-C07",
		"printed numbers may be off by half a unit of their last place"},
}

var captured *os.File

// printed is what f prints.
func printed(f func()) string {
	check := func(err error) {
		if err != nil {
			panic("HARNESS-BUG: " + err.Error())
		}
	}
	if captured == nil {
		var err error
		captured, err = os.Create(scratchFile("printed", ""))
		check(err)
		check(os.Remove(captured.Name()))
	}
	check(captured.Truncate(0))
	_, err := captured.Seek(0, 0)
	check(err)
	old := os.Stdout
	os.Stdout = captured
	defer func() { os.Stdout = old }()
	f()
	_, err = captured.Seek(0, 0)
	check(err)
	b, err := io.ReadAll(captured)
	check(err)
	return string(b)
}

const sizesTitle = "Avg sample size"

// sizesIn lists the lines of sample sizes in out.
func sizesIn(out string) (o [][]float64, bad string) {
	for _, l := range strings.Split(out, "\n") {
		i := strings.Index(l, sizesTitle)
		if i < 0 {
			continue
		}
		v := []float64{}
		for _, f := range strings.Fields(l[i+len(sizesTitle):]) {
			x, err := strconv.ParseFloat(strings.Trim(f, ":,;[]"), 64)
			if err != nil {
				return nil, fmt.Sprintf("line %q", l)
			}
			v = append(v, x)
		}
		o = append(o, v)
	}
	return o, ""
}

// supplied lists the possible numbers of neurons per layer which the tables and
// the labels supply, summed over the examples (several if equal activations may
// be taken in any order); false if a rounding could decide them.
func (n *net) supplied(ex []example) ([][]float64, bool) {
	n.s.configure()
	P, hs, types := n.params(), n.hashers(), n.s.types()
	sums := [][]float64{make([]float64, len(P))}
	ok := true
	for _, e := range ex {
		seen := map[string]bool{}
		var next [][]float64
		var layer func(i int, sum []float64, in []pair)
		layer = func(i int, sum []float64, in []pair) {
			if i == len(P) {
				if k := fmt.Sprint(sum); !seen[k] {
					seen[k] = true
					next = append(next, sum)
				}
				return
			}
			orders, few := n.orders(i, hs[i], in, n.s.sp[i])
			if !few {
				ok = false
			}
			for _, given := range orders {
				ru := ruleFor(P[i], types[i], n.s.mode, hs[i], given, e.Labels, n.s.sp[i])
				s := copyFloats(sum)
				if n.s.sp[i] != 1 {
					s[i] += float64(len(ru.must))
				}
				out := []pair{}
				if i < len(P)-1 {
					for _, j := range ru.only() {
						z, b := score(&P[i][j], in)
						if z != 0 && math.Abs(z) <= b*1000 {
							ok = false
						}
						out = append(out, pair{Index: j, Value: math.Max(z, 0)})
					}
				}
				layer(i+1, s, out)
			}
		}
		for _, sum := range sums {
			layer(0, sum, e.Features)
			if !ok || len(next) > 1000 {
				return nil, false
			}
		}
		sums = next
	}
	return sums, true
}

// sizesChecked makes a call and judges the sample sizes it prints.
func (o *op) sizesChecked(r *mc.R, n *net, id int, what string) *net {
	var want [][]float64
	known := true
	if !o.predict && o.rehash {
		want, known = n.supplied(o.ex)
	}
	var m *net
	out := printed(func() { _, m = o.do(n, id) })
	r.Eval()
	r.Step(1)
	if !known {
		r.Note("calls left out because a pre-activation is too close to 0, or too many are equal", 1)
		return m
	}
	lines, bad := sizesIn(out)
	if bad != "" {
		r.Failf("%s: %s", what, bad)
	}
	if want == nil {
		if len(lines) > 0 {
			r.Failf("%s: a call without rehashing prints sample sizes %v", what, lines)
		}
		return m
	}
	if len(lines) != 1 || len(lines[0]) != len(want[0]) {
		r.Failf("%s: sample sizes %v of a network of %d layers", what, lines, len(want[0]))
	}
	wrong := ""
	for _, sum := range want {
		wrong = ""
		for i, w := range sum {
			w /= float64(len(o.ex))
			if off(lines[0][i], w, 0.00051) {
				wrong = fmt.Sprintf("those of layer %d should have the mean %v", i, w)
				break
			}
		}
		if wrong == "" {
			break
		}
	}
	if wrong != "" {
		r.Failf("%s: batch {%s}: sample sizes %v; %s", what, exString(o.ex), lines[0], wrong)
	}
	r.Outcome(fmt.Sprintf("mode %d, %d layers, sizes %.1f", n.s.mode, len(want[0]), lines[0]))
	return m
}

// judged are the networks whose statistic the property determines.
func (s *spec) judged() bool {
	if s.mode == configuration.LayerMode1 || s.mode == configuration.LayerMode4 {
		return true
	}
	for _, x := range s.sp[:len(s.sizes)] {
		if x != 1 {
			return false
		}
	}
	return true
}

func runC33(r *mc.R) {
	th := r.Thorough()
	depth := 2
	if th {
		depth = 3
	}
	follow := func(s *spec, ops []op, t []int) {
		n := s.build()
		for i, o := range t {
			id := 0
			if t[0]%2 == 1 {
				id = 2 * i
			}
			n = ops[o].sizesChecked(r, n, id, fmt.Sprintf("calls %s, call %d", opNames(ops, t), i))
		}
		r.State(s.key(), fmt.Sprint(t))
	}
	for _, s := range append(smallNets(th), tableNets(th)...) {
		s := s
		if !s.judged() {
			continue
		}
		var ops []op
		for i, b := range batches(s) {
			for f := 0; f < 4; f++ {
				if f < 2 && i > 1 {
					continue
				}
				ops = append(ops, op{name: fmt.Sprintf("train %d flags %d", i, f), ex: b, iter: []int{i, 6945, 1<<24 + i, 1}[(i+f)%4], rehash: f&2 != 0, rebuild: f&1 != 0})
			}
			ops = append(ops, op{name: fmt.Sprintf("predict %d", i), predict: true, ex: b})
		}
		r.Case("sequences "+s.key(), func() {
			tuples(depth, len(ops), func(t []int) {
				if r.Expired() {
					return
				}
				follow(s, ops, t)
			})
			if r.Expired() {
				r.Skipped++
			}
		})
	}
	bigHistories(r, 2, func(b *bigNet, ops []op, t []int) {
		if b.judged() {
			follow(b.spec, ops, t)
		}
	})
}
