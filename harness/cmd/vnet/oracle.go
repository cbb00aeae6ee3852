package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/mc"
)

// query queries one layer; the input is copied first.
func query(l *layer.Layer, id int, in []pair, slot int, labels []int, sparsity float64) ([]pair, *layer.Layer) {
	a := make([][]index_value.Pair, 2)
	a[0] = append([]pair{}, in...)
	_, r := l.QueryActiveNodeAndComputeActivations(cow(id), a, 0, slot, copyOf(labels), sparsity)
	return a[1], r
}

// score is w.x+b together with a bound of its rounding error.
func score(s *nstate, in []pair) (z, bound float64) {
	scale := math.Abs(s.B)
	for _, p := range in {
		z += s.W[p.Index] * p.Value
		scale += math.Abs(s.W[p.Index] * p.Value)
	}
	z += s.B
	if len(in) <= 1 && s.B == 0 {
		return z, 0 // a single product is exact up to one common rounding
	}
	return z, scale * 1e-15 * float64(len(in)+1)
}

func distinct(v []int) map[int]bool {
	m := map[int]bool{}
	for _, x := range v {
		m[x] = true
	}
	return m
}

// bucketCounts counts in how many retrieved buckets each neuron is.
func bucketCounts(h *hasher, in []pair) map[int]int {
	m := map[int]int{}
	for _, b := range h.lsh.RetrieveRaw(h.addr(h.sparse(in))) {
		for _, id := range b {
			m[id]++
		}
	}
	return m
}

// rule is what C09 says about the set of active neurons.
type rule struct {
	n      int
	must   map[int]bool // these are active
	exact  bool         // and no others
	size   int          // number of active neurons (-1: any)
	scores []float64    // mode 3: the others are the best
	tol    []float64
}

func ruleFor(s []nstate, typ node.NodeType, mode configuration.LayerModeType, h *hasher,
	in []pair, labels []int, sparsity float64) *rule {
	n := len(s)
	ru := &rule{n: n, must: map[int]bool{}, size: -1}
	if sparsity == 1 {
		for i := 0; i < n; i++ {
			ru.must[i] = true
		}
		ru.exact = true
		return ru
	}
	soft := typ == node.Softmax
	if soft {
		ru.must = distinct(labels)
	}
	switch mode {
	case configuration.LayerMode1:
		for id, c := range bucketCounts(h, in) {
			if c > 2 {
				ru.must[id] = true
			}
		}
		ru.exact = true
	case configuration.LayerMode2, configuration.LayerMode3:
		if !soft {
			return ru
		}
		ru.size = int(math.Floor(float64(n) * sparsity))
		if len(ru.must) > ru.size {
			ru.size = len(ru.must)
		}
		if mode == configuration.LayerMode3 {
			for i := range s {
				z, b := score(&s[i], in)
				ru.scores = append(ru.scores, z)
				ru.tol = append(ru.tol, b)
			}
		}
	case configuration.LayerMode4:
		for id := range bucketCounts(h, in) {
			ru.must[id] = true
		}
		ru.size = n
		if ru.size > 1000 {
			ru.size = 1000
		}
		if len(ru.must) > ru.size {
			ru.size = len(ru.must)
		}
	}
	return ru
}

// check returns what is wrong with a set of active neurons.
func (ru *rule) check(active []int) string {
	seen := map[int]bool{}
	for _, i := range active {
		if i < 0 || i >= ru.n {
			return fmt.Sprintf("neuron %d of %d", i, ru.n)
		}
		if seen[i] {
			return fmt.Sprintf("neuron %d twice", i)
		}
		seen[i] = true
	}
	for i := range ru.must {
		if !seen[i] {
			return fmt.Sprintf("neuron %d is missing", i)
		}
	}
	if ru.exact && len(seen) != len(ru.must) {
		return fmt.Sprintf("%d active neurons, want exactly the %d: %v", len(seen), len(ru.must), keys(ru.must))
	}
	if ru.size >= 0 && len(seen) != ru.size {
		return fmt.Sprintf("%d active neurons, want %d", len(seen), ru.size)
	}
	if ru.scores != nil {
		for i := range seen {
			if ru.must[i] {
				continue
			}
			for j := 0; j < ru.n; j++ {
				if !seen[j] && ru.scores[j] > ru.scores[i]+ru.tol[i]+ru.tol[j] {
					return fmt.Sprintf("neuron %d (score %v) chosen before %d (score %v)", i, ru.scores[i], j, ru.scores[j])
				}
			}
		}
	}
	return ""
}

func keys(m map[int]bool) []int {
	o := []int{}
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}

// sets calls f with every set of active neurons the rule allows (small layers).
func (ru *rule) sets(f func([]int)) {
	if ru.exact {
		f(keys(ru.must))
		return
	}
	if ru.size == ru.n {
		all := make([]int, ru.n)
		for i := range all {
			all[i] = i
		}
		f(all)
		return
	}
	if ru.n > 8 {
		panic("HARNESS-BUG: too many active sets")
	}
	for m := 0; m < 1<<ru.n; m++ {
		set := []int{}
		for i := 0; i < ru.n; i++ {
			if m>>i&1 != 0 {
				set = append(set, i)
			}
		}
		if ru.check(set) == "" {
			f(set)
		}
	}
}

// only is the set of active neurons of a hidden layer, which the rule determines.
func (ru *rule) only() []int {
	var set []int
	cnt := 0
	ru.sets(func(s []int) { set = s; cnt++ })
	if cnt != 1 {
		panic("HARNESS-BUG: the active neurons of a hidden layer are not determined")
	}
	return set
}

// ---------------------------------------------------------------- forward

// trace is one possible forward pass.
type trace struct {
	act   [][]int     // active neurons per layer
	val   [][]float64 // ReLU activations; exp(z-max) in the last layer
	z     []float64   // last layer
	zerr  []float64
	prob  []float64
	open  bool // too many equal activations to list what may follow
	vague bool // a ReLU pre-activation too close to 0 to know its sign, or open
}

// orders lists the orders in which a sampled layer may be given its input, as
// far as they lead to different buckets: the order of the active neurons of the
// layer below is not determined, and equal values may be taken in any order.
// It is false if there are too many to list.
func (n *net) orders(i int, h *hasher, in []pair, sparsity float64) ([][]pair, bool) {
	if i == 0 || sparsity == 1 || n.s.hf != dwta && n.s.hf != minh ||
		n.s.mode != configuration.LayerMode1 && n.s.mode != configuration.LayerMode4 {
		return [][]pair{in}, true
	}
	count := map[float64]int{}
	for _, p := range in {
		count[p.Value]++
	}
	if len(count) == len(in) {
		return [][]pair{in}, true
	}
	if n.s.hf == minh {
		// only the set of the selected coordinates matters
		if len(in) <= topK {
			return [][]pair{in}, true
		}
		v := []float64{}
		for _, p := range in {
			v = append(v, p.Value)
		}
		sort.Float64s(v)
		return [][]pair{in}, v[len(v)-topK] != v[len(v)-topK-1]
	}
	seen := map[string]bool{}
	out := [][]pair{}
	add := func(x []pair) {
		if k := fmt.Sprint(h.addr(h.sparse(append([]pair{}, x...)))); !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	add(in)
	for j, p := range in {
		if count[p.Value] > 1 {
			x := append([]pair{p}, in[:j]...)
			add(append(x, in[j+1:]...))
		}
	}
	if len(out) == 1 {
		return out, true
	}
	if len(in) > 5 {
		return nil, false
	}
	var rec func(x []pair, k int)
	rec = func(x []pair, k int) {
		if k == len(x) {
			add(append([]pair{}, x...))
			return
		}
		for j := k; j < len(x); j++ {
			x[k], x[j] = x[j], x[k]
			rec(x, k+1)
			x[k], x[j] = x[j], x[k]
		}
	}
	rec(append([]pair{}, in...), 0)
	return out, true
}

// forward lists the possible forward passes of one example.
func (n *net) forward(P [][]nstate, hs []*hasher, ex example, labels []int, sparsity []float64) []trace {
	types := n.s.types()
	var out []trace
	var layer func(i int, t trace, in []pair)
	with := func(i int, t trace, in []pair, given []pair) {
		ru := ruleFor(P[i], types[i], n.s.mode, hs[i], given, labels, sparsity[i])
		if i < len(P)-1 {
			ru.sets(func(set []int) {
				t := t
				var v []float64
				next := []pair{}
				for _, j := range set {
					z, b := score(&P[i][j], in)
					if z != 0 && math.Abs(z) <= b*1000 {
						t.vague = true
					}
					if z < 0 {
						z = 0
					}
					v = append(v, z)
					next = append(next, pair{Index: j, Value: z})
				}
				t.act = append(append([][]int{}, t.act...), set)
				t.val = append(append([][]float64{}, t.val...), v)
				layer(i+1, t, next)
			})
			return
		}
		ru.sets(func(set []int) {
			u := t
			u.act = append(append([][]int{}, t.act...), set)
			m := math.Inf(-1)
			for _, j := range set {
				z, b := score(&P[i][j], in)
				u.z = append(u.z, z)
				u.zerr = append(u.zerr, b)
				m = math.Max(m, z)
			}
			var e []float64
			sum := 0.0
			for _, z := range u.z {
				e = append(e, math.Exp(z-m))
				sum += math.Exp(z - m)
			}
			for _, x := range e {
				u.prob = append(u.prob, x/(sum+1e-7))
			}
			u.val = append(append([][]float64{}, t.val...), e)
			out = append(out, u)
		})
	}
	layer = func(i int, t trace, in []pair) {
		os, ok := n.orders(i, hs[i], in, sparsity[i])
		if !ok {
			t.vague, t.open = true, true
			os = [][]pair{in}
		}
		for _, given := range os {
			with(i, t, in, given)
		}
	}
	layer(0, trace{}, ex.Features)
	return out
}

// grad is an accumulated gradient with the sum of its terms' magnitudes.
type grad struct {
	g, a   []float64
	gb, ab float64
}

type grads [][]grad

func newGrads(P [][]nstate) grads {
	var o grads
	for _, l := range P {
		var gl []grad
		for _, s := range l {
			gl = append(gl, grad{g: make([]float64, len(s.W)), a: make([]float64, len(s.W))})
		}
		o = append(o, gl)
	}
	return o
}

func (g grads) clone() grads {
	var o grads
	for _, l := range g {
		var gl []grad
		for _, x := range l {
			gl = append(gl, grad{copyFloats(x.g), copyFloats(x.a), x.gb, x.ab})
		}
		o = append(o, gl)
	}
	return o
}

// add adds the ascent direction of one example to g.
func (g grads) add(P [][]nstate, t *trace, ex example, batch int) {
	last := len(P) - 1
	lab := distinct(ex.Labels)
	delta := make([]float64, len(t.act[last]))
	mag := make([]float64, len(delta))
	for i, j := range t.act[last] {
		y := 0.0
		if lab[j] {
			y = 1 / float64(len(ex.Labels))
		}
		delta[i] = (y - t.prob[i]) / float64(batch)
		mag[i] = (y + t.prob[i]) / float64(batch)
	}
	for l := last; l >= 0; l-- {
		var pd, pm []float64
		if l > 0 {
			pd = make([]float64, len(t.act[l-1]))
			pm = make([]float64, len(t.act[l-1]))
		}
		for i, j := range t.act[l] {
			x := &g[l][j]
			x.gb += delta[i]
			x.ab += mag[i]
			if l == 0 {
				for _, p := range ex.Features {
					x.g[p.Index] += delta[i] * p.Value
					x.a[p.Index] += math.Abs(mag[i] * p.Value)
				}
				continue
			}
			for k, c := range t.act[l-1] {
				v := t.val[l-1][k]
				x.g[c] += delta[i] * v
				x.a[c] += math.Abs(mag[i] * v)
				if v > 0 {
					pd[k] += delta[i] * P[l][j].W[c]
					pm[k] += math.Abs(mag[i] * P[l][j].W[c])
				}
			}
		}
		delta, mag = pd, pm
	}
}

// rate is the step size of a call.
func (n *net) rate(iter int) float64 {
	if !n.s.adam {
		return n.s.lr
	}
	return n.s.lr * math.Sqrt(1-math.Pow(0.999, float64(iter)+1)) / (1 - math.Pow(0.9, float64(iter)+1))
}

func off(got, want, tol float64) bool {
	return !(math.Abs(got-want) <= tol)
}

// stepDiff says how the parameters after a call differ from one optimizer step.
func stepDiff(adam bool, lr float64, before, after [][]nstate, g grads) string {
	one := func(what string, w, m, v, w2, m2, v2, t2, gr, mag float64) string {
		if !adam {
			if off(w2, w+lr*gr, 1e-6*lr*mag+1e-12*math.Abs(w)) {
				return fmt.Sprintf("%s went from %v to %v, want %v (gradient %v)", what, w, w2, w+lr*gr, gr)
			}
			return ""
		}
		if t2 != 0 {
			return fmt.Sprintf("accumulated gradient of %s is %v after the call", what, t2)
		}
		wm, wv := 0.9*m+0.1*gr, 0.999*v+0.001*gr*gr
		if off(m2, wm, 1e-6*(0.9*math.Abs(m)+0.1*mag)+1e-300) {
			return fmt.Sprintf("first moment of %s went from %v to %v, want %v (gradient %v)", what, m, m2, wm, gr)
		}
		if off(v2, wv, 1e-6*(0.999*v+0.001*mag*mag)+1e-300) {
			return fmt.Sprintf("second moment of %s went from %v to %v, want %v (gradient %v)", what, v, v2, wv, gr)
		}
		d := lr * m2 / (math.Sqrt(v2) + 1e-8)
		if off(w2, w+d, 1e-6*math.Abs(d)+1e-12*math.Abs(w)) {
			return fmt.Sprintf("%s went from %v to %v, want %v (moments %v %v, rate %v)", what, w, w2, w+d, m2, v2, lr)
		}
		return ""
	}
	at := func(v []float64, i int) float64 {
		if i < len(v) {
			return v[i]
		}
		return 0
	}
	for l := range before {
		for j := range before[l] {
			b, a, gr := &before[l][j], &after[l][j], &g[l][j]
			for i := range b.W {
				if d := one(fmt.Sprintf("layer %d neuron %d weight %d", l, j, i), b.W[i], at(b.M, i), at(b.V, i),
					a.W[i], at(a.M, i), at(a.V, i), at(a.T, i), gr.g[i], gr.a[i]); d != "" {
					return d
				}
			}
			if d := one(fmt.Sprintf("layer %d neuron %d bias", l, j), b.B, b.MB, b.VB, a.B, a.MB, a.VB, a.TB, gr.gb, gr.ab); d != "" {
				return d
			}
		}
	}
	return ""
}

func (n *net) hashers() []*hasher {
	var o []*hasher
	for i, l := range n.layers() {
		o = append(o, hasherOf(l, n.s.hf, n.dim(i)))
	}
	return o
}

// step makes a training call and checks it against the reference.
func (n *net) step_(r *mc.R, id int, ex []example, iter int, rehash, rebuild bool, what string) *net {
	n.s.configure()
	before := n.params()
	hs := n.hashers()
	cands := []grads{newGrads(before)}
	vague := false
	for _, e := range ex {
		if len(cands) > 1000 {
			vague = true
			break
		}
		ts := n.forward(before, hs, e, e.Labels, n.s.sp[:len(n.s.sizes)])
		var next []grads
		for _, g := range cands {
			for i := range ts {
				vague = vague || ts[i].vague
				h := g
				if len(ts) > 1 {
					h = g.clone()
				}
				h.add(before, &ts[i], e, n.s.batch)
				next = append(next, h)
			}
		}
		cands = next
	}
	m := n.train(id, ex, iter, rehash, rebuild)
	r.Eval()
	r.Step(1)
	after := m.params()
	if vague {
		r.Note("calls left out because a pre-activation is too close to 0, or too many are equal", 1)
		return m
	}
	first := ""
	for _, g := range cands {
		d := stepDiff(n.s.adam, n.rate(iter), before, after, g)
		if d == "" {
			first = ""
			break
		}
		if first == "" {
			first = d
		}
	}
	if first != "" {
		r.Failf("%s: training on {%s} at iteration %d: %s%s", what, exString(ex), iter, first, more(len(cands)))
	}
	return m
}

func more(n int) string {
	if n > 1 {
		return fmt.Sprintf(" (nor any of the %d other possible samples)", n-1)
	}
	return ""
}
