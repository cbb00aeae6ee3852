package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"

	"goslideverif/env"
	"goslideverif/peek"
)

type pair = index_value.Pair
type example = dataset.Example

var (
	tLayer = reflect.TypeOf((*layer.Layer)(nil))
	tNode  = reflect.TypeOf((*node.Node)(nil))
	tLSH   = reflect.TypeOf((*lsh.LSH)(nil))
	tWta   = reflect.TypeOf((*wta_hash.WtaHash)(nil))
	tDwta  = reflect.TypeOf((*densified_wta_hash.DensifiedWtaHash)(nil))
	tMin   = reflect.TypeOf((*densified_minhash.DensifiedMinhash)(nil))
	tSrp   = reflect.TypeOf((*sparse_random_projection.SparseRandomProjection)(nil))
)

const (
	wta  = configuration.WtaHashFunction
	dwta = configuration.DensifiedWtaHashFunction
	minh = configuration.DensifiedMinhashFunction
	srp  = configuration.SparseRandomProjectionHashFunction
)

var families = []configuration.HashFunctionType{wta, dwta, minh, srp}

// spec describes a network.
type spec struct {
	in     int
	sizes  []int
	k, l   []int
	rp     []int
	sp     []float64 // training sparsities, then prediction sparsities
	batch  int
	lr     float64
	adam   bool
	hf     configuration.HashFunctionType
	mode   configuration.LayerModeType
	seed   uint64
	params func(i int) float64 // i-th drawn parameter (nil: from the fixed stream)
	pname  string
}

func (s *spec) key() string {
	return fmt.Sprintf("hf%d mode%d adam%v in%d sizes%v k%v l%v rp%v sp%v batch%d lr%v seed%d %s",
		s.hf, s.mode, s.adam, s.in, s.sizes, s.k, s.l, s.rp, s.sp, s.batch, s.lr, s.seed, s.pname)
}

// layers fills k, l and rp with the same value for each layer.
func (s *spec) tables(k, l, rp int) *spec {
	s.k, s.l, s.rp = nil, nil, nil
	for range s.sizes {
		s.k = append(s.k, k)
		s.l = append(s.l, l)
		s.rp = append(s.rp, rp)
	}
	return s
}

func copyOf(v []int) []int             { return append([]int{}, v...) }
func copyFloats(v []float64) []float64 { return append([]float64{}, v...) }

// configure makes the global configuration that of s.
func (s *spec) configure() {
	c := configuration.Default()
	c.RangePow, c.K, c.L, c.Sparsity = copyOf(s.rp), copyOf(s.k), copyOf(s.l), copyFloats(s.sp)
	c.BatchSize = s.batch
	c.InputDim = s.in
	c.LearningRate = s.lr
	c.SizesOfLayers = copyOf(s.sizes)
	c.NumLayer = len(s.sizes)
	c.UseAdam = s.adam
	c.HashFunction = s.hf
	c.LayerMode = s.mode
	c.LoadWeight = false
	configuration.Global = c
}

// source is the random source of step number step of a history of s.
func (s *spec) source(step int) *env.Source {
	return env.Fixed(s.seed*7919 + uint64(step)*104729 + 17)
}

func (s *spec) withParams(src *env.Source) *env.Source {
	if s.params != nil {
		i := 0
		src.NormF = func() float64 {
			i++
			return s.params(i-1) * 100
		}
	} else {
		src.NormF = func() float64 { return src.FloatOf()*200 - 100 }
	}
	return src
}

func (s *spec) types() []node.NodeType {
	t := make([]node.NodeType, len(s.sizes))
	for i := range t {
		t[i] = node.ReLU
	}
	t[len(t)-1] = node.Softmax
	return t
}

// net is a live network under test with its specification.
type net struct {
	s    *spec
	n    *network.Network
	id   int
	step int // calls made so far along its history
}

func (s *spec) build() *net {
	s.configure()
	env.Use(s.withParams(s.source(0)))
	n := network.New(cow(0), len(s.sizes), copyOf(s.sizes), s.types(), s.batch, s.lr, s.in,
		copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))
	env.Use(s.source(1))
	return &net{s: s, n: n}
}

func cloneExamples(ex []example) []example {
	o := make([]example, len(ex))
	for i, e := range ex {
		o[i] = example{Features: append([]pair{}, e.Features...), Labels: copyOf(e.Labels)}
	}
	return o
}

// recycled are the examples in the memory in which the previous call got its
// own, as a program reading batch after batch into the same buffers gives them.
var recycled struct {
	ex []example
	f  []pair
	l  []int
}

func recycle(ex []example) []example {
	c := &recycled
	nf, nl := 0, 0
	for _, e := range ex {
		nf += len(e.Features)
		nl += len(e.Labels)
	}
	if len(c.ex) < len(ex) || len(c.f) < nf || len(c.l) < nl {
		c.ex, c.f, c.l = make([]example, 2*len(ex)+8), make([]pair, 2*nf+64), make([]int, 2*nl+64)
	}
	nf, nl = 0, 0
	for i, e := range ex {
		a, b := nf+len(e.Features), nl+len(e.Labels)
		copy(c.f[nf:a], e.Features)
		copy(c.l[nl:b], e.Labels)
		c.ex[i] = example{Features: c.f[nf:a:a], Labels: c.l[nl:b:b]}
		nf, nl = a, b
	}
	return c.ex[:len(ex):len(ex)]
}

// train makes a training call under id; the result replaces the network.
func (n *net) train(id int, ex []example, iter int, rehash, rebuild bool) *net {
	n.s.configure()
	n.use(n.step + 1)
	_, r := n.n.ProcessInput(cow(id), recycle(ex), iter, rehash, rebuild)
	return &net{n.s, r, id, n.step + 1}
}

func (n *net) predict(id int, ex []example) (int, *net) {
	n.s.configure()
	n.use(1000 + n.step)
	c, r := n.n.PredictClass(cow(id), recycle(ex))
	return c, &net{n.s, r, id, n.step}
}

// use installs the random source of step number step.
func (n *net) use(step int) { env.Use(n.s.source(step)) }

func (n *net) layers() []*layer.Layer {
	var o []*layer.Layer
	for _, l := range peek.Find(n.n, tLayer) {
		o = append(o, l.(*layer.Layer))
	}
	if len(o) != len(n.s.sizes) {
		panic(fmt.Sprintf("HARNESS-BUG: %d layers", len(o)))
	}
	return o
}

// ---------------------------------------------------------------- state

// state is everything observable about one neuron.
type nstate struct {
	W, M, V, T    []float64
	B, MB, VB, TB float64
}

func readNode(n *node.Node, adam bool) nstate {
	s := nstate{W: copyFloats(n.Weights()), B: n.Bias()}
	if adam {
		for d := 0; d < n.AdamTDim(); d++ {
			s.M = append(s.M, n.GetAdamAvgMom(d))
			s.V = append(s.V, n.GetAdamAvgVel(d))
			s.T = append(s.T, n.GetT(d))
		}
		s.MB, s.VB, s.TB = n.GetAdamAvgMomBias(), n.GetAdamAvgVelBias(), n.GetTBias()
	}
	return s
}

// params reads the parameters and optimizer state of every neuron.
func (n *net) params() [][]nstate {
	var o [][]nstate
	for _, l := range n.layers() {
		o = append(o, layerParams(l, n.s.adam))
	}
	return o
}

func layerParams(l *layer.Layer, adam bool) []nstate {
	nodes := l.GetAllNodes()
	o := make([]nstate, len(nodes))
	for i, nd := range nodes {
		o[i] = readNode(nd, adam)
	}
	return o
}

func sameFloat(a, b float64) bool {
	return a == b || (a != a && b != b)
}

func near(a, b float64) bool {
	return sameFloat(a, b) || math.Abs(a-b) <= 1e-12*(1+math.Abs(a)+math.Abs(b))
}

func diffSlices(what string, a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d values, want %d", what, len(a), len(b))
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return fmt.Sprintf("%s[%d] is %v, want %v", what, i, a[i], b[i])
		}
	}
	return ""
}

func (a *nstate) diff(b *nstate) string {
	for _, d := range []string{diffSlices("weight", a.W, b.W), diffSlices("first moment", a.M, b.M),
		diffSlices("second moment", a.V, b.V), diffSlices("accumulated gradient", a.T, b.T),
		diffSlices("bias state", []float64{a.B, a.MB, a.VB, a.TB}, []float64{b.B, b.MB, b.VB, b.TB})} {
		if d != "" {
			return d
		}
	}
	return ""
}

func diffParams(a, b [][]nstate) string {
	for i := range a {
		for j := range a[i] {
			if d := a[i][j].diff(&b[i][j]); d != "" {
				return fmt.Sprintf("layer %d neuron %d: %s", i, j, d)
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- tables

// tables is the content of all buckets: table, address, entries.
type tables [][][]int

func tablesOf(l *layer.Layer) *lsh.LSH { return peek.First(l, tLSH, tNode).(*lsh.LSH) }

func dumpTables(l *layer.Layer, ntab, rp int) tables {
	t := tablesOf(l)
	o := make(tables, ntab)
	for a := 0; a < 1<<rp; a++ {
		idx := make([]int, ntab)
		for i := range idx {
			idx[i] = a
		}
		for i, ids := range t.RetrieveRaw(idx) {
			o[i] = append(o[i], copyOf(ids))
		}
	}
	return o
}

func (t tables) String() string { return fmt.Sprint([][][]int(t)) }

// hasher computes addresses with the current hash functions of a layer.
type hasher struct {
	dense  func(w []float64) []int
	sparse func(p []pair) []int
	object interface{}
	lsh    *lsh.LSH
}

const topK = 30

func hasherOf(l *layer.Layer, hf configuration.HashFunctionType, dim int) *hasher {
	h := &hasher{lsh: tablesOf(l)}
	t := map[configuration.HashFunctionType]reflect.Type{wta: tWta, dwta: tDwta, minh: tMin, srp: tSrp}[hf]
	found := peek.Find(l, t, tNode, tLSH)
	for i, o := range found {
		h.use(o, dim)
		// of several hashers, the current one hashes like the layer
		if len(found) == 1 || h.agrees(l, dim) || i == len(found)-1 {
			return h
		}
	}
	panic(fmt.Sprintf("HARNESS-BUG: no %v in the layer", t))
}

func (h *hasher) use(o interface{}, dim int) {
	h.object = o
	switch o := o.(type) {
	case *wta_hash.WtaHash:
		h.dense, h.sparse = o.GetHashDense, o.GetHash
	case *densified_wta_hash.DensifiedWtaHash:
		h.sparse = o.GetHash
		h.dense = func(w []float64) []int { return o.GetHashEasy(w, topK) }
	case *densified_minhash.DensifiedMinhash:
		ids := o.GetMap(dim)
		h.dense = func(w []float64) []int { return o.GetHashEasyDense(ids, w, topK) }
		h.sparse = func(p []pair) []int { return o.GetHashEasy(ids, p, topK) }
	case *sparse_random_projection.SparseRandomProjection:
		h.dense, h.sparse = o.GetHash, o.GetHashSparse
	}
}

func (h *hasher) agrees(l *layer.Layer, dim int) bool {
	for _, v := range probes(dim) {
		if fmt.Sprint(h.dense(v)) != fmt.Sprint(l.GetHashForInputProcessing(v)) {
			return false
		}
	}
	return true
}

func (h *hasher) addr(codes []int) []int { return h.lsh.HashesToIndex(codes) }

// probes are vectors whose hash codes identify hash functions.
func probes(dim int) [][]float64 {
	var o [][]float64
	x := uint64(99)
	for i := 0; i < 12; i++ {
		v := make([]float64, dim)
		for j := range v {
			x = x*6364136223846793005 + 1442695040888963407
			v[j] = float64(int64(x>>20)%1000)/500 - 1
		}
		o = append(o, v)
	}
	return o
}

// fingerprint identifies the hash functions (not the table contents) of a layer.
func (n *net) fingerprint(l *layer.Layer, dim int) string {
	h := hasherOf(l, n.s.hf, dim)
	var b strings.Builder
	for _, v := range probes(dim) {
		c := h.dense(v)
		fmt.Fprint(&b, c, h.addr(c))
	}
	return b.String()
}

func (n *net) dim(i int) int {
	if i == 0 {
		return n.s.in
	}
	return n.s.sizes[i-1]
}

// full is the whole observable state of a network.
type full struct {
	P [][]nstate
	T []tables
	F []string
}

func (n *net) dump() *full {
	n.s.configure()
	f := &full{P: n.params()}
	for i, l := range n.layers() {
		f.T = append(f.T, dumpTables(l, n.s.l[i], n.s.rp[i]))
		f.F = append(f.F, n.fingerprint(l, n.dim(i)))
	}
	return f
}

func (f *full) diff(g *full) string {
	if d := diffParams(f.P, g.P); d != "" {
		return d
	}
	for i := range f.T {
		if f.F[i] != g.F[i] {
			return fmt.Sprintf("layer %d: hash functions differ", i)
		}
		if a, b := f.T[i].String(), g.T[i].String(); a != b {
			return fmt.Sprintf("layer %d: hash tables are %s, want %s", i, a, b)
		}
	}
	return ""
}

// hash summarises a state.
func (f *full) hash() string {
	var b strings.Builder
	for _, l := range f.P {
		for _, n := range l {
			fmt.Fprint(&b, n.W, n.B, n.M, n.V, n.MB, n.VB)
		}
	}
	for _, t := range f.T {
		b.WriteString(t.String())
	}
	return b.String()
}

// ---------------------------------------------------------------- examples

func sparseOf(v []float64) []pair {
	p := []pair{}
	for i, x := range v {
		if x != 0 {
			p = append(p, pair{Index: i, Value: x})
		}
	}
	return p
}

func exString(ex []example) string {
	var b strings.Builder
	for i, e := range ex {
		if i > 0 {
			b.WriteString(" | ")
		}
		fmt.Fprintf(&b, "%v -> %v", e.Features, e.Labels)
	}
	return b.String()
}

// tuples calls f with every vector of n values in [0,base).
func tuples(n, base int, f func([]int)) {
	v := make([]int, n)
	for {
		f(v)
		i := n - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < base {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
