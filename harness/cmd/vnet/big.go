package main

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/mc"
)

// Networks beyond the sizes at which a threshold in the code could hide: each
// is large in one respect and small in the others.

// bigNet is such a network with its calls.
type bigNet struct {
	*spec
	rows   int // examples of a full batch
	labels int // labels per example
}

func bigNets(th bool) []*bigNet {
	m1, m3, m4 := configuration.LayerMode1, configuration.LayerMode3, configuration.LayerMode4
	ones := func(n int) []float64 {
		o := make([]float64, n)
		for i := range o {
			o[i] = 1
		}
		return o
	}
	var o []*bigNet
	// sampled layers have more than 8 inputs: with fewer all WTA functions are the same
	add := func(rows, labels, k, l, rp int, s spec) {
		if s.batch == 0 {
			s.batch = 2
		}
		s.lr = 0.2
		for v := 0; v < 2; v++ {
			t := s
			t.adam = v == 0
			t.hf = families[(len(o)/2+v)%4]
			t.seed = uint64(len(o) + 300)
			c := (&t).tables(k, l, rp)
			o = append(o, &bigNet{c, rows, labels})
		}
	}
	add(2, 2, 2, 2, 2, spec{in: 1500, sizes: []int{3, 20}, sp: ones(4), mode: m3})
	add(2, 1, 2, 20, 3, spec{in: 1200, sizes: []int{40}, sp: []float64{0.5, 1}, mode: m1})
	add(2, 1, 2, 2, 2, spec{in: 4, sizes: []int{300, 6}, sp: ones(4), mode: m4})
	add(2, 3, 2, 2, 2, spec{in: 5, sizes: []int{4, 400}, sp: ones(4), mode: m3})
	add(2, 30, 2, 3, 4, spec{in: 5, sizes: []int{10, 400}, sp: []float64{1, 0.5, 1, 0.5}, mode: m4})
	add(2, 20, 3, 6, 5, spec{in: 12, sizes: []int{2100}, sp: []float64{0.5, 0.5}, mode: m1})
	add(300, 2, 2, 2, 2, spec{in: 3, sizes: []int{4, 5}, sp: ones(4), mode: m3, batch: 300})
	add(1, 1, 2, 130, 2, spec{in: 10, sizes: []int{9, 6}, sp: []float64{0.5, 0.5, 0.5, 1}, mode: m1})
	add(1, 1, 4, 3, 12, spec{in: 14, sizes: []int{60}, sp: []float64{0.5, 0.5}, mode: m1})
	add(1, 1, 12, 3, 12, spec{in: 40, sizes: []int{70}, sp: []float64{0.5, 0.5}, mode: m4})
	add(2, 2, 2, 4, 3, spec{in: 1500, sizes: []int{50}, sp: ones(2), mode: m4})
	add(2, 2, 3, 4, 4, spec{in: 11, sizes: []int{10, 12, 11, 10, 9, 12, 10, 12}, batch: 3,
		sp: []float64{1, 0.5, 1, 0.5, 1, 0.9, 0.5, 1, 1, 1, 0.5, 0.5, 1, 1, 1, 0.2}, mode: m4})
	add(2, 2, 2, 2, 2, spec{in: 5000, sizes: []int{4, 6}, sp: ones(4), mode: m3})
	add(2, 2, 2, 6, 3, spec{in: 5000, sizes: []int{12}, sp: []float64{0.5, 0.5}, mode: m1})
	add(2, 5, 10, 3, 11, spec{in: 24, sizes: []int{5000}, sp: []float64{0.5, 1}, mode: m1})
	add(1, 1, 2, 2, 2, spec{in: 3, sizes: []int{1100, 4}, sp: ones(4), mode: m4})
	add(2, 1200, 2, 2, 2, spec{in: 4, sizes: []int{2, 1300}, sp: ones(4), mode: m3})
	if th {
		add(2, 5, 3, 8, 6, spec{in: 6, sizes: []int{20, 5000}, sp: []float64{1, 0.5, 1, 0.5}, mode: m1})
		add(2, 300, 3, 8, 6, spec{in: 6, sizes: []int{9, 5000}, sp: []float64{1, 0.5, 1, 0.5}, mode: m1})
		add(1, 1, 2, 2, 2, spec{in: 9, sizes: []int{5000, 3}, sp: ones(4), mode: m3})
		add(1100, 1, 2, 2, 2, spec{in: 2, sizes: []int{2, 3}, sp: ones(4), mode: m3, batch: 1100})
		add(1, 1, 1, 300, 1, spec{in: 10, sizes: []int{6}, sp: []float64{0.5, 1}, mode: m4})
		add(1, 1, 6, 2, 15, spec{in: 60, sizes: []int{200}, sp: []float64{0.5, 1}, mode: m4})
		add(2, 2, 1, 3, 2, spec{in: 3, sizes: []int{3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4}, sp: ones(36), mode: m4})
	}
	return o
}

// example number j: dense and sparse features in different listing orders.
func (b *bigNet) example(j int) example {
	src := b.source(900 + j)
	var e example
	scale := 1.0
	for n := 4; n < b.in; n *= 4 {
		scale /= 2
	}
	for i := 0; i < b.in; i++ {
		k := i
		if j%2 == 1 {
			k = b.in - 1 - i
		}
		if j%3 == 1 && b.in > 2 && k%3 == 0 {
			continue
		}
		e.Features = append(e.Features, pair{Index: k, Value: scale * (src.FloatOf()*2 - 1)})
	}
	out := b.sizes[len(b.sizes)-1]
	n := b.labels
	if j%4 == 3 {
		n = 1
	}
	for i := 0; i < n && i < out; i++ {
		// distinct: consecutive steps of a stride prime to the number of classes
		e.Labels = append(e.Labels, (j*5+out-1+i*stride(out))%out)
	}
	return e
}

func stride(n int) int {
	for s := 7; ; s += 2 {
		a, b := s, n
		for b > 0 {
			a, b = b, a%b
		}
		if a == 1 {
			return s
		}
	}
}

func (b *bigNet) batchOf(from, n int) []example {
	var o []example
	for i := 0; i < n; i++ {
		o = append(o, b.example(from+i))
	}
	return o
}

// ops are the calls; one has more flags and a larger iteration than the last.
func (b *bigNet) ops() []op {
	full := b.batchOf(0, b.rows)
	return []op{
		{name: "train", ex: full, iter: 0},
		{name: "train 1", ex: b.batchOf(1, 1), iter: 1000000},
		{name: "rehash", ex: b.batchOf(2, (b.rows+1)/2), iter: 20011, rehash: true},
		{name: "both", ex: b.batchOf(3, 1), iter: 6946 * 3, rehash: true, rebuild: true},
		{name: "predict", predict: true, ex: full},
	}
}

// bigHistories calls f with all sequences of up to depth calls on large
// networks, as indices into the calls.
func bigHistories(r *mc.R, depth int, f func(b *bigNet, ops []op, t []int)) {
	for i, b := range bigNets(r.Thorough()) {
		b := b
		r.Case(fmt.Sprintf("large %d %s", i, b.key()), func() {
			ops := b.ops()
			for k := 0; k <= depth; k++ {
				tuples(k, len(ops), func(t []int) {
					if r.Expired() {
						return
					}
					f(b, ops, t)
					r.State(b.key(), t)
				})
			}
			if r.Expired() {
				r.Skipped++
			}
		})
	}
	// more than 2^16 neurons or inputs: a few sequences
	for i, b := range hugeNets() {
		b := b
		r.Case(fmt.Sprintf("huge %d %s", i, b.key()), func() {
			ops := b.ops()
			for _, t := range [][]int{{}, {0}, {3}, {4}, {3, 2}, {2, 4}} {
				if len(t) > depth {
					continue
				}
				if r.Expired() {
					r.Skipped++
					return
				}
				f(b, ops, t)
				r.State(b.key(), t)
			}
		})
	}
}

// hugeNets have more than 2^16 neurons or inputs.
func hugeNets() []*bigNet {
	const n = 1<<16 + 300
	var o []*bigNet
	add := func(labels, k, l, rp int, s spec) {
		s.batch, s.lr, s.seed = 2, 0.2, uint64(len(o)+500)
		s.hf = families[len(o)%4]
		s.adam = len(o)%2 == 0
		o = append(o, &bigNet{(&s).tables(k, l, rp), 2, labels})
	}
	for i := 0; i < 2; i++ {
		add(2, 2, 2, 7, spec{in: 9, sizes: []int{n}, sp: []float64{0.5, 1}, mode: configuration.LayerMode1})
		add(2, 1, 2, 2, spec{in: n, sizes: []int{2, 3}, sp: []float64{1, 1, 1, 1}, mode: configuration.LayerMode3})
	}
	add(1, 1, 2, 2, spec{in: 2, sizes: []int{n, 3}, sp: []float64{1, 1, 1, 1}, mode: configuration.LayerMode4})
	return o
}
