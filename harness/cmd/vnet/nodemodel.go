package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/node"
)

// mslot and mnode are the reference state of one neuron.
type mslot struct {
	delta, act float64
	active     bool
}

type mnode struct {
	typ            node.NodeType
	batch, id      int
	adam           bool
	w, mw, m, v, t []float64
	b, mb, tb      float64
	mbias, vbias   float64
	slots          []mslot
}

func (n *mnode) clone() *mnode {
	c := *n
	c.w, c.mw, c.m, c.v, c.t = copyFloats(n.w), copyFloats(n.mw), copyFloats(n.m), copyFloats(n.v), copyFloats(n.t)
	c.slots = append([]mslot{}, n.slots...)
	return &c
}

func newModel(typ node.NodeType, batch, id int, adam bool, w []float64, b float64, m, v []float64) *mnode {
	n := &mnode{typ: typ, batch: batch, id: id, adam: adam, w: copyFloats(w), mw: copyFloats(w), b: b, mb: b, slots: make([]mslot, batch)}
	if adam {
		n.m, n.v, n.t = copyFloats(m), copyFloats(v), make([]float64, len(w))
	}
	return n
}

func newReal(cow int, typ node.NodeType, batch, id int, adam bool, w []float64, b float64, m, v []float64) *node.Node {
	if !adam {
		return node.NewNode(cow, len(w), id, 0, typ, batch, copyFloats(w), b, nil, nil)
	}
	return node.NewNode(cow, len(w), id, 0, typ, batch, copyFloats(w), b, copyFloats(m), copyFloats(v))
}

func close6(a, b float64) bool {
	return sameFloat(a, b) || math.Abs(a-b) <= 2e-6*(math.Abs(a)+math.Abs(b))+1e-12
}

func diff6(what string, a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d values, want %d", what, len(a), len(b))
	}
	for i := range a {
		if !close6(a[i], b[i]) {
			return fmt.Sprintf("%s[%d] is %v, want %v", what, i, a[i], b[i])
		}
	}
	return ""
}

// diff says how the observable state of a neuron differs from the reference.
func (n *mnode) diff(r *node.Node) string {
	s := readNode(r, n.adam)
	if d := diff6("weight", s.W, n.w); d != "" {
		return d
	}
	if !close6(s.B, n.b) || !close6(r.GetBias(), n.b) {
		return fmt.Sprintf("bias is %v, want %v", s.B, n.b)
	}
	if n.adam {
		for _, d := range []string{diff6("first moment", s.M, n.m), diff6("second moment", s.V, n.v), diff6("gradient", s.T, n.t),
			diff6("bias state (moments, gradient)", []float64{s.MB, s.VB, s.TB}, []float64{n.mbias, n.vbias, n.tb})} {
			if d != "" {
				return d
			}
		}
	}
	for i, sl := range n.slots {
		want := 0.0
		if sl.active {
			want = sl.act
		}
		if a := r.GetLastActivation(i); !close6(a, want) {
			return fmt.Sprintf("slot %d: activation %v, want %v", i, a, want)
		}
		if g := r.GetGradient(0, 0, i, 1); !close6(g, -sl.delta) {
			return fmt.Sprintf("slot %d: error %v, want %v", i, -g, sl.delta)
		}
		if g := r.GetGradient(0, 0, i, -2.5); !close6(g, 2.5*sl.delta) {
			return fmt.Sprintf("slot %d: gradient for input -2.5 is %v with error %v", i, g, sl.delta)
		}
	}
	return ""
}

// refused is raised by the model where the code must panic.
type refused struct{}

func (n *mnode) need(slot int) *mslot {
	s := &n.slots[slot]
	if !s.active {
		panic(refused{})
	}
	return s
}

func (n *mnode) activate(in []pair, slot int) float64 {
	s := &n.slots[slot]
	s.active = true
	s.act = 0
	for _, p := range in {
		s.act += n.w[p.Index] * p.Value
	}
	s.act += n.b
	if n.typ == node.ReLU && s.act < 0 {
		s.act, s.delta = 0, 0
	}
	return s.act
}

func (n *mnode) increment(slot int, v float64) {
	s := n.need(slot)
	if s.act > 0 {
		s.delta += v
	}
}

func (n *mnode) softmax(norm float64, slot int, labels []int) {
	s := n.need(slot)
	s.act /= norm + 1e-7
	y := 0.0
	if distinct(labels)[n.id] {
		y = 1 / float64(len(labels))
	}
	s.delta = (y - s.act) / float64(n.batch)
}

func (n *mnode) gradient(i int, g, lr float64) {
	if n.adam {
		n.t[i] += g
	} else {
		n.mw[i] += lr * g
	}
}

func (n *mnode) finish(slot int, lr float64) {
	s := &n.slots[slot]
	if n.adam {
		n.tb += s.delta
	} else {
		n.mb += lr * s.delta
	}
	*s = mslot{}
}

func (n *mnode) backprop(prev []*mnode, active []int, lr float64, slot int) {
	s := n.need(slot)
	for _, i := range active {
		p := prev[i]
		ps := p.need(slot)
		p.increment(slot, s.delta*n.w[i])
		n.gradient(i, s.delta*ps.act, lr)
	}
	n.finish(slot, lr)
}

func (n *mnode) backpropFirst(in []pair, lr float64, slot int) {
	s := n.need(slot)
	for _, p := range in {
		n.gradient(p.Index, s.delta*p.Value, lr)
	}
	n.finish(slot, lr)
}

// rejects runs a model operation and reports whether the code must refuse it.
func rejects(f func()) (no bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(refused); !ok {
				panic(e)
			}
			no = true
		}
	}()
	f()
	return false
}

func fbits(f float64) uint64 { return math.Float64bits(f) }
