package main

import (
	"fmt"
	"strings"

	"goslideverif/mc"
)

var c20 = mc.Prop{
	ID: "C20", Level: "model_checking", Fn: runC20,
	Rule: "the real program run as a process with a recording network package: every combination of TotRecords, BatchSize, Epoch, Stepsize, Rehash, Rebuild, LayerMode, layer count and training file length over small ranges around every divisibility boundary, batches of up to 1025, up to 70000 iterations and 260 epochs, and a malformed line of every kind at every position; each training call (arguments, examples, iteration, flags, network) is one transition compared with the schedule computed from the configuration; states are the distinct call sequences",
	Assumptions: []string{"the network package is replaced by a recorder with the same interface and copy-on-write behaviour",
		"the data reader and configuration loader are the real ones (decided by C17-C19)"},
}

var c21 = mc.Prop{
	ID: "C21", Level: "model_checking", Fn: runC21,
	Rule: "as C20, for combinations of Epoch, Stepsize, BatchSize, TotRecords, TotRecordsTest and test file length (shorter and longer than 20 and 50 batches, batches of up to 1025, up to 260 epochs) with scripted numbers of correct predictions; each prediction call (position among the training calls, examples, network) is one transition compared with the schedule, and each reported accuracy with the recorded counts",
	Assumptions: []string{"the network package is replaced by a recorder with the same interface and copy-on-write behaviour",
		"reported accuracies are read from the 'Over all' lines and from those with the iteration number and time on standard error; those of evaluations without batches are not checked, nor is whether empty lists are predicted"},
}

func (p *plan) texts() (string, string, []call, []evaluation, int) {
	tr, tre := file('T', p.TrainLines, p.BadTrain, p.Bad)
	te, tee := file('t', p.TestLines, p.BadTest, p.Bad)
	c, e, f := p.model(tre, tee)
	return tr, te, c, e, f
}

func (p *plan) check20(r *mc.R) {
	tr, te, want, _, fail := p.texts()
	o := p.run(tr, te)
	r.Eval()
	r.Step(len(o.calls))
	p.checkEnd(r, o, fail)
	p.checkNew(r, o)
	if d := diffCalls(filter(o.calls, "train"), filter(want, "train")); d != "" {
		r.Failf("training %s", d)
	}
	for i := range o.calls {
		if c := &o.calls[i]; c.Net != o.calls[0].Net {
			r.Failf("call %d (%s) is made on another network", i, show(c))
		}
	}
	h := mc.NewH()
	for i := range o.calls {
		for _, b := range []byte(show(&o.calls[i])) {
			h = h.Add(uint64(b))
		}
	}
	r.StateHash(uint64(h))
	r.Outcome(fmt.Sprintf("exit %d, %d training calls", o.status, len(filter(o.calls, "train"))))
}

func (p *plan) check21(r *mc.R) {
	tr, te, want, evals, fail := p.texts()
	o := p.run(tr, te)
	r.Eval()
	r.Step(len(o.calls))
	p.checkEnd(r, o, fail)
	// predictions, placed among the training calls by the number of calls before them
	if d := diffCalls(filter(o.calls, "predict"), filter(want, "predict")); d != "" {
		r.Failf("prediction %s", d)
	}
	got := accuracies(o.stderr)
	if len(got) != len(evals) {
		r.Failf("%d accuracies reported, want %d", len(got), len(evals))
	}
	for i, e := range evals {
		if e.batches == 0 {
			continue
		}
		if w := float64(e.correct) / (float64(e.batches) * float64(p.Batch)); !okRatio(got[i], w) {
			r.Failf("evaluation %d reports %s, want %v (%d correct in %d batches of %d)", i, got[i], w, e.correct, e.batches, p.Batch)
		}
	}
	iters, acc := reports(o.stderr)
	if len(iters) != len(evals) {
		r.Failf("%d reports with the iteration, want %d", len(iters), len(evals))
	}
	for i, e := range evals {
		if iters[i] != e.iter {
			r.Failf("evaluation %d is reported for iteration %d, want %d", i, iters[i], e.iter)
		}
		if e.batches == 0 {
			continue
		}
		if w := float64(e.correct) / (float64(e.batches) * float64(p.Batch)); !okRatio(acc[i], w) {
			r.Failf("evaluation %d reports %s with the iteration, want %v", i, acc[i], w)
		}
	}
	h := mc.NewH()
	for i := range o.calls {
		for _, b := range []byte(show(&o.calls[i])) {
			h = h.Add(uint64(b))
		}
	}
	r.StateHash(uint64(h))
	r.Outcome(fmt.Sprintf("exit %d, %d evaluations", o.status, len(got)))
}

// product calls f with every combination.
func product(dims [][]int, f func([]int)) {
	v := make([]int, len(dims))
	var rec func(i int)
	rec = func(i int) {
		if i == len(dims) {
			f(append([]int{}, v...))
			return
		}
		for _, x := range dims[i] {
			v[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

var badLines = []string{"x 1:2", "", "0 1:2:3", "0 1", "0 9999:1", "9999 1:1", "0 1:y", "0"}

func runC20(r *mc.R) {
	th := r.Thorough()
	do := func(p plan) {
		r.Case(p.key(), func() { p.check20(r) })
	}
	base := plan{Tot: 6, TotTest: 2, Batch: 2, Epoch: 2, Step: 2, Rehash: 4, Rebuild: 6, Mode: 4, Layers: 2, TrainLines: 6, TestLines: 3}

	// schedule
	dims := [][]int{{1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5, 7}, {0, 1, 2, 3, 5, 8}, {0, 1, 2, 4, 6}, {1, 4}}
	if th {
		dims = [][]int{{1, 2, 3, 4}, {0, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12}, {0, 1, 2, 3, 4, 5, 6, 8, 12}, {0, 1, 2, 3, 4, 6, 9}, {1, 4}}
	}
	product(dims, func(v []int) {
		p := base
		p.Batch, p.Epoch, p.Tot, p.Rehash, p.Rebuild, p.Mode = v[0], v[1], v[2], v[3], v[4], v[5]
		p.TrainLines, p.TotTest, p.TestLines = p.Tot, 0, 0
		p.Step = 100
		do(p)
	})
	// modes, evaluation steps, lengths of the file
	product([][]int{{1, 2, 3, 4}, {1, 2, 3, 5}, {1, 2, 4, 6, 9}, {0, 1, 3, 5, 6, 7, 20}, {1, 3}, {1, 2}}, func(v []int) {
		p := base
		p.Mode, p.Step, p.Tot, p.TrainLines, p.Epoch, p.Batch = v[0], v[1], v[2], v[3], v[4], v[5]
		if !th && (p.Step+p.Tot+p.TrainLines)%2 == 0 {
			return
		}
		do(p)
	})
	// large batches, many iterations, long files
	for _, v := range [][5]int{{130, 400, 1, 390, 100}, {256, 1030, 2, 1024, 3}, {257, 1030, 2, 1100, 2}, {300, 900, 1, 899, 1}, {1025, 2100, 1, 2100, 5},
		{1, 600, 1, 600, 1000}, {1, 70000, 1, 12, 100000}, {2, 3000, 3, 2999, 100000}} {
		for _, mode := range []int{1, 3} {
			p := base
			p.Batch, p.Tot, p.Epoch, p.TrainLines, p.Step = v[0], v[1], v[2], v[3], v[4]
			p.Mode = mode
			p.Rehash, p.Rebuild = 7*p.Batch, 11*p.Batch
			p.TotTest, p.TestLines = p.Batch, 2*p.Batch
			if mode == 1 && p.Batch == 1 { // the usual settings
				p.Rehash, p.Rebuild = 6400, 32768
			}
			do(p)
		}
	}
	// many epochs
	for _, epochs := range []int{4, 5, 6, 7, 8, 9, 11, 16, 17, 33, 65, 101, 130, 260} {
		for v := 0; v < 4; v++ {
			p := base
			p.Epoch, p.Mode = epochs, []int{4, 1, 2, 3}[v]
			p.Batch = 1 + v%2
			p.Tot = []int{3, 4, 5, 2}[v]
			p.TrainLines = p.Tot + v%3 - 1
			p.Step = []int{5, 100, 7, 3}[v]
			p.Rehash, p.Rebuild = []int{5, 20, 33, 64}[v]*p.Batch, []int{40, 3, 77, 100}[v]*p.Batch
			do(p)
		}
	}
	// layers
	for n := 1; n <= 20; n++ {
		if n > 5 && n < 17 && !th {
			continue
		}
		p := base
		p.Layers = n
		do(p)
		p.Profiles = true
		do(p)
	}
	// malformed lines
	for bi, bad := range badLines {
		for line := 2; line <= 8; line++ {
			for _, batch := range []int{1, 2, 3} {
				if !th && bi > 2 && (line+batch+bi)%2 == 0 {
					continue
				}
				p := base
				p.Batch, p.Bad = batch, bad
				p.BadTrain = line
				p.TrainLines = 8
				do(p)
				p.BadTrain, p.BadTest = 0, line
				p.TestLines, p.TotTest = 8, 6
				do(p)
			}
		}
	}
	// malformed or missing headers
	for i, h := range []string{"", "1 2", "x 1 2\n0 1:1\n", "-1 2 3\n"} {
		h := h
		for _, which := range []string{"train", "test"} {
			which := which
			r.Case(fmt.Sprintf("header %d %s", i, which), func() {
				p := base
				tr, te, _, _, _ := p.texts()
				if which == "train" {
					tr = h
				} else {
					te = h
				}
				o := p.run(tr, te)
				r.Eval()
				if o.status == 0 {
					r.Failf("exit status 0 with the %s header %q", which, h)
				}
				if which == "train" && len(o.calls) != 0 {
					r.Failf("%d calls with a malformed training header", len(o.calls))
				}
				if which == "test" && len(filter(o.calls, "predict")) != 0 {
					r.Failf("predictions from a file with header %q", strings.TrimSpace(h))
				}
			})
		}
	}
}

func runC21(r *mc.R) {
	th := r.Thorough()
	do := func(p plan) {
		r.Case(p.key(), func() { p.check21(r) })
	}
	base := plan{Tot: 6, TotTest: 6, Batch: 2, Epoch: 2, Step: 2, Rehash: 4, Rebuild: 6, Mode: 4, Layers: 2, TrainLines: 6, TestLines: 130}
	// schedule
	dims := [][]int{{1, 2}, {0, 1, 2, 3}, {1, 2, 3, 5, 8}, {1, 2, 3, 4, 7}, {1, 5}}
	if th {
		dims = [][]int{{1, 2, 3}, {0, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 5, 6, 8, 11}, {1, 2, 3, 4, 5, 7, 9, 100}, {0, 1, 2, 5, 7, 130}}
	}
	product(dims, func(v []int) {
		p := base
		p.Batch, p.Epoch, p.Tot, p.Step, p.TotTest = v[0], v[1], v[2], v[3], v[4]
		p.TrainLines = p.Tot
		p.Mode = 1 + (v[2]+v[3])%4
		do(p)
	})
	// test files shorter or longer than an evaluation
	product([][]int{{0, 1, 2, 5, 19, 20, 21, 39, 40, 41, 49, 50, 51, 99, 100, 101, 149, 150, 151, 160}, {1, 2, 3}, {0, 1, 3, 6, 40, 61}}, func(v []int) {
		p := base
		p.TestLines, p.Batch, p.TotTest = v[0], v[1], v[2]
		if !th && (v[0]+v[2])%2 == 0 {
			return
		}
		do(p)
	})
	// large batches, long files
	for _, v := range [][3]int{{130, 3000, 400}, {256, 5200, 5000}, {257, 6000, 5500}, {300, 16000, 700}, {1025, 2100, 3100}, {1, 60, 40000}, {3, 12000, 12000}} {
		p := base
		p.Batch, p.TestLines, p.TotTest = v[0], v[1], v[2]
		p.Tot, p.TrainLines, p.Epoch = 2*p.Batch, 30, 1
		do(p)
		p.Step = 1
		p.Tot = 3 * p.Batch
		do(p)
	}
	// many epochs
	for _, epochs := range []int{4, 5, 6, 7, 8, 9, 11, 16, 17, 33, 65, 101, 130, 260} {
		for v := 0; v < 3; v++ {
			p := base
			p.Epoch, p.Mode = epochs, []int{4, 1, 3}[v]
			p.Batch = 1 + v%2
			p.Tot = []int{3, 4, 5}[v]
			p.TrainLines = p.Tot
			p.Step = []int{2, 100, 7}[v]
			p.TestLines, p.TotTest = 25*p.Batch, []int{2, 6, 9}[v]
			do(p)
		}
	}
	// malformed test lines
	for _, bad := range badLines[:3] {
		for line := 2; line <= 12; line++ {
			for _, batch := range []int{1, 2, 3} {
				p := base
				p.Batch, p.Bad, p.BadTest, p.TestLines = batch, bad, line, 12
				if th {
					do(p)
				}
				p.Step = 100
				p.Epoch = 1
				do(p)
			}
		}
	}
}
