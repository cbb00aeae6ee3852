package main

import (
	"fmt"

	"goslideverif/mc"
)

var c31 = mc.Prop{
	ID: "C31", Level: "model_checking", Fn: runC31,
	Rule: "the real program run as a process with a recording network package that also measures the process at every call, once its open files with the collector held back so that it closes no forgotten one, once its memory: every combination of numbers of epochs, iterations per epoch, evaluation steps, batch sizes and test batches over small ranges that include runs of 24-48 epochs, of 300 evaluations and of 1200 iterations, and a file ending at every place; the number of open files at every call may exceed that at the creation of the network by no more than 6; over runs of 48 epochs or 1200 iterations the live heap and the number of goroutines must reach a fixed point: growth in every interval of a doubling is a violation; each call is a transition",
	Assumptions: []string{"the network package is replaced by a recorder with the same interface and copy-on-write behaviour",
		"open files are counted in /proc/self/fd; 6 allows for the data files and the profiles, and what the Go runtime opens to poll them"},
}

// grows reports whether values at indices doubling from first on rise by
// more than slack per index in every interval.
func grows(v []int64, first int, slack int64) ([]int64, bool) {
	var at []int64
	up := true
	for i := first; i < len(v); i *= 2 {
		at = append(at, v[i])
		if n := len(at); n > 1 && at[n-1]-at[n-2] <= slack*int64(i/2) {
			up = false
		}
	}
	return at, up && len(at) >= 4
}

func (p *plan) check31(r *mc.R) {
	tr, te, want, _, fail := p.texts()
	observe := func(what string) *outcome {
		p.measure = what
		o := p.run(tr, te)
		r.Eval()
		r.Step(len(o.calls))
		p.checkEnd(r, o, fail)
		if diffCalls(o.calls, want) != "" || len(o.news) != 1 {
			return nil // decided by C20 and C21
		}
		return o
	}
	o := observe("files")
	if o == nil {
		return
	}
	most := 0
	for i, c := range o.calls {
		if c.Files > o.news[0].Files+6 {
			r.Failf("call %d (%s): %d files are open; %d were when the network was created", i, show(&o.calls[i]), c.Files, o.news[0].Files)
		}
		if c.Files-o.news[0].Files > most {
			most = c.Files - o.news[0].Files
		}
	}
	if o.news[0].Files == 0 {
		panic("HARNESS-BUG: open files cannot be counted")
	}
	r.Outcome(fmt.Sprintf("up to %d more files", most))
	r.State(p.key())

	// at the first training call of every epoch, and at every one of an only epoch
	nb := p.numBatches()
	if nb == 0 || p.Epoch < 24 && (p.Epoch > 1 || nb < 24) {
		return
	}
	if o = observe("memory"); o == nil {
		return
	}
	var heap, tasks []int64
	for _, c := range filter(o.calls, "train") {
		if p.Epoch > 1 && c.Iter%nb != 0 {
			continue
		}
		heap, tasks = append(heap, c.Heap), append(tasks, int64(c.Tasks))
	}
	if at, up := grows(heap, 3, 8); up {
		r.Failf("the live heap grows all the time: %v bytes at periods 3, 6, 12, ...", at)
	}
	if at, up := grows(tasks, 3, 0); up {
		r.Failf("the number of goroutines grows all the time: %v at periods 3, 6, 12, ...", at)
	}
}

func runC31(r *mc.R) {
	th := r.Thorough()
	do := func(p plan) {
		r.Case(p.key(), func() { p.check31(r) })
	}
	base := plan{Tot: 6, TotTest: 6, Batch: 2, Epoch: 2, Step: 2, Rehash: 4, Rebuild: 6, Mode: 4, Layers: 2, TrainLines: 6, TestLines: 30}
	dims := [][]int{{1, 2, 24, 48}, {1, 2, 6}, {1, 3, 1000}, {1, 2}, {0, 4}}
	if th {
		dims = [][]int{{0, 1, 2, 3, 24, 48, 96}, {0, 1, 2, 5, 6, 12}, {1, 2, 3, 5, 1000}, {1, 2, 3}, {0, 1, 4, 9}}
	}
	product(dims, func(v []int) {
		p := base
		p.Epoch, p.Tot, p.Step, p.Batch, p.TotTest = v[0], v[1], v[2], v[3], v[4]
		p.TrainLines = p.Tot
		p.Mode = 1 + (v[1]+v[2])%4
		if p.Epoch > 20 {
			p.TestLines = 3
		}
		do(p)
		p.Profiles = true
		do(p)
	})
	// test files longer than an evaluation (of 50 batches or fewer) uses, exactly as long, and a little shorter
	for _, b := range []int{1, 2} {
		for _, lines := range []int{20*b - 1, 20 * b, 20*b + 1, 50*b - 1, 50 * b, 50*b + 1, 60 * b} {
			p := base
			p.Epoch, p.Batch, p.TestLines, p.TotTest, p.Step = 24, b, lines, 3*b, 100000
			do(p)
			p.Epoch, p.Tot, p.TrainLines, p.Step = 1, 40*b, 40*b, 1
			do(p)
		}
	}
	// files that end in the midst of an evaluation or an epoch
	for lines := 0; lines <= 12; lines++ {
		p := base
		p.Epoch, p.TestLines, p.Tot = 30, lines, 12
		do(p)
		p.TestLines, p.TrainLines = 3, lines
		do(p)
	}
	// many evaluations, many iterations
	for _, v := range [][4]int{{300, 1, 1, 4}, {1200, 1, 100000, 4}, {1200, 2, 7, 1}, {2400, 2, 100000, 4}} {
		for _, mode := range []int{1, 3} {
			p := base
			p.Epoch, p.Tot, p.TrainLines, p.Batch, p.Step = 1, v[0], v[0], v[1], v[2]
			p.TestLines, p.Mode, p.TotTest = v[3], mode, 2*v[1]
			do(p)
			if th {
				p.Tot, p.TrainLines = 8*v[0], 4*v[0]
				do(p)
			}
		}
	}
}
