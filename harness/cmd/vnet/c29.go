package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/nlpodyssey/goslide/network"

	"goslideverif/env"
	"goslideverif/mc"
)

var c29 = mc.Prop{
	ID: "C29", Level: "model_checking", Fn: runC29,
	Rule: "the real program with all its real parts is run as a process on every training file of up to 3 (4) lines over an alphabet of examples, for networks of 1-3 layers, both optimizers, batch sizes, epochs, evaluation steps, rehash and rebuild periods, all hash families and modes, and on files of 5 batches of 7-150 examples; with sparsity 1 everywhere each reported accuracy is compared with that of a dense reference network written for the harness, trained and evaluated on the schedule; with sampled layers, with a network driven through the library by the reference schedule under the same random draws; a state is a (configuration, files) pair, a transition a reported accuracy",
	Assumptions: []string{"random draws of the program are answered by a fixed stream selected per case, and map iteration starts are fixed",
		"classes whose reference logits differ by less than 1e-6 (relative) may be ranked either way; runs meeting a ReLU pre-activation within rounding error of 0 are cut there"},
}

// job is one run of the program.
type job struct {
	s                         *spec
	tot, totTest, epoch, step int
	rehash, rebuild           int
	train, test               []example
}

func (j *job) key() string {
	return fmt.Sprintf("%s tot%d/%d epoch%d step%d rh%d rb%d train{%s} test{%s}", j.s.key(), j.tot, j.totTest, j.epoch, j.step,
		j.rehash, j.rebuild, exString(j.train), exString(j.test))
}

func fileText(in, out int, ex []example) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d %d\n", len(ex), in, out)
	for _, e := range ex {
		var l, f []string
		for _, x := range e.Labels {
			l = append(l, strconv.Itoa(x))
		}
		for _, p := range e.Features {
			f = append(f, strconv.Itoa(p.Index)+":"+strconv.FormatFloat(p.Value, 'g', -1, 64))
		}
		b.WriteString(strings.Join(l, ",") + " " + strings.Join(f, " ") + "\n")
	}
	return b.String()
}

var scratchDir string

func scratchFile(name, text string) string {
	if scratchDir == "" {
		d := filepath.Join(mc.WorkDir(), fmt.Sprint("run", os.Getpid()))
		if err := os.Mkdir(d, 0o700); err != nil {
			panic("HARNESS-BUG: " + err.Error())
		}
		scratchDir = d
	}
	f := filepath.Join(scratchDir, name)
	if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
	return f
}

// run runs the program and returns the accuracies it reports.
func (j *job) run(r *mc.R) []float64 {
	s := j.s
	out := s.sizes[len(s.sizes)-1]
	c := map[string]interface{}{
		"RangePow": s.rp, "K": s.k, "L": s.l, "Sparsity": s.sp, "BatchSize": s.batch, "InputDim": s.in,
		"LearningRate": s.lr, "SizesOfLayers": s.sizes, "NumLayer": len(s.sizes), "UseAdam": s.adam,
		"HashFunction": int(s.hf), "LayerMode": int(s.mode), "LoadWeight": false,
		"TotRecords": j.tot, "TotRecordsTest": j.totTest, "Epoch": j.epoch, "Stepsize": j.step,
		"Rehash": j.rehash, "Rebuild": j.rebuild,
		"TrainData": scratchFile("train.txt", fileText(s.in, out, j.train)),
		"TestData":  scratchFile("test.txt", fileText(s.in, out, j.test)),
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
	cmd := exec.Command(filepath.Join(mc.WorkDir(), "program"), scratchFile("config.json", string(b)))
	cmd.Dir = scratchDir
	cmd.Env = append(os.Environ(), "VERIF_STREAM="+strconv.FormatUint(s.seed, 10), "GOMAXPROCS=1")
	var e bytes.Buffer
	cmd.Stderr = &e
	if err := cmd.Start(); err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		r.Failf("the program does not end")
	}
	log := e.String()
	if cmd.ProcessState.ExitCode() != 0 {
		if len(log) > 600 {
			log = log[len(log)-600:]
		}
		r.Failf("exit status %d: %s", cmd.ProcessState.ExitCode(), log)
	}
	var o []float64
	for _, l := range strings.Split(log, "\n") {
		f := strings.Fields(l)
		if len(f) == 4 && f[0] == "Over" && f[3] == "correct" {
			v, err := strconv.ParseFloat(f[2], 64)
			if err != nil {
				r.Failf("reported accuracy %q", f[2])
			}
			o = append(o, v)
		}
	}
	return o
}

// subject is what the schedule drives: it counts correct predictions (at
// least lo, at most hi).
type subject interface {
	train(ex []example, iter int, rehash, rebuild bool)
	predict(ex []example) (lo, hi int)
	vague() bool
}

type interval struct{ lo, hi float64 }

// reference lists the accuracies x yields on the schedule of j.
func (j *job) reference(x subject) (o []interval, cut bool) {
	b := j.s.batch
	group := func(ex []example, i int) []example {
		lo, hi := min(i*b, len(ex)), min((i+1)*b, len(ex))
		return ex[lo:hi]
	}
	evaluate := func(n int) {
		lo, hi := 0, 0
		for i := 0; i < n; i++ {
			l, h := x.predict(group(j.test, i))
			lo, hi = lo+l, hi+h
		}
		d := float64(n * b)
		o = append(o, interval{float64(lo) / d, float64(hi) / d})
	}
	every := func(it, n int) bool { return (it+1)%max(1, n/b) == 0 }
	nb := j.tot / b
	for e := 0; e < j.epoch; e++ {
		for i := 0; i < nb; i++ {
			it := e*nb + i
			if i > 0 && it%j.step == 0 {
				evaluate(20)
			}
			flags := j.s.mode == 1 || j.s.mode == 4
			x.train(group(j.train, i), it, flags && every(it, j.rehash), flags && every(it, j.rebuild))
			if x.vague() {
				return o, true
			}
		}
		if e == j.epoch-1 {
			evaluate(j.totTest / b)
		} else {
			evaluate(50)
		}
	}
	return o, false
}

// dense is an ordinary network with all neurons active.
type dense struct {
	n    *net
	P    [][]nstate
	sp   []float64
	hs   []*hasher
	vag  bool
	seen map[string][2]int
}

func (d *dense) vague() bool { return d.vag }

func (d *dense) train(ex []example, iter int, _, _ bool) {
	g := newGrads(d.P)
	for _, e := range ex {
		t := d.n.forward(d.P, d.hs, e, e.Labels, d.sp)[0]
		d.vag = d.vag || t.vague
		g.add(d.P, &t, e, d.n.s.batch)
	}
	lr := d.n.rate(iter)
	for l := range d.P {
		for i := range d.P[l] {
			p, x := &d.P[l][i], &g[l][i]
			if !d.n.s.adam {
				for k := range p.W {
					p.W[k] += lr * x.g[k]
				}
				p.B += lr * x.gb
				continue
			}
			one := func(w, m, v *float64, g float64) {
				*m = 0.9**m + 0.1*g
				*v = 0.999**v + 0.001*g*g
				*w += lr * *m / (math.Sqrt(*v) + 1e-8)
			}
			for k := range p.W {
				one(&p.W[k], &p.M[k], &p.V[k], x.g[k])
			}
			one(&p.B, &p.MB, &p.VB, x.gb)
		}
	}
	d.seen = nil
}

func (d *dense) predict(ex []example) (lo, hi int) {
	key := exString(ex)
	if v, ok := d.seen[key]; ok {
		return v[0], v[1]
	}
	for _, e := range ex {
		t := d.n.forward(d.P, d.hs, e, nil, d.sp)[0]
		m, scale := math.Inf(-1), 1.0
		for _, z := range t.z {
			m, scale = math.Max(m, z), math.Max(scale, math.Abs(z))
		}
		lab := distinct(e.Labels)
		can, must := false, true
		for i, z := range t.z {
			if z >= m-1e-6*scale {
				can, must = can || lab[t.act[len(t.act)-1][i]], must && lab[t.act[len(t.act)-1][i]]
			}
		}
		if can {
			hi++
		}
		if can && must {
			lo++
		}
	}
	if d.seen == nil {
		d.seen = map[string][2]int{}
	}
	d.seen[key] = [2]int{lo, hi}
	return
}

// driven is a network driven through the library.
type driven struct {
	n *network.Network
}

func (d *driven) vague() bool { return false }
func (d *driven) train(ex []example, iter int, rehash, rebuild bool) {
	_, d.n = d.n.ProcessInput(0, cloneExamples(ex), iter, rehash, rebuild)
}
func (d *driven) predict(ex []example) (int, int) {
	var c int
	c, d.n = d.n.PredictClass(0, cloneExamples(ex))
	return c, c
}

func (j *job) check(r *mc.R) {
	got := j.run(r)
	r.Eval()
	s := j.s
	s.configure()
	src := env.Fixed(s.seed)
	src.NormF = func() float64 { return src.FloatOf()*200 - 100 }
	env.Use(src)
	n := network.New(0, len(s.sizes), copyOf(s.sizes), s.types(), s.batch, s.lr, s.in,
		copyOf(s.k), copyOf(s.l), copyOf(s.rp), copyFloats(s.sp))
	all := true
	for _, x := range s.sp {
		all = all && x == 1
	}
	var x subject = &driven{n}
	if all {
		w := &net{s: s, n: n}
		x = &dense{n: w, P: w.params(), sp: s.sp[:len(s.sizes)], hs: make([]*hasher, len(s.sizes))}
	}
	want, cut := j.reference(x)
	if cut {
		r.Note("runs cut at a pre-activation too close to 0", 1)
	}
	if len(got) < len(want) || len(got) != len(want) && !cut {
		r.Failf("%d accuracies are reported, want %d", len(got), len(want))
	}
	for i, w := range want {
		if w.lo != w.lo {
			continue // an evaluation without batches
		}
		if !(got[i] >= w.lo-1e-9 && got[i] <= w.hi+1e-9) {
			r.Failf("reported accuracy %d is %v, want %v (all: %v, want %v)", i, got[i], w, got, want)
		}
		if w.lo != w.hi {
			r.Note("accuracies with ties", 1)
		}
		r.Step(1)
		r.Outcome(fmt.Sprintf("accuracy %.2f", got[i]))
	}
	r.State(j.key())
}

func runC29(r *mc.R) {
	th := r.Thorough()
	x := func(v ...float64) []pair {
		p := []pair{}
		for i, a := range v {
			if a != 0 {
				p = append(p, pair{Index: i, Value: a})
			}
		}
		return p
	}
	alphabet := []example{
		{Features: x(1, -0.5, 0.25), Labels: []int{0}},
		{Features: x(0.25, 2, 0), Labels: []int{1}},
		{Features: x(-1.5, 0, 1), Labels: []int{2, 1}},
		{Features: x(0, 0.75, -1), Labels: []int{2}},
	}
	test := []example{
		{Features: x(1, -0.5, 0.25), Labels: []int{0}},
		{Features: x(0.5, 1.5, 0.125), Labels: []int{1}},
		{Features: x(-1, 0.5, 1), Labels: []int{2}},
		{Features: x(0.125, 0.75, -1), Labels: []int{2, 0}},
		{Features: x(-0.25, -0.75, -1), Labels: []int{1}},
		{Features: x(2, 0, 0), Labels: []int{}},
		{Features: x(-2, 0.25, 0.5), Labels: []int{2}},
		{Features: x(0.75, -1.5, -0.5), Labels: []int{0}},
	}
	type shape struct {
		sizes []int
		sp    []float64
	}
	shapes := []shape{{[]int{3}, nil}, {[]int{4, 3}, nil}, {[]int{3, 4, 3}, nil},
		{[]int{12}, []float64{0.4, 0.5}}, {[]int{12, 6}, []float64{0.3, 0.4, 0.5, 1}}, {[]int{5, 12, 3}, []float64{1, 0.2, 0.5, 1, 0.3, 1}}}
	lines := 3
	if th {
		lines = 4
	}
	for si, sh := range shapes {
		for _, adam := range []bool{true, false} {
			for hi, hf := range families {
				for mi, mode := range modes() {
					if !th && sh.sp == nil && (hi+mi)%4 != si%4 {
						continue // tables play no part
					}
					if sh.sp != nil && mode == 2 && len(sh.sizes) == 3 {
						continue
					}
					for v := 0; v < 4; v++ {
						if !th && sh.sp != nil && (v+hi+mi)%4 != 0 {
							continue
						}
						sh, adam, hf, mode, v, hi, mi := sh, adam, hf, mode, v, hi, mi
						r.Case(fmt.Sprintf("sizes%v sp%v adam%v hf%d mode%d variant%d", sh.sizes, sh.sp, adam, hf, mode, v), func() {
							no := 0
							tuples(lines, len(alphabet), func(t []int) {
								no++
								if r.Expired() || !th && sh.sp != nil && no%3 != 0 {
									return
								}
								s := &spec{in: 3, sizes: sh.sizes, batch: 1 + v%2, lr: 0.05, adam: adam, hf: hf, mode: mode, seed: uint64(no*100 + v*10 + mi*4 + hi)}
								if !adam {
									s.lr = 0.5
								}
								s.sp = sh.sp
								for len(s.sp) < 2*len(s.sizes) {
									s.sp = append(s.sp, 1)
								}
								s.tables(1, 5, 2)
								j := &job{s: s, tot: lines, totTest: 8, epoch: 1 + (v+no)%3, step: 1 + no%3,
									rehash: 1 + (no+v)%5, rebuild: 1 + (no+mi)%6, test: test}
								for _, i := range t {
									j.train = append(j.train, alphabet[i])
								}
								if no%5 == 0 { // shorter files than announced
									j.tot += 2
									j.totTest += 3
								}
								r.Context = j.key() + ": "
								j.check(r)
							})
							if r.Expired() {
								r.Skipped++
							}
						})
					}
				}
			}
		}
	}

	// many epochs
	for shi, sh := range shapes {
		for v := 0; v < 4; v++ {
			sh, v, shi := sh, v, shi
			r.Case(fmt.Sprintf("epochs sizes%v sp%v variant%d", sh.sizes, sh.sp, v), func() {
				for _, epochs := range []int{5, 8, 15, 23} {
					if r.Expired() {
						r.Skipped++
						return
					}
					s := &spec{in: 3, sizes: sh.sizes, batch: 1 + v%2, lr: 0.02, adam: v != 3, hf: families[(v+shi)%4], mode: modes()[(v+2)%4], seed: uint64(epochs*10 + v)}
					s.sp = sh.sp
					for len(s.sp) < 2*len(s.sizes) {
						s.sp = append(s.sp, 1)
					}
					s.tables(1, 5, 2)
					j := &job{s: s, tot: 4, totTest: 8, epoch: epochs, step: 5, rehash: 7, rebuild: 19, test: test}
					for i := range alphabet {
						j.train = append(j.train, alphabet[(i*3+v)%4])
					}
					r.Context = j.key() + ": "
					j.check(r)
				}
			})
		}
	}

	// larger batches, longer files, more epochs
	for _, sh := range shapes {
		for _, adam := range []bool{true, false} {
			for bi, batch := range []int{7, 33, 64, 150} {
				sh, adam, bi, batch := sh, adam, bi, batch
				if !th && (len(sh.sizes)+bi)%2 == 0 {
					continue
				}
				r.Case(fmt.Sprintf("large sizes%v sp%v adam%v batch%d", sh.sizes, sh.sp, adam, batch), func() {
					s := &spec{in: 5, sizes: sh.sizes, sp: sh.sp, batch: batch, lr: 0.01, adam: adam, hf: families[bi], seed: uint64(7000 + batch), mode: modes()[2*(bi%2)]}
					if !adam {
						s.lr = 1
					}
					for len(s.sp) < 2*len(s.sizes) {
						s.sp = append(s.sp, 1)
					}
					s.tables(1, 5, 2)
					out := s.sizes[len(s.sizes)-1]
					src := env.Fixed(uint64(batch))
					gen := func(n int) []example {
						var o []example
						for i := 0; i < n; i++ {
							// the class with the largest of some linear scores
							var e example
							best, top := 0, math.Inf(-1)
							var v [5]float64
							for j := range v {
								v[j] = float64(int(src.FloatOf()*64)-32) / 16
								if v[j] != 0 {
									e.Features = append(e.Features, pair{Index: j, Value: v[j]})
								}
							}
							for c := 0; c < out; c++ {
								z := 0.0
								for j := range v {
									z += v[j] * float64((c*7+j*5)%9-4)
								}
								if z > top {
									best, top = c, z
								}
							}
							e.Labels = []int{best}
							if i%4 == 1 {
								e.Labels = append(e.Labels, (best+1)%out)
							}
							o = append(o, e)
						}
						return o
					}
					j := &job{s: s, tot: batch * 5, totTest: batch * 3, epoch: 4, step: 3, rehash: 3 * batch, rebuild: 8 * batch,
						train: gen(batch*5 - 2), test: gen(batch*2 + 3)}
					r.Context = fmt.Sprintf("batch %d, %s: ", batch, s.key())
					j.check(r)
				})
			}
		}
	}
}
