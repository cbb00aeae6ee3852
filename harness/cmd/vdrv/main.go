// vdrv decides the properties of the training program: the real main package,
// built with a network package that records its calls, is run as a process.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"

	"goslideverif/mc"
)

func main() { mc.Main([]mc.Prop{c20, c21, c26, c31, c32}) }

// plan is one run of the program.
type plan struct {
	Tot, TotTest, Batch, Epoch, Step int
	Rehash, Rebuild, Mode            int
	Layers                           int
	TrainLines, TestLines            int
	BadTrain, BadTest                int    // line with an error (0: none)
	Bad                              string // its text
	Profiles                         bool
	measure                          string
}

func (p *plan) key() string { return fmt.Sprintf("%+v", *p) }

func (p *plan) numBatches() int { return p.Tot / p.Batch }

// dimFor is the number of features and classes of files of so many lines.
func dimFor(lines int) int {
	if lines < 900 {
		return 2000
	}
	return 4 * lines
}

// file is the text of a data file, and its examples.
func file(name byte, lines, bad int, badText string) (string, []dataset.Example) {
	var b strings.Builder
	dim := dimFor(lines)
	fmt.Fprintf(&b, "%d %d %d\n", lines+1, dim, dim)
	var ex []dataset.Example
	for i := 0; i < lines; i++ {
		if i+2 == bad {
			b.WriteString(badText + "\n")
			ex = append(ex, dataset.Example{})
			continue
		}
		id := i + 1
		if name == 't' {
			id += dim / 2
		}
		e := dataset.Example{Labels: []int{}}
		e.Features = append(e.Features, index_value.Pair{Index: id, Value: float64(id) / 4})
		if i%3 == 1 {
			e.Features = append(e.Features, index_value.Pair{Index: 0, Value: -1.5})
		}
		for j := 0; j < i%3; j++ {
			e.Labels = append(e.Labels, id+j)
		}
		var l, f []string
		for _, x := range e.Labels {
			l = append(l, strconv.Itoa(x))
		}
		for _, x := range e.Features {
			f = append(f, fmt.Sprintf("%d:%v", x.Index, x.Value))
		}
		b.WriteString(strings.Join(l, ",") + " " + strings.Join(f, " ") + "\n")
		ex = append(ex, e)
	}
	return b.String(), ex
}

type call struct {
	Op              string
	Cow             int
	Net             int
	Trained         int
	Iter            int
	Rehash, Rebuild bool
	Examples        []dataset.Example
	Args            []json.RawMessage
	Files           int
	Heap            int64
	Tasks           int
}

type evaluation struct {
	batches int
	correct int
	iter    int // training iterations before it
}

// model lists the calls the program must make and its evaluations; failLine
// is the line at which it must stop (0: it runs to its end).
func (p *plan) model(train, test []dataset.Example) (calls []call, evals []evaluation, failLine int) {
	trained, preds := 0, 0
	group := func(ex []dataset.Example, i, bad int) ([]dataset.Example, int) {
		lo, hi := i*p.Batch, (i+1)*p.Batch
		if lo > len(ex) {
			lo = len(ex)
		}
		if hi > len(ex) {
			hi = len(ex)
		}
		for j := lo; j < hi; j++ {
			if j+2 == bad {
				return nil, bad
			}
		}
		return ex[lo:hi], 0
	}
	evaluate := func(n int) bool {
		e := evaluation{batches: n, iter: trained}
		for i := 0; i < n; i++ {
			g, bad := group(test, i, p.BadTest)
			if bad != 0 {
				failLine = bad
				return false
			}
			if len(g) == 0 {
				continue // predictions of nothing are not recorded
			}
			calls = append(calls, call{Op: "predict", Trained: trained, Examples: g})
			e.correct += (preds*5 + 3) % (len(g) + 1)
			preds++
		}
		evals = append(evals, e)
		return true
	}
	nb := p.numBatches()
	for e := 0; e < p.Epoch; e++ {
		for i := 0; i < nb; i++ {
			it := e*nb + i
			if i > 0 && it%p.Step == 0 && !evaluate(20) {
				return
			}
			g, bad := group(train, i, p.BadTrain)
			if bad != 0 {
				failLine = bad
				return
			}
			c := call{Op: "train", Trained: trained, Iter: it, Examples: g}
			if p.Mode == 1 || p.Mode == 4 {
				period := func(n int) int {
					if n/p.Batch < 1 {
						return 1
					}
					return n / p.Batch
				}
				c.Rehash = (it+1)%period(p.Rehash) == 0
				c.Rebuild = (it+1)%period(p.Rebuild) == 0
			}
			calls = append(calls, c)
			trained++
		}
		n := 50
		if e == p.Epoch-1 {
			n = p.TotTest / p.Batch
		}
		if !evaluate(n) {
			return
		}
	}
	return
}

func sameExamples(a, b []dataset.Example) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i].Labels) != len(b[i].Labels) || len(a[i].Features) != len(b[i].Features) {
			return false
		}
		for j := range a[i].Labels {
			if a[i].Labels[j] != b[i].Labels[j] {
				return false
			}
		}
		for j := range a[i].Features {
			if a[i].Features[j] != b[i].Features[j] {
				return false
			}
		}
	}
	return true
}

// outcome is what a run of the program did.
type outcome struct {
	status int
	stderr string
	news   []call
	calls  []call
	hung   bool
}

var workDir string

func scratch() string {
	if workDir == "" {
		d, err := os.MkdirTemp(mc.WorkDir(), "run")
		if err != nil {
			panic("HARNESS-BUG: " + err.Error())
		}
		workDir = d
	}
	return workDir
}

func put(name, text string) string {
	f := filepath.Join(scratch(), name)
	if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
	return f
}

func (p *plan) config(train, test string) map[string]interface{} {
	c := map[string]interface{}{
		"TotRecords": p.Tot, "TotRecordsTest": p.TotTest, "BatchSize": p.Batch, "Epoch": p.Epoch, "Stepsize": p.Step,
		"Rehash": p.Rehash, "Rebuild": p.Rebuild, "LayerMode": p.Mode, "TrainData": train, "TestData": test,
		"NumLayer": p.Layers, "InputDim": dimFor(max(p.TrainLines, p.TestLines)), "LearningRate": 0.0625, "HashFunction": 2,
		"CpuProfile": p.Profiles, "MemProfile": p.Profiles,
	}
	var sizes, k, l, rp []int
	var sp []float64
	for i := 0; i < p.Layers; i++ {
		sizes = append(sizes, 10+i)
		k = append(k, 1+i)
		l = append(l, 20+i)
		rp = append(rp, 5+i)
		sp = append(sp, 1/float64(i+1))
	}
	for i := 0; i < p.Layers; i++ {
		sp = append(sp, 0.5/float64(i+1))
	}
	c["SizesOfLayers"], c["K"], c["L"], c["RangePow"], c["Sparsity"] = sizes, k, l, rp, sp
	return c
}

func (p *plan) run(trainText, testText string) *outcome {
	cfg := p.config(put("train.txt", trainText), put("test.txt", testText))
	b, _ := json.Marshal(cfg)
	if p.measure != "" {
		return start([]string{put("config.json", string(b))}, "", "VERIF_MEASURE="+p.measure, "GOGC=off")
	}
	return start([]string{put("config.json", string(b))}, "")
}

// start runs the program with args.
func start(args []string, fault string, more ...string) *outcome {
	rec := filepath.Join(scratch(), "rec")
	os.Remove(rec)
	cmd := exec.Command(filepath.Join(mc.WorkDir(), "driver"), args...)
	cmd.Dir = scratch()
	cmd.Env = append(os.Environ(), "VERIF_REC="+rec, "VERIF_FAULT="+fault, "GOMAXPROCS=1")
	cmd.Env = append(cmd.Env, more...)
	var e bytes.Buffer
	cmd.Stderr = &e
	o := &outcome{}
	if err := cmd.Start(); err != nil {
		panic("HARNESS-BUG: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		o.hung = true
	}
	o.status = cmd.ProcessState.ExitCode()
	o.stderr = e.String()
	data, _ := os.ReadFile(rec)
	for _, line := range bytes.Split(data, []byte("\n")) {
		if len(line) == 0 {
			continue
		}
		var c call
		if err := json.Unmarshal(line, &c); err != nil {
			panic("HARNESS-BUG: record: " + err.Error())
		}
		if c.Op == "new" {
			o.news = append(o.news, c)
		} else {
			o.calls = append(o.calls, c)
		}
	}
	return o
}

func show(c *call) string {
	if c == nil {
		return "nothing"
	}
	var ids []string
	for _, e := range c.Examples {
		s := "?"
		if len(e.Features) > 0 {
			s = strconv.Itoa(e.Features[0].Index)
		}
		ids = append(ids, s)
	}
	if c.Op == "train" {
		return fmt.Sprintf("train examples [%s] iteration %d rehash %v rebuild %v (after %d training calls)", strings.Join(ids, " "), c.Iter, c.Rehash, c.Rebuild, c.Trained)
	}
	return fmt.Sprintf("predict examples [%s] (after %d training calls)", strings.Join(ids, " "), c.Trained)
}

func filter(c []call, op string) []call {
	var o []call
	for _, x := range c {
		if x.Op == op {
			o = append(o, x)
		}
	}
	return o
}

func diffCalls(got, want []call) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		var g, w *call
		if i < len(got) {
			g = &got[i]
		}
		if i < len(want) {
			w = &want[i]
		}
		same := g != nil && w != nil && g.Op == w.Op && g.Trained == w.Trained && g.Iter == w.Iter && g.Rehash == w.Rehash &&
			g.Rebuild == w.Rebuild && sameExamples(g.Examples, w.Examples)
		if !same {
			return fmt.Sprintf("call %d is %s, want %s", i, show(g), show(w))
		}
	}
	return ""
}

// checkNew checks the construction of the network.
func (p *plan) checkNew(r *mc.R, o *outcome) {
	if len(o.news) != 1 {
		r.Failf("the network is created %d times", len(o.news))
	}
	cfg := p.config("", "")
	types := make([]node.NodeType, p.Layers)
	for i := range types {
		types[i] = node.ReLU
	}
	types[p.Layers-1] = node.Softmax
	want := []interface{}{p.Layers, cfg["SizesOfLayers"], types, p.Batch, cfg["LearningRate"], cfg["InputDim"],
		cfg["K"], cfg["L"], cfg["RangePow"], cfg["Sparsity"]}
	names := []string{"number of layers", "sizes", "types", "batch size", "learning rate", "input dimension", "K", "L", "RangePow", "sparsity"}
	for i, w := range want {
		b, _ := json.Marshal(w)
		var x, y interface{}
		json.Unmarshal(b, &x)
		json.Unmarshal(o.news[0].Args[i], &y)
		if !reflect.DeepEqual(x, y) {
			r.Failf("the network is created with %s %v, want %v", names[i], y, x)
		}
	}
}

// checkEnd checks how the program ended.
func (p *plan) checkEnd(r *mc.R, o *outcome, failLine int) {
	if o.hung {
		r.Failf("the program does not end")
	}
	if failLine == 0 {
		if o.status != 0 {
			r.Failf("exit status %d: %s", o.status, tail(o.stderr))
		}
		return
	}
	if o.status == 0 {
		r.Failf("exit status 0 with a malformed line %d", failLine)
	}
	if !mentions(o.stderr, failLine) {
		r.Failf("line %d is malformed; the message does not name it: %s", failLine, tail(o.stderr))
	}
}

func tail(s string) string {
	if len(s) > 300 {
		return s[len(s)-300:]
	}
	return s
}

// mentions reports whether the last line of the log has the number.
func mentions(log string, n int) bool {
	lines := strings.Split(strings.TrimSpace(log), "\n")
	last := lines[len(lines)-1]
	for _, w := range strings.FieldsFunc(last, func(r rune) bool { return r < '0' || r > '9' }) {
		if w == strconv.Itoa(n) {
			return true
		}
	}
	return false
}

// reports reads the lines with the iteration, the time and the accuracy.
func reports(log string) (iters []int, acc []string) {
	for _, l := range strings.Split(log, "\n") {
		f := strings.Fields(l)
		if len(f) != 3 {
			continue
		}
		n, err := strconv.Atoi(f[0])
		if _, err2 := time.ParseDuration(f[1]); err != nil || err2 != nil {
			continue
		}
		iters, acc = append(iters, n), append(acc, f[2])
	}
	return
}

// accuracies reads the reported results of complete evaluations.
func accuracies(log string) (overall []string) {
	for _, l := range strings.Split(log, "\n") {
		f := strings.Fields(l)
		if len(f) == 4 && f[0] == "Over" && f[3] == "correct" {
			overall = append(overall, f[2])
		}
	}
	return
}

func okRatio(s string, want float64) bool {
	v, err := strconv.ParseFloat(s, 64)
	return err == nil && math.Abs(v-want) <= 1e-6
}
