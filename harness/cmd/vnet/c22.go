package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/nlpodyssey/goslide/configuration"

	"goslideverif/env"
	"goslideverif/mc"
	"goslideverif/sched"
)

var c22 = mc.Prop{
	ID: "C22", Level: "model_checking", Fn: runC22,
	Rule: "stateless exploration of the real code: scheduling points are inserted before every statement of the network, layer, node, table and hash packages (by rewriting the syntax tree at build time); two goroutines, each making one or two training or prediction calls on the same network under ids of their own (rising, falling, 2^32 apart, of both signs or huge), run under a cooperative scheduler in all schedules with up to 1 (2 on the smallest networks) context switches at points, for every pair of calls (plain, rehash, rebuild, empty, prediction, two calls in a row), all hash families, both optimizers and modes 1-4; the network is new or was trained and has predicted before; full state of both results and of the original network and all counts are compared with those of the calls running alone; in addition the uninstrumented code runs the same pairs freely under the race detector; a transition is a scheduling point, a state a schedule",
	Assumptions: []string{"switches happen between statements (accesses within a statement are covered by the race detector only)",
		"two goroutines; each has random draws of its own; the original network is not used in place meanwhile"},
}

// task is what one goroutine does with a network.
type task struct {
	name string
	ops  []op
}

type taskResult struct {
	counts []int
	n      *net
}

// run makes the calls on n under id.
func (t *task) run(n *net, id int) taskResult {
	res := taskResult{n: n}
	for i := range t.ops {
		o := &t.ops[i]
		m := &net{n.s, nil, id, n.step + 1}
		c := 0
		if o.predict {
			c, m.n = res.n.n.PredictClass(cow(id), o.ex)
		} else {
			_, m.n = res.n.n.ProcessInput(cow(id), o.ex, o.iter, o.rehash, o.rebuild)
		}
		res.counts = append(res.counts, c)
		res.n = m
	}
	return res
}

// fresh is t with examples of its own.
func (t *task) fresh() *task {
	c := *t
	c.ops = append([]op{}, t.ops...)
	for i := range c.ops {
		c.ops[i].ex = cloneExamples(c.ops[i].ex)
	}
	return &c
}

// cowTasks are the tasks for s.
func cowTasks(s *spec) []task {
	b := batches(s)
	plain := op{name: "train", ex: b[0], iter: 1}
	return []task{
		{"train", []op{plain}},
		{"train+rehash", []op{{name: "train+rehash", ex: b[1], iter: 2, rehash: true}}},
		{"train+rebuild", []op{{name: "train+rebuild", ex: b[0], iter: 6945, rebuild: true}}},
		{"predict", []op{{name: "predict", predict: true, ex: b[1]}}},
		{"predict, train", []op{{name: "predict", predict: true, ex: b[0]}, {name: "train", ex: b[1], iter: 3}}},
		{"empty, both", []op{{name: "empty+rehash", ex: []example{}, iter: 6945, rehash: true, rebuild: true}}},
	}
}

func concNets(th bool) []*spec {
	var o []*spec
	for i, hf := range families {
		for mi, mode := range []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4, configuration.LayerMode3, configuration.LayerMode2} {
			if mi >= 2 && i != mi-2 && !th {
				continue
			}
			adam := (i+mi)%2 == 0
			o = append(o, (&spec{in: 2, sizes: []int{2}, sp: []float64{0.5, 0.5}, batch: 1, lr: 0.5, adam: adam, hf: hf, mode: mode,
				seed: uint64(i + mi)}).tables(1, 1, 1))
			if mode == configuration.LayerMode1 || mode == configuration.LayerMode4 {
				o = append(o, (&spec{in: 2, sizes: []int{2, 2}, sp: []float64{1, 0.5, 0.5, 1}, batch: 1, lr: 0.5, adam: !adam, hf: hf, mode: mode,
					seed: uint64(i + mi)}).tables(1, 1, 1))
			}
		}
	}
	return o
}

// pairIds selects the ids for a pair of tasks.
func pairIds(s *spec, a, b int) idScheme {
	return append(otherIds, rising)[(int(s.seed)+int(s.hf)*2+len(s.sizes)+a*2+b*3)%(len(otherIds)+1)]
}

// taskSource gives task i its own draws.
func taskSource(s *spec, i int) *env.Source { return env.Fixed(s.seed*31 + uint64(i)*7 + 5) }

func runC22(r *mc.R) {
	th := r.Thorough()
	for _, s := range concNets(th) {
		tasks := cowTasks(s)
		for a := range tasks {
			for b := range tasks {
				bounds := []int{1}
				if th && len(s.sizes) == 1 && b < 4 && a < 4 {
					bounds = []int{2}
				}
				if !th && (a == 4 || b == 4) && a+b != 7 || (a == 5 || b == 5) && (a+b)%5 != 0 && a+b != 8 {
					continue
				}
				for _, bound := range bounds {
					for _, used := range []bool{false, true} {
						s, a, b, bound, used := s, a, b, bound, used
						if !th && used != ((a+b)%2 == 0) && len(s.sizes) > 1 {
							continue
						}
						r.Case(fmt.Sprintf("%s/%s with %s/up to %d switches/used before %v", s.key(), tasks[a].name, tasks[b].name, bound, used), func() {
							withIds(pairIds(s, a, b), func() {
								concurrentPair(r, s, [2]task{tasks[a], tasks[b]}, bound, used)
							})
						})
					}
				}
			}
		}
	}
	for _, s := range concNets(true) {
		tasks := cowTasks(s)
		for a := range tasks {
			for b := 0; b <= a; b++ {
				if !th && (a+2*b+int(s.hf)+int(s.mode))%3 != 0 {
					continue
				}
				s, a, b := s, a, b
				r.Case(fmt.Sprintf("race detector/%s/%s with %s", s.key(), tasks[a].name, tasks[b].name), func() {
					raceDetector(r, fmt.Sprintf("%s/%d/%d", s.key(), a, b))
				})
			}
		}
	}
}

// used trains n and lets it predict, in place.
func (n *net) used() *net {
	b := batches(n.s)
	_, m := n.train(n.id, b[1], 1, true, false).predict(n.id, b[0])
	return m
}

// alone is what a task does when nothing else runs.
func alone(s *spec, n *net, t *task, i int) (taskResult, *full) {
	env.UseTasks()
	env.Register(i, taskSource(s, i))
	res := t.fresh().run(n, i+1)
	f := res.n.dump()
	return res, f
}

func concurrentPair(r *mc.R, s *spec, t [2]task, bound int, used bool) {
	base := s.build()
	if used {
		base = base.used()
	}
	before := base.dump()
	var want [2]taskResult
	var wantDump [2]*full
	for i := range t {
		want[i], wantDump[i] = alone(s, base, &t[i], i)
	}
	tag := mc.NewH()
	for _, c := range []byte(s.key() + t[0].name + t[1].name) {
		tag = tag.Add(uint64(c))
	}
	given := int64(0)
	r.Explore(bound, 10000000, func(c *mc.Chooser) {
		r.Eval()
		env.UseTasks()
		var got [2]taskResult
		fn := func(i int) func() {
			mine := t[i].fresh()
			return func() {
				env.Register(i, taskSource(s, i))
				got[i] = mine.run(base, i+1)
			}
		}
		run := sched.Two(fn(0), fn(1), func() bool { return c.Choose(2) == 1 })
		r.Step(run.Points)
		h := tag
		var at []int
		for i, v := range c.V {
			if v != 0 {
				h = h.Add(uint64(i))
				at = append(at, i)
			}
		}
		r.StateHash(uint64(h))
		what := fmt.Sprintf("%s with %s, switches at points %v", t[0].name, t[1].name, at)
		if run.GivenUp {
			given++
		}
		if run.Deadlocked {
			r.Failf("%s: neither makes progress", what)
		}
		for i := range got {
			if run.Vals[i] != nil {
				if l, ok := run.Vals[i].(mc.Livelock); ok {
					panic(l)
				}
				r.Failf("%s: task %d panics: %v", what, i, run.Vals[i])
			}
			if fmt.Sprint(got[i].counts) != fmt.Sprint(want[i].counts) {
				r.Failf("%s: task %d counts %v correct predictions, alone %v", what, i, got[i].counts, want[i].counts)
			}
			if d := got[i].n.dump().diff(wantDump[i]); d != "" {
				r.Failf("%s: the result of task %d: %s, as when it runs alone", what, i, d)
			}
		}
		if d := base.dump().diff(before); d != "" {
			r.Failf("%s: afterwards the original network has %s, as before", what, d)
		}
	})
	if given > 0 {
		r.Note("executions in which a task waited for the other outside a point (then both ran freely)", given)
	}
}

func raceDetector(r *mc.R, which string) {
	cmd := exec.Command(filepath.Join(mc.WorkDir(), "vcowrace"), "race", which)
	cmd.Env = append(cmd.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	time.AfterFunc(100*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, err := cmd.CombinedOutput()
	r.Eval()
	if err == nil {
		return
	}
	if code := cmd.ProcessState.ExitCode(); code != 66 && code != 3 {
		panic(fmt.Sprintf("the free-running calls end with %v: %s", err, clip(string(out))))
	}
	r.Failf("free-running calls: %s", clip(string(out)))
}

func clip(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) != "" {
			l = append(l, strings.TrimSpace(x))
		}
	}
	if len(l) > 14 {
		l = l[:14]
	}
	return strings.Join(l, " / ")
}

// raceRun runs one pair freely; this executable is built with -race then.
func raceRun(which string) {
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for _, s := range concNets(true) {
		tasks := cowTasks(s)
		for a := range tasks {
			for b := 0; b <= a; b++ {
				if fmt.Sprintf("%s/%d/%d", s.key(), a, b) != which {
					continue
				}
				ids = pairIds(s, a, b)
				for round := 0; round < 20; round++ {
					base := s.build()
					if round%2 == 1 {
						base = base.used()
					}
					t := [2]task{tasks[a], tasks[b]}
					var want [2]*full
					for i := range t {
						_, want[i] = alone(s, base, &t[i], i)
					}
					env.UseTasks()
					var got [2]taskResult
					var ready, done sync.WaitGroup
					start := make(chan struct{})
					for i := range t {
						i, mine := i, t[i].fresh()
						ready.Add(1)
						done.Add(1)
						go func() {
							defer done.Done()
							env.Register(i, taskSource(s, i))
							ready.Done()
							<-start
							got[i] = mine.run(base, i+1)
						}()
					}
					ready.Wait()
					close(start)
					done.Wait()
					for i := range got {
						if d := got[i].n.dump().diff(want[i]); d != "" {
							fmt.Fprintf(out, "the result of task %d: %s, as when it runs alone\n", i, d)
							os.Exit(3)
						}
					}
				}
				return
			}
		}
	}
	fmt.Fprintln(out, "HARNESS-BUG: no such pair")
	os.Exit(2)
}
