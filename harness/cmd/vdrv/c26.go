package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"goslideverif/mc"
)

var c26 = mc.Prop{
	ID: "C26", Level: "fault_enumeration", Fn: runC26,
	Rule: "the real program run as a process with a recording network package; faults: wrong numbers of arguments; a configuration file that is missing, a directory, or truncated at every byte; unusable profile files; a training or test file that is missing, a directory, empty or has a malformed header from the start, or becomes so after the k-th call on the network, for every k of the run, over several schedules; a replacement by another valid file at every k; each run is one execution, each recorded call a transition",
	Assumptions: []string{"files change between two calls, by atomic renames, never while one is being read",
		"a program that keeps using a file it opened before the fault and completes the unfaulted schedule is accepted"},
}

// opening is a use of a data file: it happens after done calls.
type opening struct {
	test bool
	done int // calls on the network made before (the creation included)
}

// openings lists the uses of the files in a run of p.
func (p *plan) openings() []opening {
	var o []opening
	done := 1
	nb := p.numBatches()
	eval := func(n int) {
		o = append(o, opening{true, done})
		if g := (p.TestLines + p.Batch - 1) / p.Batch; n > g {
			n = g // predictions of nothing are not recorded
		}
		done += n
	}
	for e := 0; e < p.Epoch; e++ {
		o = append(o, opening{false, done})
		for i := 0; i < nb; i++ {
			if i > 0 && (e*nb+i)%p.Step == 0 {
				eval(20)
			}
			done++
		}
		if e == p.Epoch-1 {
			eval(p.TotTest / p.Batch)
		} else {
			eval(50)
		}
	}
	return o
}

// scene holds the files of a run.
type scene struct {
	p             *plan
	cfg           string
	train, test   string // paths
	trainT, testT string // contents
}

func (p *plan) scene() *scene {
	s := &scene{p: p}
	s.trainT, s.testT, _, _, _ = p.texts()
	for _, f := range []string{"train.txt", "test.txt", "cpu.prof", "mem.prof"} {
		os.Remove(filepath.Join(scratch(), f))
	}
	s.train, s.test = put("train.txt", s.trainT), put("test.txt", s.testT)
	b, _ := json.Marshal(p.config(s.train, s.test))
	s.cfg = put("config.json", string(b))
	return s
}

func (s *scene) path(test bool) string {
	if test {
		return s.test
	}
	return s.train
}

// failsAt checks that o stopped after exactly the first done calls of want.
func failsAt(r *mc.R, o *outcome, want []call, done int, what string) {
	r.Eval()
	r.Step(len(o.calls))
	if o.hung {
		r.Failf("%s: the program does not end", what)
	}
	if o.status == 0 {
		r.Failf("%s: exit status 0 after %d calls", what, len(o.calls))
	}
	if strings.TrimSpace(o.stderr) == "" {
		r.Failf("%s: exit status %d without a message", what, o.status)
	}
	if strings.Contains(o.stderr, "goroutine 1 [") {
		r.Failf("%s: the program crashes: %s", what, tail(o.stderr))
	}
	got := len(o.news) + len(o.calls)
	if got > done {
		r.Failf("%s: it goes on for %d calls, want no more than %d", what, got, done)
	}
	if d := diffPrefix(o.calls, want); d != "" {
		r.Failf("%s: %s", what, d)
	}
	h := mc.NewH().Add(uint64(got)).Add(uint64(o.status))
	for _, b := range []byte(what) {
		h = h.Add(uint64(b))
	}
	r.StateHash(uint64(h))
	r.Outcome(fmt.Sprintf("exit %d", o.status))
}

func diffPrefix(got, want []call) string {
	if len(got) > len(want) {
		return fmt.Sprintf("%d calls, the schedule has %d", len(got), len(want))
	}
	return diffCalls(got, want[:len(got)])
}

func runC26(r *mc.R) {
	th := r.Thorough()
	base := plan{Tot: 6, TotTest: 4, Batch: 2, Epoch: 2, Step: 2, Rehash: 4, Rebuild: 6, Mode: 4, Layers: 2, TrainLines: 6, TestLines: 5}

	// arguments
	r.Case("arguments", func() {
		s := base.scene()
		for _, args := range [][]string{{}, {s.cfg, s.cfg}, {s.cfg, "x"}, {"x", s.cfg}, {s.cfg, s.cfg, s.cfg}, {""}, {s.cfg, ""}} {
			failsAt(r, start(args, ""), nil, 0, fmt.Sprintf("%d arguments", len(args)))
		}
		o := start([]string{s.cfg}, "")
		r.Eval()
		if o.status != 0 {
			r.Failf("exit status %d without a fault: %s", o.status, tail(o.stderr))
		}
	})

	// configuration
	r.Case("configuration missing", func() {
		base.scene()
		failsAt(r, start([]string{filepath.Join(scratch(), "nothing.json")}, ""), nil, 0, "no such configuration file")
		failsAt(r, start([]string{scratch()}, ""), nil, 0, "a directory as configuration file")
		failsAt(r, start([]string{put("empty.json", "")}, ""), nil, 0, "empty configuration file")
		valid, _ := os.ReadFile(base.scene().cfg)
		for _, t := range []string{"x", "}", "{}", "\n[]", " 1", ",", string(valid)} {
			failsAt(r, start([]string{put("bad.json", string(valid)+t)}, ""), nil, 0, "a configuration followed by "+tail(t))
			failsAt(r, start([]string{put("bad.json", "{}"+t)}, ""), nil, 0, "an empty configuration followed by "+tail(t))
		}
		for _, t := range []string{"[]", "1", "\"x\"", "{\"Epoch\": \"2\"}", "{\"Epoch\": 2.5}", "{\"Epoch\": 2", "{\"K\": 3}", "{,}", "x"} {
			failsAt(r, start([]string{put("bad.json", t)}, ""), nil, 0, "configuration "+t)
		}
	})
	r.Case("configuration truncated", func() {
		s := base.scene()
		b, _ := os.ReadFile(s.cfg)
		step := 5
		if th {
			step = 1
		}
		for n := 0; n < len(b)-1; n += step {
			failsAt(r, start([]string{put("cut.json", string(b[:n]))}, ""), nil, 0, fmt.Sprintf("configuration cut after %d bytes", n))
		}
		failsAt(r, start([]string{put("cut.json", string(b[:len(b)-1]))}, ""), nil, 0, "configuration without its last byte")
	})

	// profiles
	for _, which := range []string{"cpu.prof", "mem.prof"} {
		which := which
		r.Case("unusable "+which, func() {
			p := base
			p.Profiles = true
			s := p.scene()
			_, _, want, _, _ := p.texts()
			d := filepath.Join(scratch(), which)
			if err := os.Mkdir(d, 0o700); err != nil {
				panic("HARNESS-BUG: " + err.Error())
			}
			defer os.Remove(d)
			failsAt(r, start([]string{s.cfg}, ""), want, len(want)+1, "a directory at "+which)
		})
	}

	// data files
	plans := []plan{base}
	add := func(f func(p *plan)) {
		p := base
		f(&p)
		plans = append(plans, p)
	}
	add(func(p *plan) { p.Epoch = 1; p.Step = 1 })
	add(func(p *plan) { p.Epoch = 3; p.Step = 100; p.Mode = 1; p.TotTest = 1 })
	add(func(p *plan) { p.Batch = 1; p.Step = 3; p.Epoch = 1; p.TestLines = 30 })
	add(func(p *plan) { p.TotTest = 1; p.Epoch = 1; p.Step = 100 })
	if th {
		add(func(p *plan) { p.Batch = 3; p.TestLines = 70; p.TotTest = 9; p.Epoch = 3 })
		add(func(p *plan) { p.Epoch = 4; p.Step = 3; p.Mode = 2; p.TestLines = 0 })
		add(func(p *plan) { p.Tot = 0; p.Epoch = 3 })
		add(func(p *plan) { p.TrainLines = 1; p.Tot = 9; p.Step = 1 })
	}
	bad := map[string]string{"empty": "", "short header": "1 2", "bad header": "x 1 2\n0 1:1\n", "negative header": "-1 2 3\n0 1:1\n"}
	kinds := []string{"remove", "directory", "empty", "short header", "bad header", "negative header"}
	for pi := range plans {
		p := plans[pi]
		_, _, all, evals, _ := p.texts()
		opens := p.openings()
		for ki, kind := range kinds {
			for _, test := range []bool{false, true} {
				kind, test, p := kind, test, p
				if pi > 0 && pi < 4 && ki > 2 && !th {
					continue
				}
				r.Case(fmt.Sprintf("%s test%v %s", kind, test, p.key()), func() {
					for k := 0; k <= len(all)+1; k++ {
						if pi > 1 && pi < 4 && !th && (k+ki)%3 != 0 {
							continue
						}
						s := p.scene()
						done := -1
						for _, o := range opens {
							if o.test == test && o.done >= k {
								done = o.done
								break
							}
						}
						target := s.path(test)
						fault := ""
						src := put("replacement", bad[kind])
						switch {
						case k == 0 && kind == "remove":
							os.Remove(target)
						case k == 0 && kind == "directory":
							os.Remove(target)
							os.Mkdir(target, 0o700)
						case k == 0:
							os.Rename(src, target)
						case kind == "remove" || kind == "directory":
							fault = fmt.Sprintf("%d|%s|%s|", k, kind, target)
						default:
							fault = fmt.Sprintf("%d|replace|%s|%s", k, target, src)
						}
						o := start([]string{s.cfg}, fault)
						os.Remove(target)
						what := fmt.Sprintf("%s of the %s after %d calls", kind, filepath.Base(target), k)
						if o.status == 0 {
							// nothing was opened any more, or the file was held open since before
							r.Eval()
							r.Step(len(o.calls))
							if done >= 0 && k == 0 {
								r.Failf("%s: exit status 0", what)
							}
							if d := diffCalls(o.calls, all); d != "" {
								r.Failf("%s: exit status 0, but %s", what, d)
							}
							r.Outcome("exit 0")
							continue
						}
						if done < 0 {
							r.Failf("%s, when nothing reads it any more: exit status %d: %s", what, o.status, tail(o.stderr))
						}
						failsAt(r, o, all, done, what)
						n := 0
						left := len(o.calls)
						for i, e := range evals {
							end := evalEnd(&p, i)
							if left >= end && e.batches > 0 {
								n++
							}
						}
						if a := accuracies(o.stderr); countReal(&p, a, evals) > n {
							r.Failf("%s: %d accuracies are reported after %d complete evaluations", what, len(a), n)
						}
					}
				})
			}
		}
	}

	// another valid file
	for pi := range plans {
		p := plans[pi]
		_, _, all, _, _ := p.texts()
		opens := p.openings()
		r.Case("other test file "+p.key(), func() {
			for k := 1; k <= len(all)+1; k++ {
				if pi > 1 && !th && k%3 != 0 {
					continue
				}
				s := p.scene()
				q := p
				q.TestLines = p.TestLines + 3
				_, other, full, _, _ := q.texts()
				src := put("replacement", other)
				o := start([]string{s.cfg}, fmt.Sprintf("%d|replace|%s|%s", k, s.test, src))
				r.Eval()
				r.Step(len(o.calls))
				what := fmt.Sprintf("a longer test file after %d calls", k)
				if o.status != 0 {
					r.Failf("%s: exit status %d: %s", what, o.status, tail(o.stderr))
				}
				// evaluations that open the file later read the new one
				var want []call
				otherOpens := q.openings()
				for i, op := range opens {
					from, calls, at := op, all, opens
					if op.test && op.done >= k {
						from, calls, at = otherOpens[i], full, otherOpens
					}
					end := len(calls)
					if i+1 < len(at) {
						end = at[i+1].done - 1
					}
					want = append(want, calls[from.done-1:end]...)
				}
				// up to the next opening of either file only predictions of this evaluation differ
				if d := diffCalls(o.calls, want); d != "" {
					if diffCalls(o.calls, all) == "" {
						r.Outcome("the first file stays in use")
						continue
					}
					r.Failf("%s: %s", what, d)
				}
				r.Outcome("exit 0")
			}
		})
	}
}

// evalEnd is the number of calls (without the creation) made when the i-th
// evaluation is complete.
func evalEnd(p *plan, i int) int {
	n := 0
	opens := p.openings()
	_, _, _, evals, _ := p.texts()
	for _, o := range opens {
		if o.test {
			if n == i {
				n = evals[i].batches
				if g := (p.TestLines + p.Batch - 1) / p.Batch; n > g {
					n = g
				}
				return o.done - 1 + n
			}
			n++
		}
	}
	panic("HARNESS-BUG: no such evaluation")
}

// countReal counts the reports of evaluations that have batches.
func countReal(p *plan, acc []string, evals []evaluation) int {
	n := 0
	for i := range acc {
		if i < len(evals) && evals[i].batches > 0 {
			n++
		}
	}
	return n
}
