// vconc explores the interleavings of two concurrent hash queries.
package main

import (
	"fmt"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"goslideverif/env"
	"goslideverif/mc"
	"goslideverif/queries"
	"goslideverif/sched"
)

func main() { mc.Main([]mc.Prop{c08}) }

var c08 = mc.Prop{
	ID: "C08", Level: "model_checking", Fn: runC08,
	Rule: "stateless exploration of the real code: before every statement of the hash families, tables and buckets a scheduling point is inserted (by rewriting the syntax tree at build time), two queries (hash, address, look up) on shared hashers and tables run under a cooperative scheduler, and all schedules with up to 2 (3) context switches at points are executed for all families, dense and sparse variants and small sizes; every result is compared with that of the query running alone; the same with one context switch fewer for queries that are the first ever made on newly built hashers and tables; in addition the uninstrumented code runs the same queries freely under the race detector; a transition is a scheduling point, a state a (case, switch positions) schedule",
	Assumptions: []string{"switches happen between statements (accesses within a statement are covered by the race detector only)",
		"two goroutines; nobody inserts meanwhile"},
}

// variants are pairs of query variants: dense, sparse, sparse listed backwards.
var variants = [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 2}, {1, 2}, {2, 0}}

type size struct{ dim, k, l, rp int }

func runC08(r *mc.R) {
	th := r.Thorough()
	sizes := []size{{3, 1, 1, 1}, {4, 1, 2, 2}}
	bound := 2
	if th {
		sizes = append(sizes, size{9, 2, 1, 3}, size{5, 1, 3, 2})
	}
	for fam := range queries.Families {
		for _, s := range sizes {
			for _, q := range variants {
				for vi, vs := range [][2]int{{0, 1}, {1, 2}, {0, 0}} {
					fam, s, q, vs := fam, s, q, vs
					if !th && vi == 2 && (q[0] == 2) != (q[1] == 2) {
						continue
					}
					r.Case(fmt.Sprintf("%s dim%d k%d l%d rp%d variants%d%d vectors%v", queries.Families[fam], s.dim, s.k, s.l, s.rp, q[0], q[1], vs), func() {
						b := bound
						if th && s.dim == 3 {
							b = 3
						}
						env.Use(env.Fixed(uint64(fam*10 + s.dim)))
						set := queries.New(fam, s.dim, s.k, s.l, s.rp)
						want := [2]string{set.Query(q[0], vs[0]), set.Query(q[1], vs[1])}
						given := int64(0)
						r.Explore(b, 1000000, func(c *mc.Chooser) {
							var got [2]string
							run := sched.Two(func() { got[0] = set.Query(q[0], vs[0]) }, func() { got[1] = set.Query(q[1], vs[1]) },
								func() bool { return c.Choose(2) == 1 })
							r.Eval()
							r.Step(run.Points)
							h := mc.NewH()
							for i, v := range c.V {
								if v != 0 {
									h = h.Add(uint64(i))
								}
							}
							r.StateHash(uint64(h.Add(uint64(fam)).Add(uint64(s.dim)).Add(uint64(q[0]*3 + q[1])).Add(uint64(vs[0]*3 + vs[1]))))
							if run.GivenUp {
								given++
							}
							if run.Deadlocked {
								r.Failf("switches at points %v: neither query makes progress", switches(c.V))
							}
							for i := range got {
								if run.Vals[i] != nil {
									switch run.Vals[i].(type) {
									case mc.Livelock:
										panic(run.Vals[i])
									}
									r.Failf("switches at points %v: query %d panics: %v", switches(c.V), i, run.Vals[i])
								}
								if got[i] != want[i] {
									r.Failf("switches at points %v: query %d gives %s, alone %s", switches(c.V), i, got[i], want[i])
								}
							}
						})
						// the first queries ever made on their hashers and tables
						r.Explore(b-1, 1000000, func(c *mc.Chooser) {
							env.Use(env.Fixed(uint64(fam*10 + s.dim)))
							set := queries.New(fam, s.dim, s.k, s.l, s.rp)
							var got [2]string
							run := sched.Two(func() { got[0] = set.Query(q[0], vs[0]) }, func() { got[1] = set.Query(q[1], vs[1]) },
								func() bool { return c.Choose(2) == 1 })
							r.Eval()
							r.Step(run.Points)
							if run.GivenUp {
								given++
							}
							if run.Deadlocked {
								r.Failf("first queries, switches at points %v: neither query makes progress", switches(c.V))
							}
							for i := range got {
								if run.Vals[i] != nil {
									r.Failf("first queries, switches at points %v: query %d panics: %v", switches(c.V), i, run.Vals[i])
								}
								if got[i] != want[i] {
									r.Failf("first queries, switches at points %v: query %d gives %s, alone %s", switches(c.V), i, got[i], want[i])
								}
								if g := set.Query(q[i], vs[i]); g != want[i] {
									r.Failf("first queries, switches at points %v: afterwards query %d gives %s, alone %s", switches(c.V), i, g, want[i])
								}
							}
						})
						if given > 0 {
							r.Note("executions in which a query waited for the other outside a point (then both ran freely)", given)
						}
						// nothing is left behind
						for i, v := range vs {
							if g := set.Query(q[i], v); g != want[i] {
								r.Failf("after the concurrent queries, query %d gives %s, before %s", i, g, want[i])
							}
						}
					})
				}
			}
		}
	}
	for fam := range queries.Families {
		for _, q := range variants {
			fam, q := fam, q
			r.Case(fmt.Sprintf("race detector %s variants%d%d", queries.Families[fam], q[0], q[1]), func() {
				cmd := exec.Command(filepath.Join(mc.WorkDir(), "vrace"), fmt.Sprint(fam), fmt.Sprint(q[0]), fmt.Sprint(q[1]))
				cmd.Env = append(cmd.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
				time.AfterFunc(100*time.Second, func() {
					if cmd.Process != nil {
						cmd.Process.Kill()
					}
				})
				out, err := cmd.CombinedOutput()
				r.Eval()
				if err != nil {
					code := cmd.ProcessState.ExitCode()
					if code != 66 && code != 3 {
						panic(fmt.Sprintf("the free-running queries end with %v: %s", err, clip(string(out))))
					}
					r.Failf("free-running queries: %s", clip(string(out)))
				}
			})
		}
	}
}

func switches(v []int) []int {
	var o []int
	for i, x := range v {
		if x != 0 {
			o = append(o, i)
		}
	}
	return o
}

func clip(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) != "" {
			l = append(l, strings.TrimSpace(x))
		}
	}
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, " / ")
}
