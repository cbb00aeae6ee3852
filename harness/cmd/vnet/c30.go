package main

import (
	"fmt"
	"runtime"

	"goslideverif/mc"
)

var c30 = mc.Prop{
	ID: "C30", Level: "model_checking", Fn: runC30,
	Rule: "all cycles of up to 2 (3) training and prediction calls (plain, rehash, rebuild, predictions) on small networks of all families, modes and optimizers and cycles of one call on networks large in one respect each, repeated in place, under ever new ids, and as ever new networks derived from one original; iteration numbers go on rising; the live heap after 24, 48, 96 and 192 repetitions (384, 768 and 1536 on suspicion, and all again in the same process) must reach a fixed point: growth by more than 4 bytes per call in every interval is a violation, as is a growing number of goroutines",
	Assumptions: []string{"the live heap is what the collector keeps after two collections; only the newest network (and the original) is held",
		"memory kept for longer than 1536 repetitions of a cycle but not for ever would be reported too"},
}

// liveHeap is the size of the live heap.
func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// mostRepeats is where growth without a pause counts as going on for ever.
const mostRepeats = 1536

const (
	inPlace = iota
	newIds
	siblings
)

var wayNames = []string{"in place", "under new ids", "as new networks derived from one"}

// repeats follows a cycle of calls.
type repeats struct {
	ops   []op
	cycle []int
	way   int
	base  *net
	n     *net
	rep   int
	id    int
}

func (c *repeats) run(r *mc.R, to int) {
	for ; c.rep < to; c.rep++ {
		if c.way == siblings {
			c.n = c.base
		}
		for i, o := range c.cycle {
			p := c.ops[o]
			p.iter += 6946 * (c.rep*len(c.cycle) + i)
			if c.way == newIds || c.way == siblings && i == 0 {
				c.id++
			}
			_, c.n = p.do(c.n, c.id)
			r.Step(1)
		}
	}
	if c.way == siblings {
		c.n = nil
	}
}

func runC30(r *mc.R) {
	th := r.Thorough()
	depth := 2
	if th {
		depth = 3
	}
	// follow returns the sizes of the live heap and the numbers of
	// goroutines, and whether each went on growing.
	follow := func(s *spec, ops []op, cycle []int, way int) (sizes []int64, tasks []int, suspect, suspectTasks bool) {
		c := &repeats{ops: ops, cycle: cycle, way: way, base: s.build()}
		c.n = c.base
		if way != siblings {
			c.base = nil
		}
		grown := func() bool {
			n := len(sizes)
			return n < 2 || sizes[n-1]-sizes[n-2] > int64(4*12*(1<<(n-1))*len(cycle))
		}
		moreTasks := func() bool { n := len(tasks); return n < 2 || tasks[n-1] > tasks[n-2] }
		suspect, suspectTasks = true, true
		for reps := 24; reps <= mostRepeats && (suspect || suspectTasks); reps *= 2 {
			c.run(r, reps)
			sizes, tasks = append(sizes, liveHeap()), append(tasks, runtime.NumGoroutine())
			suspect = suspect && grown()
			suspectTasks = suspectTasks && moreTasks()
			r.State(s.key(), opNames(ops, cycle), way, reps)
			r.Tick()
		}
		r.Eval()
		runtime.KeepAlive(c)
		return
	}
	check := func(s *spec, ops []op, cycle []int, way int) {
		// what the runtime itself keeps (descriptors of goroutines, say) is
		// there from the first time on
		for again := 0; again < 2; again++ {
			sizes, tasks, suspect, suspectTasks := follow(s, ops, cycle, way)
			if !suspect && !suspectTasks {
				return
			}
			what := fmt.Sprintf("%s repeated %s for 24, 48, 96, ... times", opNames(ops, cycle), wayNames[way])
			if suspect && again == 1 {
				r.Failf("%s: the live heap has %v bytes", what, sizes)
			}
			if suspectTasks && again == 1 {
				r.Failf("%s: there are %v goroutines", what, tasks)
			}
		}
	}
	nets := append(smallNets(false), mode2Nets(false)...)
	for i, s := range tableNets(false) {
		if i%5 == 1 || th {
			nets = append(nets, s)
		}
	}
	for ni, s := range nets {
		s := s
		ni := ni
		b := batches(s)
		last := b[len(b)-1]
		ops := []op{
			{name: "train", ex: last, iter: 2},
			{name: "rehash", ex: b[0], iter: 0, rehash: true},
			{name: "rebuild", ex: last, iter: 6945, rehash: true, rebuild: true},
			{name: "predict", predict: true, ex: last},
			{name: "predict 1", predict: true, ex: b[1]},
		}
		for way := range wayNames {
			way := way
			for f := range ops {
				f := f
				sc := append(otherIds, rising)[(ni+2*way+f)%(len(otherIds)+1)]
				r.Case(fmt.Sprintf("cycles of %s %s %s%s", ops[f].name, wayNames[way], s.key(), sc.suffix()), func() {
					withIds(sc, func() {
						for k := 0; k < depth; k++ {
							tuples(k, len(ops), func(t []int) {
								if r.Expired() || !th && k == 1 && (ni+way+f+t[0])%2 == 0 {
									return
								}
								check(s, ops, append([]int{f}, t...), way)
							})
						}
						if r.Expired() {
							r.Skipped++
						}
					})
				})
			}
		}
	}
	for i, b := range bigNets(false) {
		b := b
		for way := range wayNames {
			way := way
			if !th && (i+way)%3 != 0 {
				continue
			}
			r.Case(fmt.Sprintf("large %d %s %s", i, wayNames[way], b.key()), func() {
				ops := b.ops()
				for o := range ops {
					if r.Expired() {
						r.Skipped++
						return
					}
					check(b.spec, ops, []int{o}, way)
				}
			})
		}
	}
}
