package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/lsh"

	"goslideverif/env"
	"goslideverif/mc"
)

// lshModel holds what each bucket of each table should contain.
type lshModel struct {
	l, w int
	b    []bktModel
}

func newLshModel(l, rangePow int) *lshModel {
	return &lshModel{l, 1 << rangePow, make([]bktModel, l<<rangePow)}
}
func (m *lshModel) at(t, a int) *bktModel { return &m.b[t*m.w+a] }
func (m *lshModel) clear() {
	for i := range m.b {
		m.b[i] = bktModel{}
	}
}

func checkLookup(r *mc.R, x *lsh.LSH, m *lshModel, idx []int, what func() string) [][]int {
	in := copyInts(idx)
	raw := x.RetrieveRaw(idx)
	if !eqInts(in, idx) {
		r.Failf("%s: looking up %v changed the addresses to %v", what(), in, idx)
	}
	checkAnswer(r, raw, m, in, what)
	return raw
}

func checkAnswer(r *mc.R, raw [][]int, m *lshModel, in []int, what func() string) {
	if len(raw) != m.l {
		r.Failf("%s: looking up %v returns %d buckets, want %d", what(), in, len(raw), m.l)
	}
	for t, a := range in {
		b := m.at(t, a)
		n := b.size()
		if len(raw[t]) != n {
			r.Failf("%s: looking up %v returns %d ids for table %d, want %d (%v)", what(), in, len(raw[t]), t, n, raw[t])
		}
		got := map[int]int{}
		for _, id := range raw[t] {
			got[id]++
		}
		for s := 0; s < n; s++ {
			got[b.last[s]]--
		}
		for id, c := range got {
			if c != 0 {
				r.Failf("%s: looking up %v returns %v for table %d: id %d occurs %+d times too often", what(), in, raw[t], t, id, c)
			}
		}
	}
}

// checkTables compares every bucket, individually and by lookup.
func checkTables(r *mc.R, x *lsh.LSH, m *lshModel, what func() string) {
	idx := make([]int, m.l)
	var raw [][]int
	for a := 0; a < m.w; a++ {
		for t := range idx {
			idx[t] = (a + t) % m.w
		}
		next := checkLookup(r, x, m, idx, what)
		if a > 0 { // the answer to the previous lookup still stands
			for t := range idx {
				idx[t] = (a - 1 + t) % m.w
			}
			checkAnswer(r, raw, m, idx, func() string { return what() + ", after another lookup" })
		}
		raw = next
	}
	for t := 0; t < m.l; t++ {
		for a := 0; a < m.w; a++ {
			b := m.at(t, a)
			for s := 0; s < b.size(); s++ {
				if g := x.Retrieve(t, a, s); g != b.last[s] {
					r.Failf("%s: slot %d of bucket (%d,%d) reads %d, want %d", what(), s, t, a, g, b.last[s])
				}
			}
			for s := b.size(); s < b.size()+3; s++ {
				if g := x.Retrieve(t, a, s); g != 0 && g != -1 {
					r.Failf("%s: unused slot %d of bucket (%d,%d) reads %d", what(), s, t, a, g)
				}
			}
		}
	}
}

func lshAdd(r *mc.R, x *lsh.LSH, m *lshModel, idx []int, id int, what func() string) {
	in := copyInts(idx)
	slots := x.Add(idx, id)
	if !eqInts(in, idx) {
		r.Failf("%s: inserting at %v changed the addresses to %v", what(), in, idx)
	}
	if len(slots) != m.l {
		r.Failf("%s: insertion reports %d slots, want %d", what(), len(slots), m.l)
	}
	for t, a := range in {
		m.at(t, a).add(id)
		if g := x.Retrieve(t, a, slots[t]); g != id {
			r.Failf("%s: id %d inserted at (%d,%d) is reported in slot %d, which reads %d", what(), id, t, a, slots[t], g)
		}
	}
}

func lshAddSingle(r *mc.R, x *lsh.LSH, m *lshModel, t, a, id int, what func() string) {
	s := x.AddSingle(t, a, id)
	m.at(t, a).add(id)
	if g := x.Retrieve(t, a, s); g != id {
		r.Failf("%s: id %d inserted at (%d,%d) is reported in slot %d, which reads %d", what(), id, t, a, s, g)
	}
}

func (m *lshModel) hash() uint64 {
	h := mc.NewH().Add(uint64(m.l)).Add(uint64(m.w))
	for i := range m.b {
		h = h.Add(uint64(m.b[i].n))
	}
	return uint64(h)
}

var c02 = mc.Prop{ID: "C02", Level: "model_checking",
	Rule:        "every sequence of insertions, single-table insertions and clears of the bounded length on small table grids, one and two structures, from empty, partly and completely filled buckets, with ordinary and extreme ids; one id in every single bucket of larger grids; 65836 (1048876) clears with most buckets left alone; a state is the vector of bucket fill counts; every bucket is compared with a list model after every operation",
	Assumptions: []string{"larger grids behave like the enumerated ones beyond the one-id-per-bucket and overflow patterns explored on them"},
	Fn: func(r *mc.R) {
		type grid struct{ k, l, rp int }
		depth := 4
		if r.Thorough() {
			depth = 6
		}
		for _, g := range []grid{{1, 1, 1}, {2, 2, 1}, {1, 2, 2}, {1, 3, 1}, {3, 1, 2}, {1, 2, 0}} {
			for _, pre := range []int{0, 1, 126, 127, 128, 255} {
				for _, ids := range []string{"distinct", "alternating", "equal", "few", "extreme"} {
					g, pre, ids := g, pre, ids
					if ids != "distinct" && pre != 1 && pre != 127 {
						continue
					}
					// the number of the insertion decides the id
					idOf := func(n int) int {
						switch ids {
						case "alternating":
							return n%2 + 1
						case "equal":
							return 9
						case "few":
							return -n%3 - 2
						case "extreme":
							return []int{0, math.MaxInt64, -1, 0, math.MinInt64, 1 << 32, -1 << 31}[n%7]
						}
						return n
					}
					w := 1 << g.rp
					// operations: insertions at every address vector, single insertions, clear
					nvec := 1
					for i := 0; i < g.l; i++ {
						nvec *= w
					}
					nops := nvec + g.l*w + 1
					d := depth
					for p := 1; ; d-- {
						p = 1
						for i := 0; i < d; i++ {
							p *= nops
						}
						if p <= 20000 || d == 2 || r.Thorough() && p <= 2000000 {
							break
						}
					}
					r.Case(fmt.Sprintf("ops/k%d l%d range 2^%d/prefill %d/%s ids/depth %d", g.k, g.l, g.rp, pre, ids, d), func() {
						env.Use(env.Fixed(1))
						configuration.Global = configuration.Default()
						x := lsh.New(g.k, g.l, g.rp)
						vec := make([]int, g.l)
						tuples(d, nops, func(seq []int) {
							r.Eval()
							x.Clear() // a cleared structure must behave like a new one
							m := newLshModel(g.l, g.rp)
							var done strings.Builder
							what := func() string { return fmt.Sprintf("%s ids, prefilled with %d, then%s", ids, pre, done.String()) }
							next := 1
							for i := 0; i < pre; i++ {
								for t := range vec {
									vec[t] = 0
								}
								lshAdd(r, x, m, vec, idOf(next), what)
								next++
							}
							for _, o := range seq {
								r.Step(1)
								switch {
								case o < nvec:
									v := o
									for t := range vec {
										vec[t] = v % w
										v /= w
									}
									fmt.Fprintf(&done, " add%v", vec)
									lshAdd(r, x, m, vec, idOf(next), what)
									next++
								case o < nvec+g.l*w:
									t, a := (o-nvec)/w, (o-nvec)%w
									fmt.Fprintf(&done, " single(%d,%d)", t, a)
									lshAddSingle(r, x, m, t, a, idOf(next), what)
									next++
								default:
									done.WriteString(" clear")
									x.Clear()
									m.clear()
								}
								r.StateHash(m.hash())
								if pre <= 1 {
									checkTables(r, x, m, what)
								}
							}
							checkTables(r, x, m, what)
						})
					})
				}
			}
		}
		// two structures
		for _, pre := range []int{0, 1, 127, 128} {
			pre := pre
			r.Case(fmt.Sprintf("two structures/prefill %d", pre), func() {
				env.Use(env.Fixed(1))
				const l, rp, w = 2, 1, 2
				n := 5
				if r.Thorough() {
					n = 7
				}
				tuples(n, 8, func(seq []int) {
					r.Eval()
					x := [2]*lsh.LSH{lsh.New(1, l, rp), lsh.New(1, l, rp)}
					m := [2]*lshModel{newLshModel(l, rp), newLshModel(l, rp)}
					what := func() string { return fmt.Sprintf("two structures, prefilled with %d, operations %v", pre, seq) }
					next := 1
					for i := 0; i < pre; i++ {
						lshAdd(r, x[0], m[0], []int{0, 1}, next, what)
						next++
					}
					for _, o := range seq {
						r.Step(1)
						i := o & 1
						switch o >> 1 {
						case 0:
							lshAdd(r, x[i], m[i], []int{0, 1}, next, what)
						case 1:
							lshAdd(r, x[i], m[i], []int{1, 1}, next, what)
						case 2:
							lshAddSingle(r, x[i], m[i], 1, 0, next, what)
						case 3:
							x[i].Clear()
							m[i].clear()
						}
						if pre%2 == 0 { // otherwise both structures see the same id throughout
							next++
						}
					}
					for i := range x {
						checkTables(r, x[i], m[i], what)
						r.StateHash(m[i].hash())
					}
				})
			})
		}
		// buckets left alone through many clears
		for _, g := range []grid{{1, 1, 1}, {1, 2, 2}, {2, 3, 1}} {
			for _, pre := range []int{1, 127, 128, 200} {
				g, pre := g, pre
				r.Case(fmt.Sprintf("clears/l%d range 2^%d/prefill %d", g.l, g.rp, pre), func() {
					env.Use(env.Fixed(1))
					configuration.Global = configuration.Default()
					r.Eval()
					x, m := lsh.New(g.k, g.l, g.rp), newLshModel(g.l, g.rp)
					step := 0
					what := func() string {
						return fmt.Sprintf("%d ids in each bucket, then %d clears and insertions into the first bucket", pre, step)
					}
					vec := make([]int, g.l)
					next := 1
					for a := 0; a < 1<<g.rp; a++ {
						for t := range vec {
							vec[t] = a
						}
						for i := 0; i < pre; i++ {
							lshAdd(r, x, m, vec, next, what)
							next++
						}
					}
					most := 1<<16 + 300
					if r.Thorough() {
						most = 1<<20 + 300
					}
					for t := range vec {
						vec[t] = 0
					}
					for step = 1; step <= most; step++ {
						x.Clear()
						m.clear()
						r.Step(1)
						r.Tick()
						checkTables(r, x, m, what)
						if step%3 == 0 {
							lshAdd(r, x, m, vec, next, what)
							next++
							checkTables(r, x, m, what)
						}
						if step&(step-1) == 0 {
							r.StateHash(hashInts(m.hash(), []int{step, g.l, pre}))
						}
					}
				})
			}
		}
		// one id per bucket, then a clear, then overflow of one bucket, on larger grids
		for _, l := range []int{1, 2, 3, 5, 8, 17, 50, 70, 130, 300, 1100} {
			for _, rp := range []int{0, 1, 3, 6, 8, 10, 12, 13, 16} {
				l, rp := l, rp
				if l<<rp > 9000 && l > 1 && !r.Thorough() || l<<rp > 70000 {
					continue
				}
				r.Case(fmt.Sprintf("cells/l%d range 2^%d", l, rp), func() {
					env.Use(env.Fixed(2))
					r.Eval()
					x, m := lsh.New(1, l, rp), newLshModel(l, rp)
					what := func() string { return fmt.Sprintf("one id per bucket of %d tables of 2^%d", l, rp) }
					id := 1
					if rp%2 == 1 { // beyond 16 and 32 bits
						id = 1<<40 + l<<16 - 5
					}
					for t := 0; t < l; t++ {
						for a := 0; a < 1<<rp; a++ {
							lshAddSingle(r, x, m, t, a, id, what)
							id++
							r.Step(1)
						}
					}
					checkTables(r, x, m, what)
					vec := make([]int, l)
					for i := 0; i < 300; i++ {
						for t := range vec {
							vec[t] = (i / 150 * (t + 1)) % (1 << rp)
						}
						lshAdd(r, x, m, vec, id, what)
						id++
						r.Step(1)
					}
					checkTables(r, x, m, what)
					// ids that could be taken for an empty slot or a flag, into
					// buckets of any filling
					for i, special := range []int{0, -1, 1, math.MaxInt64, math.MinInt64, 1 << 31, -1 << 31, 128, 127} {
						for t := range vec {
							vec[t] = (i % 3 * t) % (1 << rp)
						}
						lshAdd(r, x, m, vec, special, what)
						lshAddSingle(r, x, m, l-1, vec[l-1], special, what)
						r.Step(2)
					}
					checkTables(r, x, m, what)
					r.StateHash(m.hash())
					x.Clear()
					m.clear()
					checkTables(r, x, m, what)
					lshAdd(r, x, m, vec, id, what)
					checkTables(r, x, m, what)
					// every bucket again: nothing of before the clear comes back
					for t := 0; t < l; t++ {
						for a := 0; a < 1<<rp; a++ {
							lshAddSingle(r, x, m, t, a, -id, what)
							id++
							r.Step(1)
						}
					}
					checkTables(r, x, m, what)
					r.StateHash(m.hash())
				})
			}
		}
	}}
