package main

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/goslide/bucket"
	"github.com/nlpodyssey/goslide/bucket/fifo"

	"goslideverif/env"
	"goslideverif/mc"
)

type bkt interface {
	Add(int) int
	Reset()
	Retrieve(int) int
	GetAll() []int
}

func newBkt(kind string) bkt {
	if kind == "ring" {
		return bucket.New()
	}
	return fifo.New()
}

// bktModel is the history since the last reset.
type bktModel struct {
	n    int
	last [128]int
}

func (m *bktModel) add(id int) int {
	s := m.n % 128
	m.last[s] = id
	m.n++
	return s
}
func (m *bktModel) size() int {
	if m.n < 128 {
		return m.n
	}
	return 128
}

func checkBkt(r *mc.R, kind string, b bkt, m *bktModel, what func() string) {
	size := m.size()
	for s := 0; s < size; s++ {
		if g := b.Retrieve(s); g != m.last[s] {
			r.Failf("%s bucket, %s: %d ids added since the reset; slot %d reads %d, want %d", kind, what(), m.n, s, g, m.last[s])
		}
	}
	for s := size; s < 128; s++ {
		if g := b.Retrieve(s); g != 0 && g != -1 {
			r.Failf("%s bucket, %s: %d ids added since the reset; slot %d still reads %d", kind, what(), m.n, s, g)
		}
	}
	for _, s := range [...]int{128, 129, 255, 256, 1000, 1 << 40} {
		if g := b.Retrieve(s); g != -1 {
			r.Failf("%s bucket, %s: slot %d reads %d, want -1", kind, what(), s, g)
		}
	}
	all := b.GetAll()
	if kind == "fifo" {
		if len(all) != size {
			r.Failf("fifo bucket, %s: %d ids added since the reset; it holds %d, want %d", what(), m.n, len(all), size)
		}
	} else if len(all) < size || size == 0 && len(all) != 0 && all[0] != -1 {
		r.Failf("ring bucket, %s: %d ids added since the reset; GetAll returns %d elements", what(), m.n, len(all))
	} else if len(all) > size && all[size] != -1 {
		r.Failf("ring bucket, %s: %d ids added since the reset; the list goes on with %d after them", what(), m.n, all[size])
	}
	for s := 0; s < size; s++ {
		if all[s] != m.last[s] {
			r.Failf("%s bucket, %s: %d ids added since the reset; element %d is %d, want %d", kind, what(), m.n, s, all[s], m.last[s])
		}
	}
	if rb, ok := b.(*bucket.Bucket); ok {
		if rb.GetSize() != m.n {
			r.Failf("ring bucket, %s: GetSize is %d, want %d", what(), rb.GetSize(), m.n)
		}
	}
	r.StateHash(uint64(mc.NewH().Add(uint64(len(kind))).Add(uint64(m.n))))
}

func addBkt(r *mc.R, kind string, b bkt, m *bktModel, id int, what func() string) {
	r.Step(1)
	want := m.add(id)
	if got := b.Add(id); got != want {
		r.Failf("%s bucket, %s: addition number %d reports slot %d, want %d", kind, what(), m.n-1, got, want)
	}
}

var c01 = mc.Prop{ID: "C01", Level: "model_checking",
	Rule:        "every fill level up to the bound; one fill of 2^31 (2^32) additions, every slot number checked, the contents for 300 additions after every multiple of 2^20; every pair of fill levels around a reset; every operation sequence of the bounded length over add/add-127/add-128/reset/read/list on one bucket from several fill levels, and over add/reset/clone on two; a state is a (bucket kind, number of ids since the reset) pair; every slot and the list are compared with a list model after every operation",
	Assumptions: []string{"fill levels beyond the bound (2^31 additions) behave like those within it"},
	Fn: func(r *mc.R) {
		kinds := []string{"ring", "fifo"}
		patterns := map[string]func(int) int{
			"distinct": func(i int) int { return i + 1 },
			"equal":    func(i int) int { return 7 },
			"negative": func(i int) int { return -2 - i },
			"zeros":    func(i int) int { return 0 },
			"two":      func(i int) int { return i & 1 },
			"big":      func(i int) int { return 1<<62 + i },
			"minus1":   func(i int) int { return -1 },
		}
		order := []string{"distinct", "equal", "negative", "zeros", "two", "big", "minus1"}
		for _, kind := range kinds {
			for _, pn := range order {
				kind, pn := kind, pn
				max := 1500
				if pn == "distinct" {
					max = 70000
					if r.Thorough() {
						max = 1 << 17
					}
				}
				r.Case(fmt.Sprintf("fill/%s/%s/0..%d", kind, pn, max), func() {
					env.Use(env.Fixed(1))
					r.Eval()
					b, m := newBkt(kind), &bktModel{}
					what := func() string { return pn + " ids" }
					for i := 0; i <= max; i++ {
						if i < 1500 || i%97 == 0 || i&(i-1) == 0 || i > 65400 && i < 65700 {
							checkBkt(r, kind, b, m, what)
						}
						addBkt(r, kind, b, m, patterns[pn](i), what)
					}
				})
			}
		}
		// beyond counters of 16 to 31 (32) bits
		huge := 1<<31 + 300
		if r.Thorough() {
			huge = 1<<32 + 300
		}
		for _, kind := range kinds {
			kind := kind
			r.Case(fmt.Sprintf("long fill/%s/0..%d", kind, huge), func() {
				env.Use(env.Fixed(1))
				b, m := newBkt(kind), &bktModel{}
				what := func() string { return "many additions" }
				for i := 0; i < huge; i++ {
					if got := b.Add(i + 5); got != i&127 {
						r.Failf("%s bucket: addition number %d reports slot %d, want %d", kind, i, got, i&127)
					}
					if i&(1<<20-1) < 300 {
						r.Eval()
						m.n = i + 1
						for s := 0; s < 128 && s <= i; s++ {
							m.last[(i-s)&127] = i + 5 - s
						}
						checkBkt(r, kind, b, m, what)
						if r.Expired() {
							r.Skipped++
							return
						}
					}
				}
				r.Step(huge)
			})
		}
		// every pair of fill levels around a reset
		hi := 300
		if r.Thorough() {
			hi = 700
		}
		for _, kind := range kinds {
			for n1 := 0; n1 <= hi; n1++ {
				kind, n1 := kind, n1
				r.Case(fmt.Sprintf("reset/%s/%d", kind, n1), func() {
					env.Use(env.Fixed(1))
					for _, resets := range []int{1, 2} {
						for n2 := 0; n2 <= hi; n2 += 1 {
							r.Eval()
							b := newBkt(kind)
							m := &bktModel{}
							what := func() string { return fmt.Sprintf("%d additions, %d resets, %d additions", n1, resets, n2) }
							for i := 0; i < n1; i++ {
								addBkt(r, kind, b, m, i+1, what)
							}
							for i := 0; i < resets; i++ {
								b.Reset()
								*m = bktModel{}
							}
							checkBkt(r, kind, b, m, what)
							for i := 0; i < n2; i++ {
								addBkt(r, kind, b, m, 100000+i, what)
							}
							checkBkt(r, kind, b, m, what)
						}
					}
				})
			}
		}
		// all operation sequences on one bucket
		depth := 6
		if r.Thorough() {
			depth = 8
		}
		ops := []string{"a", "A", "B", "r", "l"} // add 1, add 127, add 128, reset, list and read
		for _, kind := range kinds {
			for _, pre := range []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257} {
				kind, pre := kind, pre
				r.Case(fmt.Sprintf("ops/%s/prefill %d/depth %d", kind, pre, depth), func() {
					env.Use(env.Fixed(1))
					tuples(depth, len(ops), func(seq []int) {
						r.Eval()
						b, m := newBkt(kind), &bktModel{}
						next := 1
						var done strings.Builder
						what := func() string { return fmt.Sprintf("prefilled with %d, then %s", pre, done.String()) }
						add := func(n int) {
							for i := 0; i < n; i++ {
								addBkt(r, kind, b, m, next, what)
								next++
							}
						}
						add(pre)
						for _, o := range seq {
							done.WriteString(ops[o])
							switch ops[o] {
							case "a":
								add(1)
							case "A":
								add(127)
							case "B":
								add(128)
							case "r":
								b.Reset()
								*m = bktModel{}
							case "l":
								checkBkt(r, kind, b, m, what)
							}
						}
						checkBkt(r, kind, b, m, what)
					})
				})
			}
		}
		// two buckets; cloning where the implementation offers it
		d2 := 5
		if r.Thorough() {
			d2 = 7
		}
		ops2 := []string{"a", "b", "A", "B", "r", "s", "c"}
		for _, kind := range kinds {
			for _, pre := range [][2]int{{0, 0}, {127, 0}, {128, 127}, {129, 255}, {200, 200}} {
				kind, pre := kind, pre
				r.Case(fmt.Sprintf("two/%s/prefill %v/depth %d", kind, pre, d2), func() {
					env.Use(env.Fixed(1))
					tuples(d2, len(ops2), func(seq []int) {
						r.Eval()
						b := [2]bkt{newBkt(kind), newBkt(kind)}
						m := [2]*bktModel{{}, {}}
						next := 1
						var done strings.Builder
						what := func() string { return fmt.Sprintf("prefilled with %v, then %s", pre, done.String()) }
						add := func(w, n int) {
							for i := 0; i < n; i++ {
								addBkt(r, kind, b[w], m[w], next, what)
								next++
							}
						}
						add(0, pre[0])
						add(1, pre[1])
						for _, o := range seq {
							done.WriteString(ops2[o])
							switch ops2[o] {
							case "a":
								add(0, 1)
							case "b":
								add(1, 1)
							case "A":
								add(0, 128)
							case "B":
								add(1, 128)
							case "r":
								b[0].Reset()
								*m[0] = bktModel{}
							case "s":
								b[1].Reset()
								*m[1] = bktModel{}
							case "c":
								if c, ok := b[0].(interface{ Clone() *fifo.FifoBucket }); ok {
									b[1] = c.Clone()
									*m[1] = *m[0]
								}
							}
						}
						checkBkt(r, kind, b[0], m[0], what)
						checkBkt(r, kind, b[1], m[1], what)
					})
				})
			}
		}
	}}
