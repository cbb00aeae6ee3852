package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/lsh"

	"goslideverif/env"
	"goslideverif/mc"
)

var familyNames = map[configuration.HashFunctionType]string{
	configuration.WtaHashFunction:                    "wta",
	configuration.DensifiedWtaHashFunction:           "dwta",
	configuration.DensifiedMinhashFunction:           "minhash",
	configuration.SparseRandomProjectionHashFunction: "srp",
}

func families() []configuration.HashFunctionType {
	return []configuration.HashFunctionType{
		configuration.WtaHashFunction, configuration.DensifiedWtaHashFunction,
		configuration.DensifiedMinhashFunction, configuration.SparseRandomProjectionHashFunction}
}

func setFamily(f configuration.HashFunctionType) {
	c := configuration.Default()
	c.HashFunction = f
	configuration.Global = c
}

// address calls HashesToIndex and checks what holds for every input.
func address(r *mc.R, x *lsh.LSH, l, rp int, codes []int, what string) []int {
	in := copyInts(codes)
	idx := x.HashesToIndex(codes)
	r.Step(1)
	if !eqInts(in, codes) {
		r.Failf("%s: codes %v were changed to %v", what, in, codes)
	}
	if len(idx) != l {
		r.Failf("%s: codes %v give %d addresses, want %d", what, in, len(idx), l)
	}
	for t, a := range idx {
		if a < 0 || a >= 1<<rp {
			r.Failf("%s: codes %v give address %d in table %d, outside [0,%d)", what, in, a, t, 1<<rp)
		}
	}
	return idx
}

var c03 = mc.Prop{ID: "C03", Level: "model_checking",
	Rule:        "every code vector over the family's alphabet for every small (K, L, rangePow); boundary code vectors for larger ones; every single-code change in another table; the first call on a new structure against later ones and a copy; a state is a (family, shape, code tuple) whose address was compared with all others",
	Assumptions: []string{"injectivity is claimed for codes in the family's alphabet only; for K beyond the bound it is checked on single-code and boundary differences"},
	Fn: func(r *mc.R) {
		bitsets := []uint64{1, 3, math.MaxInt64, 0x5555555555555555, 0x123456789abcdef1, 1 << 32}
		type shape struct{ k, l, rp int }
		for _, f := range families() {
			alpha, bits := 8, 3
			if f == configuration.SparseRandomProjectionHashFunction {
				alpha, bits = 2, 1
			}
			var shapes []shape
			maxK := 4
			if bits == 1 {
				maxK = 9
			}
			if r.Thorough() {
				maxK++
			}
			for k := 1; k <= maxK; k++ {
				for l := 1; l <= 3; l++ {
					if l > 1 && bits*k > 9 && !r.Thorough() {
						continue
					}
					for _, rp := range []int{0, 1, bits*k - 1, bits * k, bits*k + 1, bits*k + 2} {
						if rp >= 0 && rp <= 15 {
							shapes = append(shapes, shape{k, l, rp})
						}
					}
				}
			}
			for _, s := range shapes {
				f, s := f, s
				r.Case(fmt.Sprintf("all codes/%s/K%d L%d range 2^%d", familyNames[f], s.k, s.l, s.rp), func() {
					setFamily(f)
					what := fmt.Sprintf("%s, K=%d L=%d rangePow=%d", familyNames[f], s.k, s.l, s.rp)
					nb := 1
					if f == configuration.DensifiedMinhashFunction {
						nb = len(bitsets)
					}
					for bi := 0; bi < nb; bi++ {
						src := env.Fixed(3)
						n := 0
						src.BitsF = func() uint64 { n++; return bitsets[(bi+n)%len(bitsets)] }
						env.Use(src)
						r.Eval()
						x := lsh.New(s.k, s.l, s.rp)
						inj := f != configuration.DensifiedMinhashFunction && s.rp >= bits*s.k
						codes := make([]int, s.k*s.l)
						// all tuples in every table, the others cycling through contexts
						first := make([]map[int][]int, s.l)
						for t := 0; t < s.l; t++ {
							first[t] = map[int][]int{}
							tuples(s.k, alpha, func(tu []int) {
								var a int
								for ctx := 0; ctx < 4; ctx++ {
									for i := range codes {
										switch ctx {
										case 0:
											codes[i] = 0
										case 1:
											codes[i] = alpha - 1
										case 2:
											codes[i] = i % alpha
										case 3:
											codes[i] = (i*5 + 3) % alpha
										}
									}
									copy(codes[t*s.k:], tu)
									idx := address(r, x, s.l, s.rp, codes, what)
									if ctx == 0 {
										a = idx[t]
									} else if idx[t] != a {
										r.Failf("%s: table %d with codes %v has address %d or %d depending on the codes of other tables (%v)", what, t, tu, a, idx[t], codes)
									}
								}
								if inj {
									if o, dup := first[t][a]; dup {
										r.Failf("%s: codes %v and %v share address %d of table %d", what, o, tu, a, t)
									}
									first[t][a] = copyInts(tu)
								}
								h := mc.NewH().Add(uint64(f)).Add(uint64(s.k*100 + s.l*1000 + s.rp)).Add(uint64(t*64 + bi))
								for _, c := range tu {
									h = h.Add(uint64(c))
								}
								r.StateHash(uint64(h))
							})
						}
						// every joint vector, twice, for small shapes; contents must not matter
						if s.k*s.l*bits <= 12 {
							memo := map[string][]int{}
							for round := 0; round < 5; round++ {
								switch round { // what was done to the tables in between must not matter
								case 1:
									x.Add(make([]int, s.l), 5)
								case 2:
									x.Clear()
								case 3:
									x.AddSingle(s.l-1, 0, 7)
									x.RetrieveRaw(make([]int, s.l))
									x.Retrieve(0, 0, 0)
								case 4:
									x.Clear()
									x.Clear()
								}
								tuples(s.k*s.l, alpha, func(v []int) {
									idx := address(r, x, s.l, s.rp, v, what)
									key := fmt.Sprint(v)
									if round == 0 {
										memo[key] = idx
									} else if !eqInts(memo[key], idx) {
										r.Failf("%s: codes %v gave %v first and %v later (insertions and clears in between)", what, v, memo[key], idx)
									}
								})
							}
						}
					}
				})
			}
			// the first address computed by a new structure, and later ones
			for _, s := range []shape{{1, 1, 1}, {2, 2, 6}, {3, 3, 7}, {4, 5, 6}, {5, 9, 8}, {6, 70, 3}} {
				f, s := f, s
				r.Case(fmt.Sprintf("first call/%s/K%d L%d range 2^%d", familyNames[f], s.k, s.l, s.rp), func() {
					setFamily(f)
					what := fmt.Sprintf("%s, K=%d L=%d rangePow=%d", familyNames[f], s.k, s.l, s.rp)
					for seed := uint64(0); seed < 64; seed++ {
						for vi := 0; vi < 8; vi++ {
							codes := make([]int, s.k*s.l)
							for i := range codes {
								codes[i] = []int{i % alpha, alpha - 1, (i*5 + 3 + vi) % alpha, 1, (i/2 + vi) % alpha, i * i % alpha, (i + 1) % alpha, vi % alpha}[vi]
							}
							src := env.Fixed(seed)
							if int(seed) < len(bitsets) {
								n := int(seed)
								src.BitsF = func() uint64 { n++; return bitsets[n%len(bitsets)] }
							}
							env.Use(src)
							r.Eval()
							x := lsh.New(s.k, s.l, s.rp)
							first := address(r, x, s.l, s.rp, codes, what)
							y := x.Clone()
							zero := make([]int, len(codes))
							address(r, x, s.l, s.rp, zero, what)
							for k := 0; k < 3; k++ {
								if again := address(r, x, s.l, s.rp, codes, what); !eqInts(again, first) {
									r.Failf("%s: codes %v gave %v at first and %v in call %d (seed %d)", what, codes, first, again, k+2, seed)
								}
							}
							if c := address(r, y, s.l, s.rp, codes, what); !eqInts(c, first) {
								r.Failf("%s: codes %v give %v, and %v in a copy (seed %d)", what, codes, first, c, seed)
							}
							h := mc.NewH().Add(uint64(f)).Add(uint64(s.k)).Add(seed).Add(uint64(vi)).Add(1 << 40)
							r.StateHash(uint64(h))
						}
					}
				})
			}
			// codes outside the alphabet, large shapes
			for _, s := range []shape{{1, 1, 0}, {1, 2, 6}, {2, 2, 6}, {6, 2, 6}, {2, 3, 12}, {7, 3, 8}, {10, 2, 4}, {21, 2, 10}, {22, 2, 6}, {25, 1, 6}, {40, 2, 9}, {64, 1, 5}, {70, 1, 10}, {5, 1, 15}, {15, 2, 15}} {
				f, s := f, s
				r.Case(fmt.Sprintf("any codes/%s/K%d L%d range 2^%d", familyNames[f], s.k, s.l, s.rp), func() {
					setFamily(f)
					env.Use(env.Fixed(4))
					r.Eval()
					what := fmt.Sprintf("%s, K=%d L=%d rangePow=%d", familyNames[f], s.k, s.l, s.rp)
					x := lsh.New(s.k, s.l, s.rp)
					vals := []int{0, 1, 2, 7, 8, 127, 783, 1 << 20, 1<<31 - 1, 1 << 31, math.MaxInt64, -1, math.MinInt64}
					base := [][]int{}
					for _, b := range []int{0, 1, 7, 783, math.MinInt64} {
						v := make([]int, s.k*s.l)
						for i := range v {
							v[i] = b
							if b == 783 {
								v[i] = (i * 37) % 784
							}
						}
						base = append(base, v)
					}
					for _, b := range base {
						ref := address(r, x, s.l, s.rp, b, what)
						for i := range b {
							for _, val := range vals {
								v := copyInts(b)
								v[i] = val
								idx := address(r, x, s.l, s.rp, v, what)
								h := mc.NewH().Add(uint64(f)).Add(uint64(s.k)).Add(uint64(i)).Add(uint64(val)).Add(uint64(b[0]))
								r.StateHash(uint64(h))
								for t := range idx {
									if t != i/s.k && idx[t] != ref[t] {
										r.Failf("%s: changing code %d of %v to %d moves table %d from %d to %d", what, i, b, val, t, ref[t], idx[t])
									}
								}
								if !eqInts(address(r, x, s.l, s.rp, v, what), idx) {
									r.Failf("%s: codes %v do not always give %v", what, v, idx)
								}
								// single-code differences within the alphabet stay separate
								if alphaOK := val >= 0 && val < alpha && b[0] >= 0 && b[0] < alpha && b[i] < alpha; alphaOK && b[0] != 783 &&
									f != configuration.DensifiedMinhashFunction && s.rp >= bits*s.k && val != b[i] && idx[i/s.k] == ref[i/s.k] {
									r.Failf("%s: changing code %d of %v to %d does not change the address", what, i, b, val)
								}
							}
						}
					}
				})
			}
		}
	}}
