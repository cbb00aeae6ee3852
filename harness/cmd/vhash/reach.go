package main

import (
	"fmt"

	"goslideverif/env"
	"goslideverif/mc"
)

// reach explores every outcome of the bounded draws of a construction and
// checks that the constructions differ in exactly the expected number of
// ways: none is impossible and the draws are independent. A construction
// without bounded draws is left alone.
func reach(r *mc.R, key string, bits []uint64, want int, build func() string) {
	r.Case("reach/"+key, func() {
		seen := map[string]bool{}
		skipped := r.Skipped
		runs := 0
		r.Explore(-1, 0, func(c *mc.Chooser) {
			r.Eval()
			runs++
			src := env.Choices(c, 1, bits)
			if len(bits) > 0 {
				src.FloatF = func() float64 { return 0.25 + 0.5*float64(c.Choose(2)) }
			}
			env.Use(src)
			seen[build()] = true
			env.Use(env.Fixed(9))
		})
		r.StateHash(uint64(mc.NewH().Add(uint64(len(seen))).Add(uint64(runs))))
		if runs > 1 && r.Skipped == skipped && !seen[tableKey(nil)] && !seen[tableKey(nil, nil)] && len(seen) != want {
			r.Failf("%s: all %d outcomes of the draws construct %d different hashers, want %d", key, runs, len(seen), want)
		}
	})
}

// permutations of d things, p times over.
func factPow(d, p int) int {
	f, t := 1, 1
	for i := 2; i <= d; i++ {
		f *= i
	}
	for i := 0; i < p; i++ {
		t *= f
	}
	return t
}

func tableKey(a ...[]int) string { return fmt.Sprint(a) }
