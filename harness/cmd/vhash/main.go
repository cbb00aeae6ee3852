// vhash decides the properties of buckets, tables and hash families.
package main

import "goslideverif/mc"

func main() {
	mc.Main([]mc.Prop{c01, c02, c03, c04, c05, c06, c07})
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func copyInts(a []int) []int { return append([]int{}, a...) }

// tuples calls f with every vector of n values in [0,base).
func tuples(n, base int, f func([]int)) {
	v := make([]int, n)
	for {
		f(v)
		i := n - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < base {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
