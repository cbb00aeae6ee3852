// vio decides the properties of the dataset reader and the configuration loader.
package main

import "goslideverif/mc"

func main() { mc.Main([]mc.Prop{c17, c18, c19}) }

// tuples calls f with every vector of n values in [0,base).
func tuples(n, base int, f func([]int)) {
	v := make([]int, n)
	for {
		f(v)
		i := n - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < base {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
