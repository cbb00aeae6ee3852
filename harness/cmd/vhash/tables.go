package main

import (
	"sort"

	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/wta_hash"

	"goslideverif/mc"
	"goslideverif/peek"
)

// preferred sorts the names of tables, the usual ones first.
func preferred(t map[string][]int, usual ...string) []string {
	var names []string
	for n := range t {
		names = append(names, n)
	}
	rank := func(n string) int {
		for i, u := range usual {
			if n == u {
				return i
			}
		}
		return len(usual)
	}
	sort.Slice(names, func(i, j int) bool {
		if a, b := rank(names[i]), rank(names[j]); a != b {
			return a < b
		}
		return names[i] < names[j]
	})
	return names
}

// wtaTable is the table of a hasher's windows; nil if it has no such table.
func wtaTable(h *wta_hash.WtaHash, n, dim int) []int {
	t := peek.IntTables(h)
	for _, name := range preferred(t, "indices") {
		x := t[name]
		if len(x) >= 8*n && (name == "indices" || permutationsFault(x, dim) < 0) {
			return x
		}
	}
	return nil
}

// permutationsFault finds the first row of dim entries that does not list
// distinct coordinates; -1 if there is none.
func permutationsFault(idx []int, dim int) int {
	for p := 0; p*dim < len(idx); p++ {
		seen := make([]bool, dim)
		for j := 0; j < dim && p*dim+j < len(idx); j++ {
			c := idx[p*dim+j]
			if c < 0 || c >= dim || seen[c] {
				return p
			}
			seen[c] = true
		}
	}
	return -1
}

// dwtaTables are the tables of bins and positions; nil if there are none.
func dwtaTables(h *densified_wta_hash.DensifiedWtaHash, n, dim int) (idx, pos []int) {
	t := peek.IntTables(h)
	names := preferred(t, "indices", "pos")
	for _, a := range names {
		for _, b := range names {
			x, y := t[a], t[b]
			if a == b || len(x) != len(y) || len(x) < 8*n || len(x)%dim != 0 {
				continue
			}
			if a == "indices" && b == "pos" || placesFault(x, y, dim) == nil {
				return x, y
			}
		}
	}
	return nil, nil
}

// placesFault finds an entry that does not put a coordinate at a place of its
// own: permutation, coordinate, bin, position.
func placesFault(idx, pos []int, dim int) []int {
	for p := 0; p < len(idx)/dim; p++ {
		seen := make([]bool, dim)
		for c := 0; c < dim; c++ {
			b, q := idx[p*dim+c], pos[p*dim+c]
			where := b*8 + q - p*dim
			if q < 0 || q > 7 || where < 0 || where >= dim || seen[where] {
				return []int{p, c, b, q}
			}
			seen[where] = true
		}
	}
	return nil
}

// observeBins finds the places of the coordinates with dense vectors: a
// coordinate is in the bins whose codes tell whether it is the largest or the
// smallest of all.
func observeBins(r *mc.R, h *densified_wta_hash.DensifiedWtaHash, n, dim int) [][]place {
	bins := make([][]place, n)
	v := make([]float64, dim)
	for c := 0; c < dim; c++ {
		r.Tick()
		v[c] = 1
		hi := copyInts(h.GetHashEasy(v, 30))
		v[c] = -1
		lo := h.GetHashEasy(v, 30)
		v[c] = 0
		for b := 0; b < n && b < len(hi) && b < len(lo); b++ {
			if hi[b] != lo[b] || dim == 1 {
				bins[b] = append(bins[b], place{c, hi[b]})
			}
		}
	}
	r.Note("hashers observed from outside only", 1)
	return bins
}
