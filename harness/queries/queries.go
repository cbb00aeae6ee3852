// Package queries makes hash queries on shared hashers and tables.
package queries

import (
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"
)

type pair = index_value.Pair

// Setup is shared hashers and tables.
type Setup struct {
	Family string
	Hash   []func(v int) []int // query variants: dense, sparse, sparse listed backwards
	Tables *lsh.LSH
}

// Vectors are the queried vectors.
func Vectors(dim int) [][]float64 {
	a := make([]float64, dim)
	b := make([]float64, dim)
	c := make([]float64, dim)
	for i := range a {
		a[i] = float64((i*7+3)%11) - 4
		b[i] = float64((i*5+1)%7)*0.5 - 1
		if i == dim/2 {
			c[i] = 2
		}
	}
	return [][]float64{a, b, c}
}

func sparse(v []float64) []pair {
	var p []pair
	for i, x := range v {
		if x != 0 {
			p = append(p, pair{Index: i, Value: x})
		}
	}
	return p
}

// reversed lists the pairs in descending order.
func reversed(v []float64) []pair {
	p := sparse(v)
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Families in the order of configuration.HashFunctionType.
var Families = []string{"wta", "dwta", "minhash", "srp"}

// New builds hashers and filled tables.
func New(family, dim, k, l, rp int) *Setup {
	c := configuration.Default()
	c.HashFunction = configuration.HashFunctionType(family + 1)
	configuration.Global = c
	vs := Vectors(dim)
	s := &Setup{Family: Families[family], Tables: lsh.New(k, l, rp)}
	const topK = 3
	switch c.HashFunction {
	case configuration.WtaHashFunction:
		h := wta_hash.New(k*l, dim)
		s.Hash = append(s.Hash, func(v int) []int { return h.GetHashDense(vs[v]) },
			func(v int) []int { return h.GetHash(sparse(vs[v])) },
			func(v int) []int { return h.GetHash(reversed(vs[v])) })
	case configuration.DensifiedWtaHashFunction:
		h := densified_wta_hash.New(k*l, dim)
		s.Hash = append(s.Hash, func(v int) []int { return h.GetHashEasy(vs[v], topK) },
			func(v int) []int { return h.GetHash(sparse(vs[v])) },
			func(v int) []int { return h.GetHash(reversed(vs[v])) })
	case configuration.DensifiedMinhashFunction:
		h := densified_minhash.New(k*l, dim)
		ids := h.GetMap(dim)
		s.Hash = append(s.Hash, func(v int) []int { return h.GetHashEasyDense(ids, vs[v], topK) },
			func(v int) []int { return h.GetHashEasy(ids, sparse(vs[v]), topK) },
			func(v int) []int { return h.GetHashEasy(ids, reversed(vs[v]), topK) })
	case configuration.SparseRandomProjectionHashFunction:
		h := sparse_random_projection.New(dim, k*l, 2)
		s.Hash = append(s.Hash, func(v int) []int { return h.GetHash(vs[v]) },
			func(v int) []int { return h.GetHashSparse(sparse(vs[v])) },
			func(v int) []int { return h.GetHashSparse(reversed(vs[v])) })
	}
	for i := 0; i < 40; i++ {
		for t := 0; t < l; t++ {
			s.Tables.AddSingle(t, (i*3+t)%(1<<rp), i)
		}
	}
	return s
}

// Query hashes, addresses and looks up.
func (s *Setup) Query(variant, v int) string {
	codes := s.Hash[variant](v)
	addr := s.Tables.HashesToIndex(codes)
	found := s.Tables.RetrieveRaw(addr)
	one := s.Tables.Retrieve(0, addr[0], 1)
	return fmt.Sprint(codes, addr, found, one)
}
