package env

import (
	"hash/maphash"
	"math/rand"
	"runtime"
)

// tasks answers the draws of registered goroutines from their own sources,
// without any synchronisation between them.
type tasks struct {
	s [2]struct {
		goid uint64
		src  *Source
	}
}

var current tasks

func (t *tasks) source() *Source {
	id := runtime.VerifGoid()
	for i := range t.s {
		if t.s[i].goid == id {
			return t.s[i].src
		}
	}
	return t.s[0].src // a goroutine started by the code under test
}

func (t *tasks) Intn(n int64) int64 { return t.source().Intn(n) }
func (t *tasks) Bits() uint64       { return t.source().Bits() }
func (t *tasks) Norm() float64      { return t.source().Norm() }
func (t *tasks) Float() float64     { return t.source().Float() }

// Seed is ignored: two tasks have no common order of draws.
func (t *tasks) Seed(int64) {}

// UseTasks lets every registered goroutine draw from its own source.
func UseTasks() {
	current = tasks{}
	rand.VerifHook = &current
	maphash.VerifSeed = func() uint64 { return current.Bits() | 1 }
	maphash.VerifHash = nil
	rand.VerifMapOrder(true, 5)
}

// Register makes s the source of the calling goroutine, which is task i.
func Register(i int, s *Source) {
	current.s[i].goid, current.s[i].src = runtime.VerifGoid(), s
}
