// Package env decides the environment of the code under test: random draws,
// hash seeds and values, and the starting points of map iterations.
package env

import (
	"hash/maphash"
	"math/rand"
	"time"

	"goslideverif/mc"
)

// Source answers random draws with the functions that are set, and with a
// fixed pseudo-random stream otherwise.
type Source struct {
	IntnF  func(n int64) int64
	BitsF  func() uint64
	NormF  func() float64
	FloatF func() float64
	// MarkF and BackF, when set, save and restore what NormF depends on.
	MarkF func() int
	BackF func(int)
	State uint64
	Draws int
	Limit int // more draws than this raise mc.Livelock (0: 1e7)
}

func (s *Source) next() uint64 {
	s.State += 0x9E3779B97F4A7C15
	z := s.State
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (s *Source) count() {
	s.Draws++
	lim := s.Limit
	if lim == 0 {
		lim = 10000000
	}
	if s.Draws > lim {
		panic(mc.Livelock{Points: s.Draws})
	}
}

func (s *Source) Intn(n int64) int64 {
	s.count()
	if s.IntnF != nil {
		return s.IntnF(n)
	}
	return int64(s.next() % uint64(n))
}

func (s *Source) Bits() uint64 {
	s.count()
	if s.BitsF != nil {
		return s.BitsF()
	}
	return s.next()
}

func (s *Source) Norm() float64 {
	s.count()
	if s.NormF != nil {
		return s.NormF()
	}
	return float64(int64(s.next()))/(1<<63)*4 - 0.01
}

func (s *Source) Float() float64 {
	s.count()
	if s.FloatF != nil {
		return s.FloatF()
	}
	return float64(s.next()>>11) / (1 << 53)
}

// seeds remembers, within one execution, where the draws were when a seed was
// first used.
var seeds = map[int64]place{}

type place struct {
	state uint64
	mark  int
}

var repeats uint64

func init() {
	mc.OnStart(func() {
		if len(seeds) > 0 {
			seeds = map[int64]place{}
		}
		repeats = 0
	})
}

// Seed gives, after a seed that was used before, the same draws as then.
// Seeds taken from the clock in nanoseconds never repeat. Enumerated draws do
// not depend on seeds.
func (s *Source) Seed(seed int64) {
	if s.IntnF != nil || s.BitsF != nil {
		return
	}
	if d := seed - time.Now().UnixNano(); d < 3600e9 && d > -3600e9 {
		return
	}
	if p, ok := seeds[seed]; ok {
		repeats++
		s.State = p.state
		if s.BackF != nil {
			s.BackF(p.mark)
		}
		return
	}
	p := place{state: s.State}
	if s.MarkF != nil {
		p.mark = s.MarkF()
	}
	seeds[seed] = p
}

// hashSeed is the next seed of hash/maphash, which does not depend on Seed.
func (s *Source) hashSeed() uint64 { return (s.Bits() + repeats*0x9E3779B97F4A7C15) | 1 }

// FloatOf draws from the fixed stream.
func (s *Source) FloatOf() float64 { return float64(s.next()>>11) / (1 << 53) }

// Use makes s the source of randomness; map iterations start at a place which
// depends on s only.
func Use(s *Source) {
	rand.VerifHook = s
	maphash.VerifSeed = s.hashSeed
	maphash.VerifHash = nil
	rand.VerifMapOrder(true, mapOffset(s.State))
}

// mapOffset is where map iterations start under a source.
func mapOffset(state uint64) uint64 { return state * 0x9E3779B97F4A7C15 >> 40 }

// Fixed is a fixed stream of answers, selected by seed.
func Fixed(seed uint64) *Source { return &Source{State: seed * 1000003} }

// Choices lets c decide every bounded draw; bits, when given, are the
// alternatives for full-width draws.
func Choices(c *mc.Chooser, seed uint64, bits []uint64) *Source {
	s := Fixed(seed)
	s.IntnF = func(n int64) int64 {
		if n == 1 {
			return 0
		}
		return int64(c.Choose(int(n)))
	}
	if len(bits) > 0 {
		s.BitsF = func() uint64 { return bits[c.Choose(len(bits))] }
	}
	return s
}

// Deviations lets c replace every bounded draw of a fixed stream by another
// answer; the fixed stream is the default.
func Deviations(c *mc.Chooser, seed uint64) *Source {
	s := Fixed(seed)
	s.IntnF = func(n int64) int64 {
		d := int64(s.next() % uint64(n))
		if n == 1 {
			return 0
		}
		return (d + int64(c.Choose(int(n)))) % n
	}
	return s
}

// MapOrder fixes where map iterations start.
func MapOrder(offset uint64) { rand.VerifMapOrder(true, offset) }

// HashValues decides the values of hash/maphash; nil restores the real ones.
func HashValues(f func(b []byte, seed uint64) uint64) { maphash.VerifHash = f }
