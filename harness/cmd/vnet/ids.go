package main

// Ids of owners are arbitrary distinct numbers: every history over them is
// also explored with ids that fall, lie far apart, alternate in sign or are
// huge.

type idScheme struct {
	name string
	at   func(k int) int
}

// rising is the default: generation k has id k.
var rising = idScheme{"", func(k int) int { return k }}

var otherIds = []idScheme{
	{"falling ids", func(k int) int { return 1 - k }},
	{"ids 2^32 apart", func(k int) int { return k << 32 }},
	{"ids of both signs", func(k int) int {
		if k%2 == 1 {
			return -k/2 - 1
		}
		return k/2 + 1
	}},
	{"huge ids", func(k int) int { return 1<<60 + k }},
}

var ids = rising

// cow is the id for generation k.
func cow(k int) int { return ids.at(k) }

// withIds runs f with ids from s.
func withIds(s idScheme, f func()) {
	old := ids
	ids = s
	defer func() { ids = old }()
	f()
}

// suffix tells the scheme apart in the names of cases.
func (s idScheme) suffix() string {
	if s.name == "" {
		return ""
	}
	return ", " + s.name
}
