// vrace runs concurrent hash queries freely; it is built with -race.
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"

	"goslideverif/queries"
)

func main() {
	fam, _ := strconv.Atoi(os.Args[1])
	a, _ := strconv.Atoi(os.Args[2])
	b, _ := strconv.Atoi(os.Args[3])
	variants := []int{a, b, a, b}
	for round := 0; round < 60; round++ { // first queries on new hashers
		firstQueries([]int{3, 9, 40}[round%3], fam, variants, round)
	}
	for _, dim := range []int{3, 9, 40} {
		s := queries.New(fam, dim, 2, 3, 2)
		var want [2][3]string
		for i := range want {
			for v := range want[i] {
				want[i][v] = s.Query(variants[i], v)
			}
		}
		var wg sync.WaitGroup
		var bad sync.Map
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 300; i++ {
					v := (i + g) % 3
					if got := s.Query(variants[g], v); got != want[g%2][v] {
						bad.Store(g, fmt.Sprintf("query of vector %d gives %s, alone %s", v, got, want[g%2][v]))
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		bad.Range(func(k, v interface{}) bool {
			fmt.Println(v)
			os.Exit(3)
			return false
		})
	}
}

// firstQueries are made by two goroutines at once; they must agree with the
// same queries made later.
func firstQueries(dim, fam int, variants []int, round int) {
	s := queries.New(fam, dim, 2, 3, 2)
	var got [2]string
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range got {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[g] = s.Query(variants[g], (g*round)%3)
		}()
	}
	close(start)
	wg.Wait()
	for g := range got {
		if want := s.Query(variants[g], (g*round)%3); got[g] != want {
			fmt.Printf("the first query, of vector %d, gives %s, later %s\n", (g*round)%3, got[g], want)
			os.Exit(3)
		}
	}
}
