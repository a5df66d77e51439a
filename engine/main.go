package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

var (
	rootBudget = 400 * time.Second
	feasMS     = 400
	oblMS      = 15000
	houdiniMS  = 4000
	fuel       = 3
)

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	roots := flag.String("roots", "", "comma separated roots, for debugging")
	verbose := flag.Bool("v", false, "")
	check := flag.String("check", "", "property to check")
	tier := flag.String("tier", "quick", "")
	dir := flag.String("dir", "/verif", "")
	seed := flag.Int64("seed", 1, "")
	flag.Parse()
	if *check != "" {
		os.Exit(checkMain(*repo, *dir, *check, *tier, *seed))
	}
	t0 := time.Now()
	p, err := loadProg(*repo, *spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	fmt.Printf("loaded in %v; dropped %v\n", time.Since(t0).Round(time.Millisecond), p.dropped)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, r := range strings.Split(*roots, ",") {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			rr := p.runRoot(r)
			mu.Lock()
			defer mu.Unlock()
			rr.print(*verbose)
			fmt.Printf("%s: %v, %v\n", r, rr.summary(), time.Since(t).Round(time.Millisecond))
		}()
	}
	wg.Wait()
	fmt.Printf("total %v, queries %d, solver %v\n", time.Since(t0).Round(time.Millisecond), stats.queries, time.Duration(stats.nanos).Round(time.Millisecond))
}
