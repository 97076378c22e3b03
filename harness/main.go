//go:build testing
// +build testing

package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // how cases are made and what makes one distinct
	Run  func(rep *Report, thorough bool, seed int64)
}

var checks = map[string]Check{}

func register(c Check) { checks[c.ID] = c }

// appPanic marks a panic that came out of the application under test rather than out of the harness.
type appPanic struct {
	val   interface{}
	stack string
	phase string
}

func guardApp(phase string) {
	if e := recover(); e != nil {
		if ap, ok := e.(appPanic); ok {
			panic(ap)
		}
		panic(appPanic{e, string(debug.Stack()), phase})
	}
}

// runWorlds runs one world per workload, in parallel. Which ones there are and what they do depends on the seed alone.
func runWorlds(rep *Report, wls []Workload, mk func(wl Workload) []Monitor) {
	runParallel(rep, len(wls), func(i int) *World { return newWorld(wls[i], rep, mk(wls[i])...) }, func(w *World) { w.Run() })
}

func runParallel(rep *Report, n int, mk func(i int) *World, run func(w *World)) {
	sem := make(chan struct{}, workers)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			var w *World
			defer func() {
				if e := recover(); e != nil {
					if ap, ok := e.(appPanic); ok {
						rep.Violate(w, "chain-halt", "the application panicked in %s: %v\n%s", ap.phase, ap.val, clip(ap.stack, 3000))
						return
					}
					rep.Fatal("harness panic in world %d: %v\n%s", i, e, clip(string(debug.Stack()), 4000))
				}
			}()
			w = mk(i)
			if onlyWorld != 0 && w.WL.Seed != onlyWorld {
				return
			}
			run(w)
			rep.Count("worlds", 1)
		}(i)
	}
	wg.Wait()
}

// parallel runs f(0) ... f(n-1).
func parallel(n int, f func(k int)) {
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); f(k) }(k)
	}
	wg.Wait()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var workers = 8

// For looking into a violation: only this world is run, and what happens at this height of it is shown.
var onlyWorld, dumpHeight int64

// oddP makes so many of all transactions odd, for looking what monitors say to that.
var oddP float64

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick | thorough")
	seed := flag.Int64("seed", 1, "seed")
	evidence := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "/tmp/verif-replays", "where violations go")
	known := flag.String("known", "", "known findings file")
	list := flag.Bool("list", false, "list properties")
	flag.IntVar(&workers, "workers", 8, "parallel worlds")
	flag.Int64Var(&onlyWorld, "world", 0, "run only the world with this seed")
	flag.Int64Var(&dumpHeight, "dump", 0, "show what happens at this height")
	flag.Float64Var(&oddP, "odd", 0, "share of odd transactions")
	flag.Parse()
	debug.SetGCPercent(400)
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	c, ok := checks[*prop]
	if !ok {
		fmt.Println("no such property:", *prop)
		os.Exit(2)
	}
	rep := newReport(c.ID, *tier, *seed)
	rep.rule = c.Rule
	rep.loadKnown(*known)
	var once sync.Once
	code := 0
	finish := func() int {
		once.Do(func() { code = rep.Finish(*evidence, *replays) })
		return code
	}
	if c.ID == "C04" || !strings.HasPrefix(c.ID, "C") { // those wait for other processes
		go watch(rep, finish)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if ap, ok := e.(appPanic); ok {
					rep.Violate(nil, "chain-halt", "the application panicked in %s: %v\n%s", ap.phase, ap.val, clip(ap.stack, 3000))
					return
				}
				rep.Fatal("harness panic: %v\n%s", e, clip(string(debug.Stack()), 4000))
			}
		}()
		defer startProf()()
		c.Run(rep, *tier == "thorough", *seed)
	}()
	os.Exit(finish())
}
