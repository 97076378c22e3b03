//go:build testing

package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	p := os.Getenv("CPUPROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	must(err)
	must(pprof.StartCPUProfile(f))
	return func() { pprof.StopCPUProfile(); f.Close() }
}
