//go:build testing
// +build testing

package main

import (
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// What counts as getting nowhere. The limits are in processor time of this process, so a slow or busy machine doesn't matter:
// all of a quick check takes less.
const (
	stuckCPU  = 250 * time.Second
	stuckIdle = 150      // seconds in a row without any processor time used: a deadlock
	hugeHeap  = 16 << 30 // bytes
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch ends the run if the application never comes back from what it has been asked to do (or eats up all memory meanwhile).
// That is a violation of whatever was promised about what it has been asked, if the application is what's running.
func watch(rep *Report, finish func() int) {
	beats, cpu, idle, last := int64(0), time.Duration(0), 0, time.Duration(0)
	for {
		time.Sleep(time.Second)
		now := cpuTime()
		if now-last < 5*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		last = now
		if b := atomic.LoadInt64(&rep.beats); b != beats {
			beats, cpu, idle = b, now, 0
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		switch {
		case ms.HeapAlloc > hugeHeap:
			why = "takes up all memory"
		case now-cpu > stuckCPU:
			why = "goes on for ever"
		case idle > stuckIdle:
			why = "is blocked for ever"
		default:
			continue
		}
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		found := false
		for _, g := range strings.Split(string(buf), "\n\n") {
			if i := strings.Index(g, "github.com/arterynetwork/artr/x/"); i >= 0 {
				found = true
				rep.Violate(nil, "hang", "the application %s:\n%s", why, clip(g, 3000))
				break
			}
		}
		if !found {
			rep.Fatal("the harness %s:\n%s", why, clip(string(buf), 6000))
		}
		rep.mu.Lock() // nobody else says anything more
		os.Exit(finish())
	}
}
