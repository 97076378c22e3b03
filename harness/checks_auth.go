//go:build testing
// +build testing

package main

import "fmt"

func init() {
	register(Check{
		ID:   "A05",
		Rule: "one evaluation per transaction properly signed and per forged one; distinct by kind of message, way of forging, and verdict",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 16, 50, 8
			if thorough {
				n, blocks = 120, 250
			}
			wls := mixedWorkloads(seed+16, n, blocks, txs)
			for i := range wls {
				wls[i].HostileP, wls[i].MultiP = 0, 0.25
			}
			runWorlds(rep, wls, func(Workload) []Monitor { return []Monitor{&monAuth{}} })
			for _, k := range []string{"other's key", "other party", "other's signature", "stranger", "one for all", "swapped", "unsigned", "zero signature", "flipped bit", "other chain", "other account number", "future", "past", "changed memo", "changed gas", "doubled message", "expired", "replay"} {
				rep.Need("forged:"+k, 50)
			}
			for _, m := range messages {
				rep.Need(fmt.Sprintf("accepted %T", m), 1)
			}
		},
	})
}
