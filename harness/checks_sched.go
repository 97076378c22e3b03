//go:build testing
// +build testing

package main

func init() {
	register(Check{
		ID:   "S01",
		Rule: "one evaluation per planted task performed and per range of tasks asked for; distinct by handler, outcome, delay, what the task does to others and how many were due together",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 90, 3
			if thorough {
				n, blocks = 160, 600
			}
			wls := mixedWorkloads(seed+110, n, blocks, txs)
			for i := range wls {
				wls[i].EvP, wls[i].HostileP = 0, 0
				wls[i].Spec.N = 14
				wls[i].TNext, wls[i].TSec, wls[i].THour, wls[i].TDay, wls[i].TMonth = 50, 12, 20, 12, 2
			}
			runWorlds(rep, wls, func(Workload) []Monitor { return []Monitor{&monSched{}} })
			rep.Need("performed", 2000)
			rep.Need("blocks with several", 300)
			rep.Need("panicked", 100)
			rep.Need("cancelled by a task", 50)
			rep.Need("cancelled", 50)
			rep.Need("module tasks due", 2000)
			rep.Need("restarts", 50)
			rep.Need("ranges", 200)
		},
	})
}
