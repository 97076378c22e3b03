//go:build testing
// +build testing

package main

func init() {
	register(Check{
		ID:   "A01",
		Rule: "one evaluation per delivered transaction (whole persisted state compared before and after) and per probe; distinct by kind, forgery, error and number of messages; and one per block executed again by a node nobody has asked anything",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 50, 9
			if thorough {
				n, blocks = 120, 250
			}
			wls := mixedWorkloads(seed+3, n, blocks, txs)
			for i := range wls {
				wls[i].HostileP, wls[i].MultiP = 0.35, 0.4
			}
			runParallel(rep, n, func(i int) *World {
				w := newWorld(wls[i], rep, &monRecord{}, &monAtomic{}, &monProbe{})
				w.C.Record = true
				return w
			}, func(w *World) {
				w.Run()
				replay(w, "plain", w.Mons[0].(*monRecord).outs, newRng(w.WL.Seed+6)) // the same without having been asked
			})
			rep.Need("out-of-gas", 100)
			rep.Need("failed-multi", 100)
			rep.Need("forged", 100)
			rep.Need("succeeded", 300)
			rep.Need("probes", 500)
		},
	})
	register(Check{
		ID:   "A02",
		Rule: "one evaluation per block executed again on another node instance; distinct by way of replaying and resulting application hash",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 20, 70, 8
			if thorough {
				n, blocks = 100, 300
			}
			wls := mixedWorkloads(seed+4, n, blocks, txs)
			recs := make([]*monRecord, n)
			runParallel(rep, n, func(i int) *World {
				recs[i] = &monRecord{}
				w := newWorld(wls[i], rep, recs[i])
				w.C.Record = true
				return w
			}, func(w *World) {
				w.Run()
				m := w.Mons[0].(*monRecord)
				r := newRng(w.WL.Seed + 5)
				replay(w, "plain", m.outs, r)
				replay(w, "settings", m.outs, r)
				replay(w, "restart", m.outs, r)
				replay(w, "crash", m.outs, r)
				replay(w, "asked", m.outs, r)
				replay(w, "commit", m.outs, r)
			})
			rep.Need("asked-between", 500)
			rep.Need("crashes-in-commit", 100)
			rep.Need("restarts", 100)
			rep.Need("crashes", 100)
			rep.Need("blocks-replayed", 1000)
			rep.Need("txs-replayed", 1000)
		},
	})
	register(Check{
		ID:   "Q01",
		Rule: "one evaluation per query sent through the query router after a commit; distinct by query and result code",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 70, 8
			if thorough {
				n, blocks = 120, 250
			}
			runWorlds(rep, mixedWorkloads(seed+5, n, blocks, txs), func(Workload) []Monitor { return []Monitor{&monQuery{}} })
			rep.Need("queries", 5000)
		},
	})
}
