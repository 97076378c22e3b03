//go:build testing
// +build testing

package main

import (
	"fmt"
	"time"

	voting "github.com/arterynetwork/artr/x/voting/types"
)

var refProps = []voting.ProposalType{voting.PROPOSAL_TYPE_DUST_DELEGATION, voting.PROPOSAL_TYPE_TRANSITION_PRICE, voting.PROPOSAL_TYPE_MIN_DELEGATE}

// refWorlds are long histories of referral networks: lapsing subscriptions, compression, banishment, returns, moves.
func refWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 24, 130, 3
	if thorough {
		n, blocks = 200, 500
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.Shape = []string{"random", "deep", "triple", "chain", "deep", "binary"}[i%6]
		sp.N = []int{30, 45, 60, 26}[(i/4)%4]
		sp.Tops = 1 + i%2
		sp.ActiveP = []float64{0.5, 0.8, 0.95}[i%3]
		sp.DelegP = []float64{0.2, 0.5, 0.9}[(i/3)%3]
		sp.BanP = []float64{0.2, 0, 0.4, 0.1, 0.3}[i%5]
		wl.Ops = map[string]int{"backdel": 3, "backpay": 1, "reqtrans": 14, "restrans": 12, "createacc": 6, "paytariff": 5, "delegate": 6, "delegatebig": 2, "revoke": 6, "revokeall": 6, "send": 4, "updateprofile": 2, "propose": 2, "vote": 5}
		wl.PropTypes = refProps
		wl.HostileP, wl.MultiP, wl.EvP, wl.MissP, wl.SickP = 0, 0.03, 0, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 70, 6, 8, 12, 4
	}
	return wls
}

// statusWorlds are rich networks around the thresholds of statuses.
func statusWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 15, 70, 3
	if thorough {
		n, blocks = 120, 300
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.Shape = []string{"triple", "triple", "random", "binary", "chain"}[i%5]
		sp.N = []int{41, 60, 130, 180, 50}[i%5]
		if i%5 == 1 {
			sp.N = 180
			wl.Blocks = blocks * 2 / 3
		}
		sp.Tops = 1
		sp.Rich = []int64{6_000_000000, 20_000_000000, 80_000_000000}[(i/5)%3]
		sp.Main = 4 * sp.Rich
		sp.ActiveP = []float64{0.9, 0.97, 1}[i%3]
		sp.DelegP = 0.7
		sp.Day = []time.Duration{24 * time.Hour, time.Hour}[i%2]
		wl.Ops = map[string]int{"reqtrans": 10, "restrans": 12, "createacc": 2, "paytariff": 10, "delegate": 10, "delegatebig": 8, "revoke": 6, "revokeall": 10, "send": 2}
		wl.HostileP, wl.MultiP, wl.EvP, wl.MissP, wl.SickP = 0, 0.02, 0, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 70, 6, 8, 16, 2
		if k := i / 3; i%3 == 2 && k < 5 { // for the highest statuses
			sp.Shape = "three"
			sp.N = []int{170, 330, 1840, 950, 210}[k]
			sp.Rich = []int64{10_000_000000, 20_000_000000, 30_000_000000, 20_000_000000, 20_000_000000}[k]
			sp.ActiveP, sp.Main, sp.Day = 1, 10_000_000000, 24*time.Hour
			if sp.N > 300 {
				wl.Blocks = 10
				wl.Txs = 4
				wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 1, 0, 1, 8, 0
			}
		}
	}
	more := mixedWorkloads(seed+1, len(wls)/2, blocks*2/3, txs)
	for i := range more {
		wl := &more[i]
		wl.Spec = wls[i].Spec
		wl.Ops, wl.HostileP, wl.MultiP, wl.EvP, wl.MissP, wl.SickP = wls[i].Ops, 0, 0.02, 0, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 70, 6, 8, 10, 1
		sp := &wl.Spec
		sp.Shape, sp.N, sp.Day, sp.Main = "legs", []int{120, 170, 150}[i%3], 24*time.Hour, 10_000_000000
		sp.ActiveP, sp.DelegP = []float64{1, 0.97}[i%2], 0.9
		sp.Rich = []int64{9_000_000000, 15_000_000000, 6_000_000000}[i%3]
		if i%4 == 3 {
			sp.N, wl.Blocks = 450, 15
			sp.Rich = 10_000_000000
		}
	}
	return append(wls, more...)
}

// moveWorlds are small networks around the lowest thresholds where people keep moving.
func moveWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 24, 120, 4
	if thorough {
		n, blocks = 200, 400
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.Shape = []string{"random", "binary", "triple"}[i%3]
		sp.N = 12 + 3*(i%5)
		sp.Tops = 1
		sp.Validators, sp.Gov = 3, 2
		sp.MinCrit.TotalStake, sp.MinCrit.SelfStake = 0, 0
		sp.Rich = []int64{2_000_000000, 4_000_000000, 8_000_000000, 14_000_000000}[i%4]
		sp.Main = sp.Rich
		sp.ActiveP, sp.DelegP = 1, 0.9
		sp.TransPrice = 1
		wl.Ops = map[string]int{"reqtrans": 40, "restrans": 40, "paytariff": 8, "delegate": 4, "revoke": 4}
		wl.HostileP, wl.MultiP, wl.EvP, wl.MissP, wl.SickP = 0, 0.02, 0, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 30, 40, 20, 1, 0
	}
	return wls
}

func init() {
	rm := func(p string) func(Workload) []Monitor {
		return func(Workload) []Monitor { return []Monitor{&monRef{judge: judge{prop: p}}} }
	}
	register(Check{
		ID:   "R01",
		Rule: "one evaluation per state of the whole structure and per move of an account; distinct by step, size and depth of the structure and kind of move",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, refWorlds(seed+50, thorough), rm("R01"))
			rep.Need("structures", 2000)
			rep.Need("referrer: transition", 20)
			rep.Need("referrer: compression", 50)
			rep.Need("referrer: came back", 10)
			rep.Need("created", 50)
		},
	})
	register(Check{
		ID:   "R02",
		Rule: "one evaluation per state of the whole structure; distinct by step, size and depth of the structure",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, refWorlds(seed+60, thorough), rm("R02"))
			rep.Need("structures", 2000)
			rep.Need("structures deeper than ten levels", 100)
			for _, a := range []bool{false, true} {
				rep.Need(fmt.Sprintf("came back active=%v ten levels down=true", a), 2)
			}
		},
	})
	register(Check{
		ID:   "R03",
		Rule: "one evaluation per account and state and per change of a status; distinct by status and whether its requirements are met, and by kind of change",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, append(statusWorlds(seed+70, thorough), moveWorlds(seed+71, thorough)...), rm("R03"))
			rep.Need("upgrades", 25)
			rep.Need("downgrades", 50)
			rep.Need("nonempty lists by status", 40)
			for st := 1; st <= 9; st++ {
				if st != 8 {
					rep.Need(fmt.Sprintf("records with status %d", st), 5)
				}
			}
		},
	})
	register(Check{
		ID:   "R04",
		Rule: "one evaluation per deactivation, compression, planned, cancelled or executed banishment and return; distinct by kind and circumstances",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, refWorlds(seed+80, thorough), rm("R04"))
			rep.Need("compressions", 50)
			rep.Need("compressions of networks", 20)
			rep.Need("banishments", 30)
			rep.Need("banishments cancelled", 10)
			rep.Need("returns", 10)
		},
	})
	register(Check{
		ID:   "R05",
		Rule: "one evaluation per request, resolution and timeout of a transition; distinct by kind and outcome",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, refWorlds(seed+90, thorough), rm("R05"))
			rep.Need("request:true", 100)
			rep.Need("request:false", 50)
			rep.Need("resolve decline=false:true", 30)
			rep.Need("resolve decline=true:true", 20)
			rep.Need("timeouts", 20)
			rep.Need("moved networks", 10)
		},
	})
}
