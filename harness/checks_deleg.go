//go:build testing
// +build testing

package main

import (
	"time"

	"github.com/arterynetwork/artr/util"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

var delegProps = []voting.ProposalType{
	voting.PROPOSAL_TYPE_MIN_DELEGATE, voting.PROPOSAL_TYPE_DUST_DELEGATION, voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE,
	voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE, voting.PROPOSAL_TYPE_TRANSACTION_FEE, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS,
}

func delegWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 24, 120, 4
	if thorough {
		n, blocks = 200, 400
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		wl.Ops = map[string]int{"delegate": 20, "delegatebig": 3, "revoke": 18, "xrevoke": 10, "revokeall": 3, "send": 5, "paytariff": 4, "earnset": 6, "propose": 3, "vote": 8, "on": 2, "off": 1, "unjail": 3, "createacc": 2}
		wl.PropTypes = delegProps
		wl.MultiP = 0.03
		wl.HostileP = 0.01
		wl.EvP = 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 75, 12, 8, 4, 0
	}
	return wls
}

// uplineWorlds have validators of high statuses at the top of a rich network.
func uplineWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 20, 90, 2
	if thorough {
		n, blocks = 120, 300
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.N = 40 + 15*(i%4)
		sp.Tops = 1
		sp.Shape = []string{"triple", "chain", "binary", "chain", "random"}[i%5]
		sp.Validators = 6 + i%8
		sp.Rich = []int64{100_000_000000, 400_000_000000, 3_000_000_000000}[i%3]
		sp.DelegP, sp.ActiveP = 0.9, 0.97
		sp.UnjailAfte = uint32(1 + i%2)
		sp.JailAfter = 3
		sp.Dust = 0
		sp.Day = []time.Duration{24 * time.Hour, time.Hour}[i%2]
		sp.TxFee, sp.MaxFee = util.Permille(3), 10_000000
		wl.Ops = map[string]int{"delegate": 20, "revoke": 6, "paytariff": 6, "unjail": 6, "off": 1, "on": 1, "earnset": 3}
		wl.MultiP, wl.HostileP, wl.EvP, wl.MissP, wl.SickP = 0, 0, 0, 0.05, 0.01
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 90, 6, 3, 1, 0
	}
	return wls
}

func init() {
	dm := func(p string) func(Workload) []Monitor {
		return func(Workload) []Monitor { return []Monitor{&monDeleg{prop: p}} }
	}
	register(Check{
		ID:   "D01",
		Rule: "one evaluation per delegating and revoking transaction; distinct by kind, verdict, magnitude, whether a delegation is left, burnt share and number of pending requests",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, delegWorlds(seed+10, thorough), dm("D01"))
			rep.Need("delegate:true", 300)
			rep.Need("delegate:false", 100)
			rep.Need("revoke:true", 200)
			rep.Need("xrevoke:true", 100)
			rep.Need("revoke:false", 20)
		},
	})
	register(Check{
		ID:   "D02",
		Rule: "one evaluation per request and per payment; distinct by magnitude, number of requests pending and punctuality",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, delegWorlds(seed+20, thorough), dm("D02"))
			rep.Need("requests", 300)
			rep.Need("payments", 150)
		},
	})
	register(Check{
		ID:   "D03",
		Rule: "one evaluation per award; distinct by whole or part of a day, set of bonuses, magnitude of award and fee",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, delegWorlds(seed+30, thorough), dm("D03"))
			rep.Need("awards whole=true", 300)
			rep.Need("awards whole=false", 300)
			rep.Need("awards nonzero", 500)
			rep.Need("awards with bonus 1", 20)
			rep.Need("awards with bonus 2", 100)
			rep.Need("awards with bonus 3", 20)
			rep.Need("awards with bonus 4", 20)
		},
	})
	register(Check{
		ID:   "D04",
		Rule: "one evaluation per award; distinct by number of ancestors paid and amounts",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, uplineWorlds(seed+40, thorough), dm("D04"))
			rep.Need("awards with 1 ancestors", 100)
			rep.Need("awards with 2 ancestors", 5)
		},
	})
}
