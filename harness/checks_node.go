//go:build testing
// +build testing

package main

import (
	"time"

	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// nodeWorlds are histories of validators going on and off, failing, misbehaving, losing and regaining what they need.
func nodeWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 24, 120, 3
	if thorough {
		n, blocks = 200, 500
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.N = 20 + 4*(i%5)
		sp.Validators = []int{4, 7, 10, 12}[i%4]
		sp.MaxVal = []uint32{100, 3, 5, 8, 2}[i%5]
		sp.Lucky = []uint32{0, 1, 2, 3}[(i/2)%4]
		sp.JailAfter = uint32(1 + i%3)
		sp.UnjailAfte = uint32(1 + (i/3)%6)
		sp.DelegP = 0.9
		sp.Rich = []int64{2_500_000000, 20_000_000000, 1_000_000_000000}[i%3]
		sp.Main = sp.Rich / 2
		sp.MinCrit = noding.MinCriteria{Status: referral.STATUS_LUCKY, SelfStake: 1_000_000000, TotalStake: 1_000_000000}
		wl.Ops = map[string]int{"on": 14, "off": 5, "rekey": 6, "handover": 3, "unjail": 14, "delegate": 6, "revoke": 3, "send": 2, "propose": 5, "vote": 12}
		wl.PropTypes = []voting.ProposalType{
			voting.PROPOSAL_TYPE_MAX_VALIDATORS, voting.PROPOSAL_TYPE_LUCKY_VALIDATORS, voting.PROPOSAL_TYPE_JAIL_AFTER, voting.PROPOSAL_TYPE_VOTING_POWER,
			voting.PROPOSAL_TYPE_GENERAL_AMNESTY, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE,
		}
		wl.HostileP, wl.MultiP = 0, 0
		wl.MissP, wl.SickP = []float64{0.02, 0.08, 0}[i%3], []float64{0.01, 0.03}[i%2]
		wl.EvP = []float64{0.01, 0.05, 0, 0.1}[i%4]
		wl.OldEvP = wl.EvP / 2
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 20, 60, 15, 1, 0
	}
	return wls
}

// critWorlds hover around what is required of validators.
func critWorlds(seed int64, thorough bool) []Workload {
	wls := nodeWorlds(seed, thorough)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.N = 24 + 6*(i%4)
		sp.Shape = []string{"triple", "binary", "chain", "random", "deep"}[i%5]
		sp.Tops = 1
		sp.Rich = []int64{1_500_000000, 3_000_000000, 20_000_000000}[i%3]
		sp.Main = 2 * sp.Rich
		sp.ActiveP = 0.95
		sp.UnjailAfte = 1
		sp.Day = []time.Duration{24 * time.Hour, time.Hour}[i%2]
		if i%2 == 1 {
			sp.MinCrit.SelfStake, sp.MinCrit.TotalStake, sp.NetStake = 1_000000, 4_000_000000, true
		}
		wl.Ops = map[string]int{"on": 16, "off": 1, "unjail": 10, "delegate": 8, "revoke": 10, "revokeall": 3, "paytariff": 4, "reqtrans": 12, "restrans": 12, "propose": 4, "vote": 10}
		if i%2 == 1 {
			wl.Ops["revokeall"] = 10
		}
		if i%3 == 2 { // it's the status that matters
			sp.MinCrit = noding.MinCriteria{Status: referral.STATUS_LEADER, SelfStake: 1_000000, TotalStake: 1_000000}
			sp.NetStake, sp.Day, sp.N, sp.Shape, sp.Rich = false, time.Hour, 45, []string{"triple", "binary"}[i%2], 30_000_000000
			wl.Ops["paytariff"], wl.Ops["revokeall"] = 2, 6
		}
		wl.PropTypes = []voting.ProposalType{
			voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD,
			voting.PROPOSAL_TYPE_GENERAL_AMNESTY,
		}
		wl.MissP, wl.SickP, wl.EvP, wl.OldEvP = 0.01, 0.005, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 60, 20, 15, 6, 1
	}
	return wls
}

func init() {
	nm := func(p string) func(Workload) []Monitor {
		return func(Workload) []Monitor { return []Monitor{&monNode{judge: judge{prop: p}}} }
	}
	register(Check{
		ID:   "N01",
		Rule: "one evaluation per set of validator updates; distinct by numbers of active, top, lucky and waiting validators, of updates, and ties",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, nodeWorlds(seed+120, thorough), nm("N01"))
			rep.Need("additions", 100)
			rep.Need("removals", 100)
			rep.Need("power changes", 30)
			rep.Need("with lucky ones", 200)
			rep.Need("ties for the top", 20)
		},
	})
	register(Check{
		ID:   "N02",
		Rule: "one evaluation per missed block, piece of evidence and attempt to unjail; distinct by the state of the validator and the outcome",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, nodeWorlds(seed+130, thorough), nm("N02"))
			rep.Need("missed", 500)
			rep.Need("jailed", 100)
			rep.Need("first offence", 50)
			rep.Need("banned", 20)
			rep.Need("unjail:", 50)
			rep.Need("unjail:not yet", 50)
			rep.Need("unjailed at the first opportunity", 5)
			rep.Need("unjail one block early", 5)
			rep.Need("amnestied strokes=true jailed=true", 5)
		},
	})
	register(Check{
		ID:   "N03",
		Rule: "one evaluation per active validator and state, per attempt to switch on and per switching off; distinct by stakes, status, reason and outcome",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, append(nodeWorlds(seed+140, thorough), critWorlds(seed+141, thorough)...), nm("N03"))
			rep.Need("on:", 100)
			rep.Need("on:not qualified", 50)
			rep.Need("on:key busy", 50)
			rep.Need("on:banned", 5)
			rep.Need("switched off: REASON_NOT_ENOUGH_SELF_STAKE", 10)
			rep.Need("switched off: REASON_NOT_ENOUGH_TOTAL_STAKE", 10)
			rep.Need("switched off: REASON_NOT_ENOUGH_STATUS", 10)
			rep.Need("staff records", 50)
		},
	})
	register(Check{
		ID:   "N04",
		Rule: "one evaluation per block proposed; distinct by what has become of the proposer since",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, nodeWorlds(seed+150, thorough), nm("N04"))
			rep.Need("proposers", 1500)
		},
	})
}
