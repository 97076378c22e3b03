//go:build testing
// +build testing

package main

import (
	"strings"

	voting "github.com/arterynetwork/artr/x/voting/types"
)

// deprecated are proposals without any effect.
var deprecated = map[voting.ProposalType]bool{
	voting.PROPOSAL_TYPE_DELEGATION_AWARD: true, voting.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD: true, voting.PROPOSAL_TYPE_PRODUCT_NETWORK_AWARD: true, voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_STATUS: true,
	voting.PROPOSAL_TYPE_REVOKE_PERIOD: true, voting.PROPOSAL_TYPE_VALIDATOR_BONUS: true, voting.PROPOSAL_TYPE_SUBSCRIPTION_BONUS: true, voting.PROPOSAL_TYPE_VPN_BONUS: true, voting.PROPOSAL_TYPE_STORAGE_BONUS: true,
	voting.PROPOSAL_TYPE_VALIDATOR: true, voting.PROPOSAL_TYPE_BURN_ON_REVOKE: true, voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES: true,
}

func voteWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 40, 180, 4
	if thorough {
		n, blocks = 200, 500
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		sp := &wl.Spec
		sp.N = 14 + i%5
		sp.Gov = []int{3, 1, 4, 2, 6, 5}[i%6]
		sp.VotingH, sp.PollH = []int32{18, 2, 1}[i%3], []int32{1, 5, 24}[(i/3)%3]
		wl.HostileP, wl.MultiP, wl.EvP, wl.UpperP = 0, 0, 0, 0.1
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 20, 60, 20, 3, 0
	}
	return wls
}

func init() {
	vm := func(p string) func(Workload) []Monitor {
		return func(Workload) []Monitor { return []Monitor{&monVote{judge: judge{prop: p}}} }
	}
	register(Check{
		ID:   "V01",
		Rule: "one evaluation per attempt to propose or vote and per proposal finished; distinct by sizes of the camps, reason to fail, type of the proposal and outcome",
		Run: func(rep *Report, thorough bool, seed int64) {
			wls := voteWorlds(seed+160, thorough)
			for i := range wls {
				wl := &wls[i]
				wl.Ops = map[string]int{"propose": 16, "oddprop": 3, "vote": 40, "voteyes": 12, "send": 2, "delegate": 2, "revoke": 1, "on": 2, "off": 1, "startpoll": 1, "setrate": 1, "createacc": 1}
				if i%2 == 1 { // less interest
					wl.Ops["vote"], wl.Ops["voteyes"] = 14, 2
					wl.TNext = 45
				}
				if i%4 == 2 {
					wl.PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE,
						voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE, voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE}
				}
			}
			runWorlds(rep, wls, vm("V01"))
			rep.Need("finished accepted=true", 300)
			rep.Need("finished accepted=false", 200)
			rep.Need("timed out", 100)
			rep.Need("timed out to the second", 20)
			for _, t := range proposalTypes {
				if s := strings.TrimPrefix(t.String(), "PROPOSAL_TYPE_"); !deprecated[t] {
					rep.Need("changed "+s, 1)
				}
			}
		},
	})
	register(Check{
		ID:   "V02",
		Rule: "one evaluation per attempt to answer and per poll finished; distinct by requirement, reason to fail, answers, quorum and decision",
		Run: func(rep *Report, thorough bool, seed int64) {
			wls := voteWorlds(seed+170, thorough)
			for i := range wls {
				wl := &wls[i]
				wl.Ops = map[string]int{"startpoll": 12, "answerpoll": 60, "propose": 3, "vote": 6, "delegate": 4, "revoke": 4, "send": 2, "on": 2, "paytariff": 2}
				wl.PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA}
			}
			runWorlds(rep, wls, vm("V02"))
			rep.Need("answer:", 800)
			rep.Need("answer:answered", 100)
			rep.Need("answer:can't validate", 100)
			rep.Need("answer:status too low", 50)
			rep.Need("finished DECISION_POSITIVE", 30)
			rep.Need("finished DECISION_NEGATIVE", 30)
			rep.Need("finished DECISION_UNSPECIFIED", 30)
			rep.Need("exactly at the quorum", 5)
		},
	})
}
