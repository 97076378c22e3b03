//go:build testing
// +build testing

package main

import voting "github.com/arterynetwork/artr/x/voting/types"

// withoutProp leaves one type of proposals out.
func withoutProp(ts []voting.ProposalType, t voting.ProposalType) []voting.ProposalType {
	if len(ts) == 0 {
		ts = proposalTypes
	}
	var r []voting.ProposalType
	for _, x := range ts {
		if x != t {
			r = append(r, x)
		}
	}
	return r
}

// twinWorlds are worlds of all kinds to be exported and imported.
func twinWorlds(seed int64, thorough bool) []Workload {
	n, blocks := 4, 80
	if thorough {
		n, blocks = 30, 300
	}
	var r []Workload
	mixed := mixedWorkloads(seed+6, 2*n, blocks, 6)
	for i := range mixed {
		mixed[i].HostileP = 0
	}
	polls := moveWorlds(seed+15, thorough)
	for i := range polls { // people lose what a poll requires after having answered
		wl := &polls[i]
		wl.Spec.PollH = 24 * 10
		wl.Spec.MinCrit.SelfStake, wl.Spec.MinCrit.TotalStake = 1_000000, 1_000000
		wl.Ops = map[string]int{"startpoll": 6, "answerpoll": 40, "revokeall": 20, "delegate": 6, "propose": 4, "vote": 10, "reqtrans": 4, "restrans": 6}
		wl.PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE}
	}
	for _, wls := range [][]Workload{
		mixed, delegWorlds(seed+7, thorough), nodeWorlds(seed+8, thorough), critWorlds(seed+9, thorough), refWorlds(seed+10, thorough), statusWorlds(seed+11, thorough), moveWorlds(seed+12, thorough),
		voteWorlds(seed+13, thorough), profWorlds(seed+14, thorough, allOps), polls, oddWorlds(seed+16, thorough),
	} {
		k := n
		if wls[0].Ops["startpoll"] == 6 {
			k = 3 * n
		}
		if wls[0].MutateP > 0 {
			k = len(wls)
		}
		for i := 0; i < k && i < len(wls); i++ {
			wl := wls[i]
			if wl.Blocks > blocks {
				wl.Blocks = blocks
			}
			wl.OldEvP = 0
			if len(r)%6 != 0 {
				wl.Spec.Lucky = 0
				wl.PropTypes = withoutProp(wl.PropTypes, voting.PROPOSAL_TYPE_LUCKY_VALIDATORS)
			}
			r = append(r, wl)
		}
	}
	return r
}

func init() {
	register(Check{
		ID:   "A03",
		Rule: "one evaluation per state exported and imported, and per block executed by the chain started from it; distinct by what was there to export and by resulting state",
		Run: func(rep *Report, thorough bool, seed int64) {
			wls := twinWorlds(seed, thorough)
			runWorlds(rep, wls, func(Workload) []Monitor { return []Monitor{&monTwin{}} })
			rep.Need("exports", 100)
			rep.Need("answers of those who couldn't answer now", 1)
			rep.Need("twin-blocks", 500)
			rep.Need("twin-transactions", 500)
		},
	})
}
