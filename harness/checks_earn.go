//go:build testing
// +build testing

package main

import voting "github.com/arterynetwork/artr/x/voting/types"

func init() {
	register(Check{
		ID:   "E01",
		Rule: "one evaluation per report of earnings, usage or rate and per record expired; distinct by kind, outcome and contents",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 32, 120, 5
			if thorough {
				n, blocks = 200, 500
			}
			wls := mixedWorkloads(seed+180, n, blocks, txs)
			for i := range wls {
				wl := &wls[i]
				wl.Ops = map[string]int{"earnset": 20, "earnmulti": 14, "setrate": 8, "setstoragecur": 14, "setvpncur": 14, "propose": 8, "vote": 16, "delegate": 6, "revoke": 3, "paytariff": 3, "buystorage": 2, "buyvpn": 2}
				wl.PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE,
					voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE, voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE}
				wl.HostileP, wl.MultiP, wl.EvP = 0, 0, 0
				wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 30, 40, 20, 10, 0
			}
			runWorlds(rep, wls, func(Workload) []Monitor {
				return []Monitor{&monEarn{judge{prop: "E01"}}, &monProf{judge: judge{prop: "E01"}}}
			})
			rep.Need("earnset allowed=yes", 300)
			rep.Need("earnset allowed=no", 100)
			rep.Need("earnmulti allowed=yes", 200)
			rep.Need("earnmulti allowed=no", 100)
			rep.Need("expired", 100)
		},
	})
}
