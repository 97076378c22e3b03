//go:build testing
// +build testing

package main

import voting "github.com/arterynetwork/artr/x/voting/types"

func init() {
	register(Check{
		ID:   "B01",
		Rule: "one evaluation per executed step (BeginBlock, transaction, EndBlock) of generated chains; distinct by kind of step, outcome and magnitude of the supply change",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 80, 8
			if thorough {
				n, blocks = 160, 260
			}
			runWorlds(rep, mixedWorkloads(seed, n, blocks, txs), func(Workload) []Monitor { return []Monitor{monSupply{}} })
			rep.Need("tx-checked", 1000)
		},
	})
	register(Check{
		ID:   "B02",
		Rule: "one evaluation per transaction made of transfers and burns only; distinct by kind, predicted outcome, magnitude and fee parameters",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 70, 10
			if thorough {
				n, blocks = 160, 300
			}
			wls := mixedWorkloads(seed+1, n, blocks, txs)
			for i := range wls {
				wls[i].Ops = map[string]int{"send": 50, "sendmax": 10, "burn": 14, "delegate": 4, "createacc": 2, "propose": 6, "vote": 14}
				wls[i].PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_TRANSACTION_FEE, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE,
					voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE}
				wls[i].HostileP = 0.01
				wls[i].MultiP = 0.15
				if i%3 == 0 {
					wls[i].Spec.Main = 50_000
				}
			}
			runWorlds(rep, wls, func(Workload) []Monitor { return []Monitor{monTransfer{}} })
			rep.Need("send:true", 500)
			rep.Need("send:false", 200)
			rep.Need("burn:true", 50)
			rep.Need("multi:true", 10)
		},
	})
	register(Check{
		ID:   "B03",
		Rule: "one evaluation per fee-charging transaction and per start of block; distinct by kind, magnitude of what was collected and fee parameters",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 24, 90, 6
			if thorough {
				n, blocks = 160, 350
			}
			wls := mixedWorkloads(seed+2, n, blocks, txs)
			for i := range wls {
				wls[i].Ops = map[string]int{"send": 30, "sendmax": 4, "burn": 2, "delegate": 20, "revoke": 4, "createacc": 3, "updateprofile": 6, "paytariff": 8, "buystorage": 5, "buyvpn": 5, "buyim": 3, "reqtrans": 3, "propose": 6, "vote": 14, "setrate": 1}
				wls[i].PropTypes = []voting.ProposalType{voting.PROPOSAL_TYPE_TRANSACTION_FEE, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, voting.PROPOSAL_TYPE_MIN_DELEGATE}
				wls[i].TNext, wls[i].TSec = 25, 60
				wls[i].EvP = 0
				if i%3 == 0 {
					wls[i].Spec.Main = 3_000_000
				}
			}
			runWorlds(rep, wls, func(Workload) []Monitor { return []Monitor{monFees{}} })
			rep.Need("fees-nonzero", 300)
			rep.Need("distributions-nonzero", 150)
		},
	})
}
