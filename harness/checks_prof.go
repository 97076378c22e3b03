//go:build testing
// +build testing

package main

import voting "github.com/arterynetwork/artr/x/voting/types"

var profProps = []voting.ProposalType{voting.PROPOSAL_TYPE_ENTER_PRICE, voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE,
	voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE, voting.PROPOSAL_TYPE_TRANSACTION_FEE, voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS,
	voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE, voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE,
	voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE}

func profWorlds(seed int64, thorough bool, ops map[string]int) []Workload {
	n, blocks, txs := 32, 180, 3
	if thorough {
		n, blocks = 160, 500
	}
	wls := mixedWorkloads(seed, n, blocks, txs)
	for i := range wls {
		wl := &wls[i]
		wl.Ops = ops
		wl.PropTypes = profProps
		wl.Spec.N = 12 + i%14
		wl.Spec.DelegP = []float64{0, 0, 0.1}[(i/3)%3]
		wl.Spec.ActiveP = 0.7
		wl.Spec.Main = []int64{100_000_000000, 2_000_000000, 500_000000, 300_000000}[i%4]
		wl.HostileP, wl.MultiP, wl.EvP, wl.MissP, wl.SickP = 0, 0.03, 0, 0, 0
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 82, 6, 4, 8, 0
	}
	return wls
}

func init() {
	pm := func(p string) func(Workload) []Monitor {
		return func(Workload) []Monitor { return []Monitor{&monProf{judge: judge{prop: p}}} }
	}
	register(Check{
		ID:   "P01",
		Rule: "one evaluation per creation or update of a profile and per state of all nicknames and cards; distinct by kind, outcome and reason",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, profWorlds(seed+120, thorough, map[string]int{"createacc": 20, "updateprofile": 50, "paytariff": 6, "buyim": 3, "setstoragecur": 3, "setvpncur": 3, "propose": 2, "vote": 6, "send": 4}), pm("P01"))
			rep.Need("updateprofile:true", 500)
			rep.Need("updateprofile:false", 200)
			rep.Need("createacc:true", 150)
			rep.Need("createacc:false", 50)
			rep.Need("nicknames looked up", 5000)
		},
	})
	register(Check{
		ID:   "P02",
		Rule: "one evaluation per payment, renewal and state of activity; distinct by kind, outcome, reason and magnitude",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, profWorlds(seed+130, thorough, map[string]int{"paytariff": 30, "updateprofile": 10, "autopay": 12, "buystorage": 8, "givestorage": 6, "setstoragecur": 8, "setvpncur": 8, "buyvpn": 3, "setrate": 2, "propose": 3, "vote": 9, "send": 6, "createacc": 3}), pm("P02"))
			rep.Need("paytariff:true", 600)
			rep.Need("paytariff:false", 200)
			rep.Need("renewal:paid", 50)
			rep.Need("renewal:unpaid", 20)
			rep.Need("renewal:expired", 50)
			rep.Need("renewal:reset", 50)
			rep.Need("storage changed with payment", 50)
		},
	})
	register(Check{
		ID:   "P03",
		Rule: "one evaluation per purchase, prolongation, return and expiry of storage, VPN traffic or messenger space; distinct by kind, outcome, reason and magnitude",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, profWorlds(seed+140, thorough, map[string]int{"buystorage": 14, "givestorage": 10, "buyvpn": 12, "buyim": 16, "imauto": 7, "giveim": 8, "prolongim": 7, "updateprofile": 10, "paytariff": 10, "setstoragecur": 6, "setvpncur": 4, "setrate": 2, "propose": 3, "vote": 9, "send": 6}), pm("P03"))
			for _, k := range []string{"buystorage", "givestorage", "buyvpn", "buyim", "giveim", "prolongim"} {
				rep.Need(k+":true", 80)
				rep.Need(k+":false", 8)
			}
			rep.Need("renewal:im paid", 60)
			rep.Need("renewal:im expired", 15)
		},
	})
}
