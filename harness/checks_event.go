//go:build testing
// +build testing

package main

func eventWorlds(seed int64, thorough bool) []Workload {
	n := 1
	if thorough {
		n = 8
	}
	var wls []Workload
	for i := 0; i < n; i++ {
		s := seed + 31*int64(i)
		wls = append(wls, refWorlds(s+180, thorough)[:6]...)
		wls = append(wls, statusWorlds(s+181, thorough)[:5]...)
		wls = append(wls, moveWorlds(s+182, thorough)[:5]...)
		wls = append(wls, nodeWorlds(s+183, thorough)[:8]...)
		wls = append(wls, voteWorlds(s+184, thorough)[:8]...)
		wls = append(wls, mixedWorkloads(s+185, 10*n, 60, 6)...)
	}
	return wls
}

func init() {
	register(Check{
		ID:   "E02",
		Rule: "one evaluation per start of block, transaction executed and end of block, its events compared with what changed; distinct by kind of step and set of events",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, eventWorlds(seed, thorough), func(Workload) []Monitor { return []Monitor{&monEvent{}} })
			for _, k := range []string{"status_updated", "status_will_be_downgraded", "status_downgrade_canceled", "acc_banished", "compression", "transition_requested", "transition_performed", "transition_declined",
				"activity_changed", "pay_tariff", "auto_pay_failed", "buy_storage", "buy_vpn", "transfer", "burn", "delegate", "freeze", "undelegate", "accrue", "validator_accrue",
				"validator_jailed", "validator_banished", "byzantine", "proposal_created", "proposal_vote", "voting_finished", "poll_finished"} {
				rep.Need("event "+k, 3)
			}
			rep.Need("balances compared with what's announced", 100000)
		},
	})
}
