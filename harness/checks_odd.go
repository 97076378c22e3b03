//go:build testing
// +build testing

package main

import (
	"strings"

	voting "github.com/arterynetwork/artr/x/voting/types"
)

// oddWorlds are histories with messages nobody would write; in some of them such proposals are accepted.
func oddWorlds(seed int64, thorough bool) []Workload {
	n, blocks, txs := 24, 60, 9
	if thorough {
		n, blocks = 160, 300
	}
	wls := mixedWorkloads(seed+6, n, blocks, txs)
	vw := voteWorlds(seed+7, thorough)
	if !thorough {
		vw = vw[:20]
	}
	for i := range vw {
		wl := &vw[i]
		if !thorough {
			wl.Blocks = 90
		}
		wl.Txs = 6
		// The government accepts anything; people go on with their lives.
		wl.Ops = map[string]int{}
		for k, v := range allOps {
			wl.Ops[k] = v
		}
		wl.Ops["propose"], wl.Ops["voteyes"], wl.Ops["vote"] = 60, 90, 4
		wl.Spec.Gov = 1 + i%3
		wl.TNext, wl.TSec, wl.THour, wl.TDay, wl.TMonth = 40, 20, 20, 6, i%2
	}
	wls = append(wls, vw...)
	for i := range wls {
		wls[i].MutateP, wls[i].HostileP, wls[i].MultiP = 0.6, 0, 0.15
		wls[i].PropTypes = withoutProp(nil, voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE) // it halts the chain on purpose
	}
	return wls
}

func init() {
	register(Check{
		ID:   "A06",
		Rule: "one evaluation per delivered transaction (whole persisted state compared before and after); distinct by kind, forgery, error and number of messages",
		Run: func(rep *Report, thorough bool, seed int64) {
			runWorlds(rep, oddWorlds(seed, thorough), func(Workload) []Monitor { return []Monitor{&monAtomic{}, &monSupply{}, &monOdd{}} })
			rep.Need("succeeded", 300)
			rep.Need("succeeded odd", 300)
			rep.Need("refused odd", 1000)
		},
	})
}

// monOdd tells what has been tried.
type monOdd struct{ NopMonitor }

func (m *monOdd) Tx(w *World, pre, post *Snap, tx *TxRec) {
	if !strings.HasPrefix(tx.Kind, "odd ") || tx.Hostile != "" {
		return
	}
	verdict := "refused"
	if tx.ok() {
		verdict = "succeeded"
	}
	w.Rep.Count(verdict+" odd", 1)
	w.Rep.Count(verdict+" "+tx.Kind, 1)
}
