//go:build testing
// +build testing

package main

import (
	"time"

	"github.com/arterynetwork/artr/util"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

// vary makes the i-th variation of a specification.
func vary(r *Rng, i int, sp *GenSpec) {
	sp.N = 14 + r.Intn(30)
	sp.Tops = 1 + r.Intn(3)
	sp.Shape = []string{"random", "chain", "wide", "binary", "triple"}[i%5]
	sp.Validators = 1 + r.Intn(5)
	sp.Gov = 1 + r.Intn(5)
	sp.DelegP = []float64{0.2, 0.5, 0.9}[r.Intn(3)]
	sp.ActiveP = []float64{0.2, 0.6, 0.95}[r.Intn(3)]
	sp.Rich = []int64{5_000_000000, 30_000_000000, 200_000_000000}[r.Intn(3)]
	sp.Main = []int64{20_000000, 1_000_000000, 100_000_000000}[r.Intn(3)]
	if i%7 == 6 { // more than a float64 can tell apart
		sp.Rich, sp.Main = 30_000_000_000_000001, 40_000_000_000_000001
	}
	sp.Day = []time.Duration{24 * time.Hour, 24 * time.Hour, time.Hour, 10 * time.Minute}[r.Intn(4)]
	sp.MaxVal = []uint32{100, 2, 3, 100}[r.Intn(4)]
	sp.JailAfter = uint32(1 + r.Intn(3))
	sp.UnjailAfte = uint32(2 + r.Intn(12))
	sp.Lucky = uint32(r.Intn(3))
	sp.Dust = []int64{0, 0, 1, 1_000000, 1_000_000000}[r.Intn(5)]
	sp.TxFee = []util.Fraction{util.Permille(3), util.Percent(1), util.NewFraction(1, 7), util.FractionZero(), util.Permille(3)}[r.Intn(5)]
	sp.MaxFee = []int64{10_000000, 0, 1000, 12345, 10_000000}[r.Intn(5)]
	x := [][2]util.Fraction{
		{util.FractionInt(1), util.FractionZero()}, {util.Percent(50), util.Percent(30)}, {util.NewFraction(1, 3), util.NewFraction(1, 7)},
		{util.FractionZero(), util.FractionZero()}, {util.NewFraction(1, 6), util.NewFraction(3, 10)}, {util.Percent(10), util.Percent(90)},
	}[r.Intn(6)]
	sp.ForProp, sp.ForComp = x[0], x[1]
	sp.MinSend = []int64{0, 1000, 1000}[r.Intn(3)]
	sp.MinDel = []int64{1, 1000, 1000}[r.Intn(3)]
	sp.TransPrice = []uint64{10_000000, 0, 1}[r.Intn(3)]
	sp.TokenRate = []util.Fraction{util.FractionInt(100000), util.NewFraction(100000, 3), util.NewFraction(1, 7)}[boolInt(r.chance(0.5))*r.Intn(3)]
	sp.MinCrit = noding.MinCriteria{Status: referral.STATUS_LUCKY, SelfStake: 1_000_000000, TotalStake: 1_000_000000}
	sp.Revoke = delegating.Revoke{Period: uint32(1 + r.Intn(14)), Burn: []util.Fraction{util.Percent(5), util.FractionZero(), util.NewFraction(1, 3)}[r.Intn(3)]}
	sp.Express = delegating.Revoke{Period: uint32(1 + r.Intn(7)), Burn: util.Percent(10)}
}
