//go:build testing
// +build testing

package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referralk "github.com/arterynetwork/artr/x/referral"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// GenSpec says what genesis to make.
type GenSpec struct {
	N          int    // accounts
	Tops       int    // of which top-level
	Shape      string // random | chain | wide | binary | triple | three | deep
	Validators int
	Gov        int
	BanP       float64 // share of those without referrals who are banished
	DelegP     float64 // share of accounts with a delegation
	ActiveP    float64 // share of accounts with an active subscription
	Rich       int64   // scale of delegations, uartr
	Main       int64   // scale of main balances, uartr
	NoTasks    bool
	NetStake   bool // validators count on their networks' stakes

	Day        time.Duration
	MaxVal     uint32
	JailAfter  uint32
	UnjailAfte uint32
	Lucky      uint32
	MinCrit    noding.MinCriteria
	Slices     []noding.Distribution_Slice
	LuckyPower int64
	TxFee      util.Fraction
	MaxFee     int64
	ForProp    util.Fraction
	ForComp    util.Fraction
	Dust       int64
	MinSend    int64
	MinDel     int64
	VotingH    int32
	PollH      int32
	TransPrice uint64
	TokenRate  util.Fraction
	RenameP    int64
	SubPrice   uint32
	Table      []delegating.PercentageListRange
	Revoke     delegating.Revoke
	Express    delegating.Revoke
	StGb, VpGb uint32
}

func defaultSpec() GenSpec {
	pl := func(base, v, p, vpn, st int64) []util.Fraction {
		return []util.Fraction{util.Percent(base), util.Percent(v), util.Percent(p), util.Percent(vpn), util.Percent(st)}
	}
	return GenSpec{
		N: 40, Tops: 2, Shape: "random", Validators: 4, Gov: 4, DelegP: 0.5, ActiveP: 0.6, Rich: 30_000_000000, Main: 100_000_000000,
		Day: 24 * time.Hour, MaxVal: 100, JailAfter: 2, UnjailAfte: 12,
		MinCrit: noding.MinCriteria{Status: referral.STATUS_LUCKY, SelfStake: 1_000_000000, TotalStake: 1_000_000000},
		Slices:  []noding.Distribution_Slice{{Part: util.Percent(15), VotingPower: 15}, {Part: util.Percent(85), VotingPower: 10}}, LuckyPower: 10,
		TxFee: util.Permille(3), MaxFee: 10_000000, ForProp: util.FractionInt(1), ForComp: util.FractionZero(),
		MinSend: 1000, MinDel: 1000, VotingH: 18, PollH: 18, TransPrice: 10_000000, TokenRate: util.FractionInt(100000), RenameP: 1_000000,
		SubPrice: 1990, StGb: 10, VpGb: 10,
		Table: []delegating.PercentageListRange{
			{Start: 0, PercentList: pl(21, 0, 1, 2, 3)}, {Start: 1_000_000000, PercentList: pl(24, 1, 2, 3, 4)},
			{Start: 10_000_000000, PercentList: pl(27, 2, 3, 4, 5)}, {Start: 100_000_000000, PercentList: pl(30, 3, 4, 5, 6)},
		},
		Revoke:  delegating.Revoke{Period: 14, Burn: util.Percent(5)},
		Express: delegating.Revoke{Period: 7, Burn: util.Percent(10)},
	}
}

// Genesis is the outcome: the state to start from and who is who.
type Genesis struct {
	JSON    json.RawMessage
	Time    time.Time
	Accs    []*Acc
	Parents []int
	Nodes   []*NodeKey
	Company *Acc // tx fee company account
	SubAcc  *Acc // subscription account
}

func mustJSON(c codec.JSONMarshaler, m codec.ProtoMarshaler) json.RawMessage {
	return c.MustMarshalJSON(m)
}

// legsShape makes networks of people whose referrals differ: some have many followers but few referrals of their own, some
// the other way round, some both.
func legsShape(r *Rng, g GenSpec) (res []int) {
	if g.Shape != "legs" {
		return nil
	}
	for i := 0; i < g.Tops; i++ {
		res = append(res, -1)
	}
	add := func(p int) int {
		res = append(res, p)
		return len(res) - 1
	}
	for len(res) < g.N {
		subject := add(r.Intn(g.Tops))
		for k := 3 + r.Intn(5); k > 0; k-- {
			child, style := add(subject), r.Intn(4)
			kids, team := 1+r.Intn(2), 3+r.Intn(4)
			if style&1 != 0 {
				kids = 3 + r.Intn(2)
			}
			if style&2 != 0 {
				team = 9 + r.Intn(4)
				if g.N > 300 {
					team = []int{10, 49, 50, 51}[r.Intn(4)]
				}
			}
			var line []int
			for n := 1; n < team || n <= kids; n++ {
				if n <= kids {
					line = append(line, add(child))
				} else {
					line = append(line, add(line[r.Intn(len(line))]))
				}
			}
		}
	}
	return res[:g.N]
}

func buildGenesis(r *Rng, g GenSpec) *Genesis {
	ec := app.NewEncodingConfig()
	authtypes.RegisterInterfaces(ec.InterfaceRegistry)
	cdc := ec.Marshaler.(codec.JSONMarshaler)
	t0 := time.Date(2022, 1, 3, 10, 0, 0, 0, time.UTC).Add(time.Duration(r.Int63n(int64(30 * 24 * time.Hour))))
	out := &Genesis{Time: t0}
	for i := 0; i < g.N; i++ {
		out.Accs = append(out.Accs, newAcc(fmt.Sprintf("u%d", i)))
	}
	out.Company, out.SubAcc = newAcc("company"), newAcc("subscription")
	for i := 0; i < g.Validators+6; i++ {
		out.Nodes = append(out.Nodes, newNodeKey(fmt.Sprintf("n%d", i)))
	}
	// who hangs below whom
	out.Parents = make([]int, g.N)
	kids := make([][]int, g.N)
	legs := legsShape(r, g)
	for i := range out.Parents {
		p := -1
		if i >= g.Tops {
			switch g.Shape {
			case "chain":
				p = i - 1
				if r.chance(0.25) {
					p = r.Intn(i)
				}
			case "wide":
				p = r.Intn(min(i, g.Tops+3))
			case "binary":
				p = g.Tops - 1
				if i > g.Tops {
					p = (i-g.Tops-1)/2 + g.Tops - 1
				}
			case "three": // three equal networks under one account
				if j := (i - 1) / 3; i > 0 && j > 0 {
					p = 1 + 3*((j-1)/3) + (i-1)%3
				} else {
					p = 0
				}
			case "deep": // a spine and crowds hanging at its lower end
				if p = i - 1; i >= g.Tops+11 {
					p = g.Tops + r.Intn(i-g.Tops)
					if r.chance(0.7) {
						p = g.Tops + 7 + r.Intn(4)
					}
				}
			case "legs":
				p = legs[i]
			case "triple":
				p = (i-g.Tops)/3 + g.Tops - 1
			default:
				p = r.Intn(i)
			}
		}
		out.Parents[i] = p
		if p >= 0 {
			kids[p] = append(kids[p], i)
		}
	}

	var (
		auths    []*codectypes.Any
		balances []bank.Balance
		profs    []profile.GenesisProfile
		dels     []delegating.Account
		tasks    []schedule.Task
		comps    []referral.Compression
		bans     []referral.Compression
		active   []noding.Validator
		gov      []string
		banished []referral.Banished
		isOut    = map[int]bool{}
	)
	everyone := append(append([]*Acc(nil), out.Accs...), out.Company, out.SubAcc)
	for _, a := range everyone {
		any, err := codectypes.NewAnyWithValue(authtypes.NewBaseAccount(a.Addr, nil, 0, 0))
		must(err)
		auths = append(auths, any)
	}
	for i, a := range everyone {
		var del int64
		isUser := i < g.N
		isBanished := isUser && g.BanP > 0 && i >= g.Tops && i >= g.Validators && len(kids[i]) == 0 && r.chance(g.BanP)
		if isUser && (i < g.Validators || r.chance(g.DelegP)) {
			del = r.between(1, g.Rich)
			if r.chance(0.2) {
				del = []int64{1, 999, 1000, 999_999999, 1_000_000000, 1_000_000001, 10_000_000000, 100_000_000000}[r.Intn(8)]
			}
			if i < g.Validators && del < int64(g.MinCrit.SelfStake) {
				del = int64(g.MinCrit.SelfStake) + r.Int63n(1000)
			}
			if i < g.Validators && !g.NetStake && del < int64(g.MinCrit.TotalStake) {
				del = int64(g.MinCrit.TotalStake)
			}
		}
		if isBanished {
			del = 0
			banished = append(banished, referral.Banished{Account: a.B, FormerReferrer: out.Accs[out.Parents[i]].B})
			isOut[i] = true
		}
		coins := sdk.NewCoins(sdk.NewInt64Coin(dMain, r.between(1000, g.Main)), sdk.NewInt64Coin(dDel, del))
		balances = append(balances, bank.Balance{Address: a.B, Coins: coins})
		if !isUser {
			continue
		}
		if del > g.Dust {
			at := t0.Add(time.Duration(1 + r.Int63n(int64(g.Day))))
			dels = append(dels, delegating.Account{Address: a.B, NextAccrue: &at})
			tasks = append(tasks, schedule.Task{HandlerName: delegating.AccrueHookName, Data: a.Addr, Time: at})
		}
		p := profile.Profile{}
		spine := g.Shape == "deep" && i < g.Tops+11
		if isBanished {
		} else if spine || r.chance(g.ActiveP) || i < g.Tops {
			till := t0.Add(time.Duration(1 + r.Int63n(int64(30*g.Day))))
			p.ActiveUntil = &till
			p.AutoPay = r.chance(0.5) || spine
			p.StorageLimit = uint64(5+r.Intn(20)) * util.GBSize
			if i%11 == 7 { // it's filled up as soon as there's an occasion
				p.StorageLimit = uint64(i%2) * util.GBSize
			}
			p.VpnLimit = uint64(7+r.Intn(20)) * util.GBSize
			tasks = append(tasks, schedule.Task{HandlerName: profile.RefreshHookName, Data: a.Addr, Time: till})
		} else if i >= g.Tops && (r.chance(0.8) || len(kids[i]) > 0) {
			at := t0.Add(time.Duration(1 + r.Int63n(int64(60*g.Day))))
			comps = append(comps, referral.Compression{Account: a.B, Time: at})
			tasks = append(tasks, schedule.Task{HandlerName: referralk.CompressionHookName, Data: []byte(a.B), Time: at})
		} else if i >= g.Tops && del <= g.Dust { // compressed some time ago
			at := t0.Add(time.Duration(1 + r.Int63n(int64(30*g.Day))))
			bans = append(bans, referral.Compression{Account: a.B, Time: at})
			tasks = append(tasks, schedule.Task{HandlerName: referralk.BanishHookName, Data: []byte(a.B), Time: at})
		}
		if r.chance(0.3) {
			p.Nickname = fmt.Sprintf("nick%d", i)
		}
		if i < g.Validators {
			p.Noding, p.Validator = true, true
		}
		profs = append(profs, profile.GenesisProfile{Address: a.B, Profile: p})
		if i < g.Validators {
			active = append(active, noding.Validator{Account: a.B, PubKey: out.Nodes[i].Bech32})
		}
		if i < g.Gov {
			gov = append(gov, a.B)
		}
	}
	if g.NetStake {
		delOf := func(i int) int64 { return sdk.NewCoins(balances[i].Coins...).AmountOf(dDel).Int64() }
		for i := 0; i < g.Validators; i++ {
			var sum int64
			for l, line := 0, []int{i}; l <= 4; l++ {
				var next []int
				for _, j := range line {
					sum += delOf(j)
					next = append(next, kids[j]...)
				}
				line = next
			}
			if d := int64(g.MinCrit.TotalStake) - sum; d > 0 {
				balances[i].Coins = sdk.NewCoins(balances[i].Coins...).Add(sdk.NewInt64Coin(dDel, d))
			}
		}
	}
	var refs []referral.Refs
	var tops []string
	for i := 0; i < g.Tops; i++ {
		tops = append(tops, out.Accs[i].B)
	}
	for i := 0; i < g.N; i++ {
		if len(kids[i]) == 0 {
			continue
		}
		rf := referral.Refs{Referrer: out.Accs[i].B}
		for _, k := range kids[i] {
			if !isOut[k] {
				rf.Referrals = append(rf.Referrals, out.Accs[k].B)
			}
		}
		if len(rf.Referrals) > 0 {
			refs = append(refs, rf)
		}
	}
	// parents before children (indices are in topological order already)
	pick := func(n int) (res []string) {
		for i := 0; i < n && i < g.N; i++ {
			res = append(res, out.Accs[(i*3+1)%g.N].B)
		}
		return
	}
	state := map[string]json.RawMessage{
		bank.ModuleName: mustJSON(cdc, &bank.GenesisState{
			Params: bank.Params{
				MinSend: g.MinSend, DustDelegation: g.Dust, TransactionFee: g.TxFee, MaxTransactionFee: g.MaxFee,
				TransactionFeeSplitRatios: bank.TransactionFeeSplitRatios{ForProposer: g.ForProp, ForCompany: g.ForComp},
				CompanyAccount:            out.Company.B, BlockedSenders: []string{out.Accs[g.N-1].B},
			},
			Balances: balances,
		}),
		authtypes.ModuleName: mustJSON(cdc, &authtypes.GenesisState{Params: authtypes.DefaultParams(), Accounts: auths}),
		delegating.ModuleName: mustJSON(cdc, &delegating.GenesisState{
			Params: delegating.Params{MinDelegate: g.MinDel, Revoke: g.Revoke, ExpressRevoke: g.Express, AccruePercentageTable: g.Table}, Accounts: dels,
		}),
		earning.ModuleName: mustJSON(cdc, &earning.GenesisState{Params: earning.Params{Signers: pick(2)}}),
		noding.ModuleName: mustJSON(cdc, &noding.GenesisState{
			Params: noding.Params{
				MaxValidators: g.MaxVal, JailAfter: g.JailAfter, UnjailAfter: g.UnjailAfte, LotteryValidators: g.Lucky, MinCriteria: g.MinCrit,
				VotingPower: noding.Distribution{Slices: g.Slices, LuckiesVotingPower: g.LuckyPower},
			},
			Active: active,
		}),
		profile.ModuleName: mustJSON(cdc, &profile.GenesisState{
			Params: profile.Params{
				Creators: pick(1), RenamePrice: g.RenameP, CardMagic: 112233592347, StorageSigners: pick(2), VpnSigners: pick(3), TokenRate: g.TokenRate,
				SubscriptionPrice: g.SubPrice, VpnGbPrice: g.VpGb, StorageGbPrice: g.StGb, BaseVpnGb: 7, BaseStorageGb: 5, TokenRateSigners: pick(1),
			},
			Profiles: profs,
		}),
		referral.ModuleName: mustJSON(cdc, &referral.GenesisState{
			Params:           referral.Params{CompanyAccounts: referral.CompanyAccounts{ForSubscription: out.SubAcc.B}, TransitionPrice: g.TransPrice},
			TopLevelAccounts: tops, OtherAccounts: refs, BanishedAccounts: banished, Compressions: comps, Banishment: bans,
		}),
		schedule.ModuleName: mustJSON(cdc, &schedule.GenesisState{Params: schedule.Params{DayNanos: uint64(g.Day)}, Tasks: tasks}),
		voting.ModuleName: mustJSON(cdc, &voting.GenesisState{
			Government: gov, Params: voting.Params{VotingPeriod: g.VotingH, PollPeriod: g.PollH},
		}),
	}
	bz, err := json.Marshal(state)
	must(err)
	out.JSON = bz
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
