//go:build testing
// +build testing

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

func mustProto(m proto.Message) []byte {
	bz, err := proto.Marshal(m)
	must(err)
	return bz
}

func query(w *World, path string, req proto.Message) abci.ResponseQuery {
	defer guardApp("Query " + path)
	h := w.QueryAt
	if h == 0 {
		h = w.C.App.LastBlockHeight()
	}
	return w.C.App.Query(abci.RequestQuery{Path: path, Data: mustProto(req), Height: h})
}

// someQueries makes arbitrary queries, sensible or not.
func someQueries(w *World, n int) (r []abci.RequestQuery) {
	acc := func() string {
		if w.R.chance(0.1) {
			return []string{"", "artr1", newAcc("nobody").B, feeAddr}[w.R.Intn(4)]
		}
		return w.anyAcc().B
	}
	i32 := func() int32 { return []int32{0, 1, 2, 10, -1, 1 << 30}[w.R.Intn(6)] }
	for i := 0; i < n; i++ {
		var path string
		var req proto.Message
		switch w.R.Intn(28) {
		case 0:
			path, req = "/artery.bank.v1beta1.Query/Balance", &bank.BalanceRequest{AccAddress: acc()}
		case 1:
			path, req = "/artery.bank.v1beta1.Query/Supply", &bank.SupplyRequest{}
		case 2:
			path, req = "/artery.bank.v1beta1.Query/Params", &bank.ParamsRequest{}
		case 3:
			path, req = "/artery.delegating.v1beta1.Query/Revoking", &delegating.RevokingRequest{AccAddress: acc()}
		case 4:
			path, req = "/artery.delegating.v1beta1.Query/Accumulation", &delegating.AccumulationRequest{AccAddress: acc()}
		case 5:
			path, req = "/artery.delegating.v1beta1.Query/Get", &delegating.GetRequest{AccAddress: acc()}
		case 6:
			path, req = "/artery.earning.v1beta1.Query/Get", &earning.GetRequest{Address: acc()}
		case 7:
			path, req = "/artery.earning.v1beta1.Query/List", &earning.ListRequest{Limit: i32(), Page: i32()}
		case 8:
			path, req = "/artery.noding.v1beta1.Query/Get", &noding.GetRequest{Account: acc()}
		case 9:
			path, req = "/artery.noding.v1beta1.Query/State", &noding.StateRequest{Account: acc()}
		case 10:
			path, req = "/artery.noding.v1beta1.Query/Proposer", &noding.ProposerRequest{Height: int64(w.R.Intn(100)) - 2}
		case 11:
			path, req = "/artery.noding.v1beta1.Query/IsAllowed", &noding.IsAllowedRequest{Account: acc()}
		case 12:
			path, req = "/artery.noding.v1beta1.Query/Operator", &noding.OperatorRequest{ConsAddress: w.G.Nodes[0].Cons.String(), Format: noding.OperatorRequest_Format(w.R.Intn(4))}
		case 13:
			path, req = "/artery.noding.v1beta1.Query/SwitchedOn", &noding.SwitchedOnRequest{}
		case 14:
			path, req = "/artery.noding.v1beta1.Query/Queue", &noding.QueueRequest{}
		case 15:
			path, req = "/artery.profile.v1beta1.Query/GetByAddress", &profile.GetByAddressRequest{Address: acc()}
		case 16:
			path, req = "/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: w.nickname()}
		case 17:
			path, req = "/artery.profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: uint64(w.R.Intn(100))}
		case 18:
			path, req = "/artery.referral.v1beta1.Query/Get", &referral.GetRequest{AccAddress: acc(), Light: w.R.chance(0.5)}
		case 19:
			path, req = "/artery.referral.v1beta1.Query/Coins", &referral.CoinsRequest{AccAddress: acc(), MaxDepth: uint32(w.R.Intn(14))}
		case 20:
			path, req = "/artery.referral.v1beta1.Query/CheckStatus", &referral.CheckStatusRequest{AccAddress: acc(), Status: referral.Status(w.R.Intn(11))}
		case 21:
			path, req = "/artery.referral.v1beta1.Query/ValidateTransition", &referral.ValidateTransitionRequest{Subject: acc(), Target: acc()}
		case 22:
			path, req = "/artery.referral.v1beta1.Query/AllWithStatus", &referral.AllWithStatusRequest{Status: referral.Status(w.R.Intn(11))}
		case 23:
			path, req = "/artery.schedule.v1beta1.Query/All", &schedule.AllRequest{}
		case 24:
			path, req = "/artery.schedule.v1beta1.Query/Get", &schedule.GetRequest{Since: "2022-01-01T00:00:00Z", To: "2022-02-01T00:00:00Z"}
		case 25:
			path, req = "/artery.voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: i32(), Page: i32()}
		case 26:
			path, req = "/artery.voting.v1beta1.Query/Current", &voting.CurrentRequest{}
		default:
			path, req = "/artery.voting.v1beta1.Query/PollHistory", &voting.PollHistoryRequest{Limit: i32(), Page: i32()}
		}
		r = append(r, abci.RequestQuery{Path: path, Data: mustProto(req)})
	}
	return r
}

// ---- Q01: queries answer from the committed state --------------------------------------------------------------------

type monQuery struct {
	NopMonitor
	props map[int64]string
	past  []*Snap
	last  *Snap // the last committed state
}

// Tx asks while a block is being executed.
func (m *monQuery) Tx(w *World, _, _ *Snap, _ *TxRec) {
	if m.last != nil && w.R.chance(0.02) {
		w.Rep.Count("within blocks", 1)
		m.judge(w, m.last)
	}
}

func (m *monQuery) EndBlock(w *World, _, _ *Snap, _ abci.ResponseEndBlock) {
	if m.last != nil && w.R.chance(0.05) {
		w.Rep.Count("within blocks", 1)
		m.judge(w, m.last)
	}
}

func (m *monQuery) Start(w *World) { m.props = map[int64]string{} }

func (m *monQuery) BeginBlock(w *World, pre, post *Snap, b *BlockRec, _ abci.ResponseBeginBlock) {
	if op := operatorOf(pre, b.Proposer); op != "" {
		m.props[b.Height] = op
	}
}

func (m *monQuery) Commit(w *World, s *Snap) {
	m.last = s
	if w.R.chance(0.4) {
		m.judge(w, s)
	}
	if w.R.chance(0.15) {
		m.legacy(w, s)
	}
	if w.R.chance(0.1) {
		m.past = append(m.past, s)
	}
	if len(m.past) > 0 && w.R.chance(0.2) {
		// a past height answers what it was, not what it is now
		o := m.past[w.R.Intn(len(m.past))]
		w.QueryAt = o.Height
		m.judge(w, o)
		w.QueryAt = 0
		w.Rep.Count("past heights", 1)
		b := o.addrs()[w.R.Intn(len(o.Accs))]
		func() {
			defer guardApp("Query")
			res := w.C.App.Query(abci.RequestQuery{Path: "/artery.bank.v1beta1.Query/Balance", Data: mustProto(&bank.BalanceRequest{AccAddress: b}), Height: o.Height})
			var x bank.BalanceResponse
			must(proto.Unmarshal(res.Value, &x))
			if !sdk.Coins(x.Balance).IsEqual(o.Bal[b]) {
				w.Rep.Violate(w, "past-balance", "%s at height %d: %s, it was %s", b, o.Height, x.Balance, o.Bal[b])
			}
			w.Rep.Eval("past/%d", (w.C.Height-o.Height)/10)
		}()
	}
}

func isSDKOk(r abci.ResponseQuery) bool { return r.Code == 0 }

func (m *monQuery) judge(w *World, s *Snap) {
	rep := w.Rep
	ask := func(name string, req, resp proto.Message) (ok bool) {
		r := query(w, "/artery."+name, req)
		rep.Count("queries", 1)
		rep.Count("q:"+name, 1)
		rep.Eval("%s/%v", name, r.Code)
		if strings.Contains(r.Log, "panic") {
			rep.Count("recovered panics", 1)
		}
		if !isSDKOk(r) {
			return false
		}
		must(proto.Unmarshal(r.Value, resp))
		return true
	}
	bad := func(name string, f string, a ...interface{}) { rep.Violate(w, name, f, a...) }
	eq := func(name string, got, want interface{}, what ...interface{}) {
		if g, x := str(got), str(want); g != x {
			bad(name, "%v: answered %s, the state says %s", what, clip(g, 400), clip(x, 400))
		}
	}
	accs := s.addrs()
	some := func() string {
		if w.R.chance(0.7) {
			return w.anyAcc().B
		}
		return accs[w.R.Intn(len(accs))]
	}
	for i := 0; i < 3; i++ {
		b := some()
		var bal bank.BalanceResponse
		if ask("bank.v1beta1.Query/Balance", &bank.BalanceRequest{AccAddress: b}, &bal) {
			if !sdk.Coins(bal.Balance).IsEqual(s.Bal[b]) {
				bad("balance", "%s: answered %s, the state says %s", b, bal.Balance, s.Bal[b])
			}
		} else {
			bad("balance", "%s: refused", b)
		}
		var dg delegating.GetResponse
		d, has := s.Del[b]
		if ask("delegating.v1beta1.Query/Get", &delegating.GetRequest{AccAddress: b}, &dg) {
			if has != (dg.Data != nil) {
				bad("delegating-get", "%s: presence %v, expected %v", b, dg.Data != nil, has)
			} else if has {
				eq("delegating-get", *dg.Data, d, b)
			}
		}
		var dr delegating.RevokingResponse
		if ask("delegating.v1beta1.Query/Revoking", &delegating.RevokingRequest{AccAddress: b}, &dr) {
			var sum int64
			for _, x := range dr.Revoking {
				sum += x.Amount.Int64()
			}
			if sum != s.bal(b, dRev) {
				bad("revoking", "%s: the requests add up to %d, the account has %d being revoked", b, sum, s.bal(b, dRev))
			}
			eq("revoking", dr.Revoking, d.Requests, b)
		}
		var da delegating.AccumulationResponse
		if _, hasProf := s.Prof[b]; hasProf {
			if ok := ask("delegating.v1beta1.Query/Accumulation", &delegating.AccumulationRequest{AccAddress: b}, &da); ok != (d.NextAccrue != nil) {
				bad("accumulation", "%s: answered %v, next accrual is %v", b, ok, d.NextAccrue)
			} else if ok {
				if !da.End.Equal(*d.NextAccrue) || !da.Start.Equal(d.NextAccrue.Add(-s.day())) {
					bad("accumulation", "%s: period %s..%s, next accrual at %s", b, da.Start, da.End, d.NextAccrue)
				}
			}
		}
		var eg earning.GetResponse
		if ask("earning.v1beta1.Query/Get", &earning.GetRequest{Address: b}, &eg) {
			x := s.Earn[b]
			x.Account = b
			eq("earner", eg.Earner, x, b)
		} else {
			bad("earner", "%s: refused", b)
		}
		var many []string
		for j := w.R.Intn(6); j >= 0; j-- {
			many = append(many, some())
		}
		if w.R.chance(0.2) {
			many = append(many, newAcc("nobody").B)
		}
		var em earning.GetMultipleResponse
		if ask("earning.v1beta1.Query/GetMultiple", &earning.GetMultipleRequest{Addresses: many}, &em) {
			var x []earning.Earner
			for _, a := range many {
				e := s.Earn[a]
				e.Account = a
				x = append(x, e)
			}
			eq("earners", em.Earners, x, many)
		} else {
			bad("earners", "%v: refused", many)
		}
		n, isNode := s.Node[b]
		var ng noding.GetResponse
		if ask("noding.v1beta1.Query/Get", &noding.GetRequest{Account: b}, &ng) != isNode {
			bad("noding-get", "%s: presence is not %v", b, isNode)
		} else if isNode {
			eq("noding-get", ng.Info, n, b)
		}
		var ns noding.StateResponse
		if ask("noding.v1beta1.Query/State", &noding.StateRequest{Account: b}, &ns) {
			if x := stateOf(n, isNode); ns.State != x {
				bad("noding-state", "%s: answered %s, should be %s (%s)", b, ns.State, x, str(n))
			}
		} else {
			bad("noding-state", "%s: refused", b)
		}
		rf, inTree := s.Ref[b]
		if inTree {
			var na noding.IsAllowedResponse
			if ask("noding.v1beta1.Query/IsAllowed", &noding.IsAllowedRequest{Account: b}, &na) {
				if x, why := qualified(s, b); x != na.Verdict {
					bad("is-allowed", "%s: answered %v (%s), should be %v (%s)", b, na.Verdict, na.Reason, x, why)
				}
			} else {
				bad("is-allowed", "%s: refused", b)
			}
			var rg referral.GetResponse
			light := w.R.chance(0.5)
			if ask("referral.v1beta1.Query/Get", &referral.GetRequest{AccAddress: b, Light: light}, &rg) {
				x := rf
				if light {
					x.Referrals, x.ActiveReferrals = nil, nil
				}
				eq("referral-get", rg.Info, x, b)
			} else {
				bad("referral-get", "%s: refused", b)
			}
			depth := w.R.Intn(13)
			var rc referral.CoinsResponse
			if ask("referral.v1beta1.Query/Coins", &referral.CoinsRequest{AccAddress: b, MaxDepth: uint32(depth)}, &rc) {
				l := linesOpened(rf.Status)
				if depth > 0 && depth < l {
					l = depth
				}
				var c, dl int64
				for i := 0; i <= l; i++ {
					if !rf.Coins[i].IsNil() {
						c += rf.Coins[i].Int64()
					}
					if !rf.Delegated[i].IsNil() {
						dl += rf.Delegated[i].Int64()
					}
				}
				if rc.Total.Int64() != c || rc.Delegated.Int64() != dl {
					bad("network-coins", "%s, %d levels: answered %s and %s, should be %d and %d", b, depth, rc.Total, rc.Delegated, c, dl)
				}
			} else {
				bad("network-coins", "%s: refused", b)
			}
		}
		p, hasProf := s.Prof[b]
		var pg profile.GetByAddressResponse
		if ask("profile.v1beta1.Query/GetByAddress", &profile.GetByAddressRequest{Address: b}, &pg) != hasProf {
			bad("profile-get", "%s: presence is not %v", b, hasProf)
		} else if hasProf {
			eq("profile-get", pg.Profile, p, b)
			var pc profile.GetByCardNumberResponse
			if !ask("profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: p.CardNumber}, &pc) || pc.Address != b {
				bad("profile-by-card", "card %d of %s belongs to %q", p.CardNumber, b, pc.Address)
			}
			if p.Nickname != "" {
				nick := p.Nickname
				if w.R.chance(0.5) {
					nick = strings.ToUpper(nick)
				}
				var pn profile.GetByNicknameResponse
				if !ask("profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: nick}, &pn) || pn.Address != b {
					bad("profile-by-nickname", "nickname %q of %s belongs to %q", nick, b, pn.Address)
				} else {
					eq("profile-by-nickname", pn.Profile, p, b)
				}
			}
		}
	}
	var sup bank.SupplyResponse
	if ask("bank.v1beta1.Query/Supply", &bank.SupplyRequest{}, &sup) {
		for _, d := range denoms {
			if got := sdk.Coins(sup.Supply.Total).AmountOf(d); !got.Equal(s.sum(d)) {
				bad("supply", "answered %s%s, the accounts hold %s", got, d, s.sum(d))
			}
		}
	}
	var p1 bank.ParamsResponse
	if ask("bank.v1beta1.Query/Params", &bank.ParamsRequest{}, &p1) {
		eq("params-bank", p1.Params, s.P.Bank)
	}
	var p2 delegating.ParamsResponse
	if ask("delegating.v1beta1.Query/Params", &delegating.ParamsRequest{}, &p2) {
		eq("params-delegating", *p2.Params, s.P.Deleg)
	}
	var p3 earning.ParamsResponse
	if ask("earning.v1beta1.Query/Params", &earning.ParamsRequest{}, &p3) {
		eq("params-earning", p3.Params, s.P.Earn)
	}
	var p4 noding.ParamsResponse
	if ask("noding.v1beta1.Query/Params", &noding.ParamsRequest{}, &p4) {
		eq("params-noding", p4.Params, s.P.Node)
	}
	var p5 profile.ParamsResponse
	if ask("profile.v1beta1.Query/Params", &profile.ParamsRequest{}, &p5) {
		eq("params-profile", p5.Params, s.P.Prof)
	}
	var p6 referral.ParamsResponse
	if ask("referral.v1beta1.Query/Params", &referral.ParamsRequest{}, &p6) {
		eq("params-referral", p6.Params, s.P.Ref)
	}
	var p7 schedule.ParamsResponse
	if ask("schedule.v1beta1.Query/Params", &schedule.ParamsRequest{}, &p7) {
		eq("params-schedule", p7.Params, s.P.Sch)
	}
	var p8 voting.ParamsResponse
	if ask("voting.v1beta1.Query/Params", &voting.ParamsRequest{}, &p8) {
		eq("params-voting", p8.Params, s.P.Vote)
	}
	// lists
	var el earning.ListResponse
	limit := int32(1 + w.R.Intn(4))
	var earners []string
	for b := range s.Earn {
		earners = append(earners, b)
	}
	sort.Slice(earners, func(i, j int) bool {
		x, _ := sdk.AccAddressFromBech32(earners[i])
		y, _ := sdk.AccAddressFromBech32(earners[j])
		return bytes.Compare(x, y) < 0
	})
	pages := int32(len(earners))/limit + 1
	page := 1 + int32(w.R.Intn(int(pages)+1))
	if ask("earning.v1beta1.Query/List", &earning.ListRequest{Limit: limit, Page: page}, &el) {
		var want []string
		for i := limit * (page - 1); i < limit*page && int(i) < len(earners); i++ {
			want = append(want, earners[i])
		}
		var got []string
		for _, e := range el.List {
			got = append(got, e.Account)
			eq("earning-list", e, s.Earn[e.Account], e.Account)
		}
		eq("earning-list", strings.Join(got, " "), strings.Join(want, " "), limit, page)
	}
	var on noding.SwitchedOnResponse
	if ask("noding.v1beta1.Query/SwitchedOn", &noding.SwitchedOnRequest{}, &on) {
		var want []string
		for b, n := range s.Node {
			if n.Status && !n.Jailed && !n.BannedForLife {
				want = append(want, b)
			}
		}
		sort.Strings(want)
		got := append([]string(nil), on.Accounts...)
		sort.Strings(got)
		eq("switched-on", strings.Join(got, " "), strings.Join(want, " "))
	}
	var qu noding.QueueResponse
	if ask("noding.v1beta1.Query/Queue", &noding.QueueRequest{}, &qu) {
		want := map[uint64]string{}
		for b, n := range s.Node {
			if n.LotteryNo != 0 {
				want[n.LotteryNo] = b
			}
		}
		got := map[uint64]string{}
		var last uint64
		for _, v := range qu.Queue {
			got[v.No] = v.Account
			if v.No <= last {
				bad("lottery-queue", "the queue is out of order at %d", v.No)
			}
			last = v.No
		}
		eq("lottery-queue", fmt.Sprint(got), fmt.Sprint(want))
	}
	for b, n := range s.Node {
		ca := consAddrOf(n.PubKey)
		var op noding.OperatorResponse
		f := noding.OperatorRequest_FORMAT_BECH32
		a := sdk.ConsAddress(ca).String()
		if w.R.chance(0.5) {
			f, a = noding.OperatorRequest_FORMAT_HEX, fmt.Sprintf("%X", ca)
		}
		if n.Status && !n.Jailed && !n.BannedForLife {
			if !ask("noding.v1beta1.Query/Operator", &noding.OperatorRequest{ConsAddress: a, Format: f}, &op) || op.Account != b {
				bad("operator", "the operator of %s is %s, answered %q", a, b, op.Account)
			}
		}
	}
	st := referral.Status(5 + w.R.Intn(5))
	var as referral.AllWithStatusResponse
	if ask("referral.v1beta1.Query/AllWithStatus", &referral.AllWithStatusRequest{Status: st}, &as) {
		var want []string
		for b, r := range s.Ref {
			if r.Status == st {
				want = append(want, b)
			}
		}
		sort.Strings(want)
		got := append([]string(nil), as.Accounts...)
		sort.Strings(got)
		if st >= referral.STATUS_BUSINESSMAN {
			eq("all-with-status", strings.Join(got, " "), strings.Join(want, " "), st)
		}
	}
	var sa schedule.AllResponse
	if ask("schedule.v1beta1.Query/All", &schedule.AllRequest{}, &sa) {
		eq("schedule-all", fmt.Sprint(taskSet(sa.Tasks)), fmt.Sprint(taskSet(s.Tasks)))
	}
	from := s.Time.Add(time.Duration(w.R.between(-3, 20)) * s.day() / 4)
	to := from.Add(time.Duration(w.R.between(1, 40)) * s.day() / 4)
	if len(s.Tasks) > 0 && w.R.chance(0.5) {
		from = s.Tasks[w.R.Intn(len(s.Tasks))].Time
	}
	if len(s.Tasks) > 0 && w.R.chance(0.5) {
		to = s.Tasks[w.R.Intn(len(s.Tasks))].Time
	}
	if !to.Before(from) {
		var sg schedule.GetResponse
		if ask("schedule.v1beta1.Query/Get", &schedule.GetRequest{Since: from.UTC().Format(time.RFC3339Nano), To: to.UTC().Format(time.RFC3339Nano)}, &sg) {
			var want []schedule.Task
			for _, t := range s.Tasks {
				if !t.Time.Before(from) && t.Time.Before(to) {
					want = append(want, t)
				}
			}
			eq("schedule-get", fmt.Sprint(taskSet(sg.Tasks)), fmt.Sprint(taskSet(want)), from, to)
		} else if !from.Equal(to) {
			bad("schedule-get", "refused %s..%s", from, to)
		}
	}
	var vc voting.CurrentResponse
	if ask("voting.v1beta1.Query/Current", &voting.CurrentRequest{}, &vc) {
		if s.Prop == nil {
			eq("voting-current", vc.Proposal, voting.Proposal{})
		} else {
			eq("voting-current", vc.Proposal, *s.Prop)
			eq("voting-current", fmt.Sprint(vc.Government, vc.Agreed, vc.Disagreed), fmt.Sprint(s.Gov, s.Agreed, s.Disagr))
		}
	}
	var vg voting.GovernmentResponse
	if ask("voting.v1beta1.Query/Government", &voting.GovernmentRequest{}, &vg) {
		eq("government", fmt.Sprint(vg.Members), fmt.Sprint(s.Gov))
	}
	var vh voting.HistoryResponse
	page = 1 + int32(w.R.Intn(len(s.Hist)/int(limit)+2))
	if ask("voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: limit, Page: page}, &vh) {
		lo := min(int(limit*(page-1)), len(s.Hist))
		hi := min(int(limit*page), len(s.Hist))
		eq("voting-history", vh.History, s.Hist[lo:hi], limit, page)
	}
	var vp voting.PollResponse
	if ask("voting.v1beta1.Query/Poll", &voting.PollRequest{}, &vp) != (s.Poll != nil) {
		bad("poll", "presence is not %v", s.Poll != nil)
	} else if s.Poll != nil {
		eq("poll", vp.Poll, *s.Poll)
		var yes, no uint64
		for _, a := range s.Ans {
			if a {
				yes++
			} else {
				no++
			}
		}
		if vp.Yes != yes || vp.No != no {
			bad("poll", "answered %d:%d, the answers are %d:%d", vp.Yes, vp.No, yes, no)
		}
	}
	var ph voting.PollHistoryResponse
	page = 1 + int32(w.R.Intn(len(s.PHist)/int(limit)+2))
	if ask("voting.v1beta1.Query/PollHistory", &voting.PollHistoryRequest{Limit: limit, Page: page}, &ph) {
		lo := min(int(limit*(page-1)), len(s.PHist))
		hi := min(int(limit*page), len(s.PHist))
		eq("poll-history", ph.History, s.PHist[lo:hi], limit, page)
	}
	// who proposed what
	for h, op := range m.props {
		if h > s.Height {
			continue
		}
		if w.R.chance(0.1) {
			var np noding.ProposerResponse
			if !ask("noding.v1beta1.Query/Proposer", &noding.ProposerRequest{Height: h - 1}, &np) || np.Account != op {
				bad("proposer", "block %d: answered %q, rewarded %s", h-1, np.Account, op)
			}
		}
	}
	rep.Sample(map[string]interface{}{"where": w.where(), "accounts": len(accs), "switched_on": len(on.Accounts), "tasks": len(s.Tasks)})
}

// stateOf is the documented state of a validator.
func stateOf(n noding.Info, has bool) noding.ValidatorState {
	switch {
	case !has:
		return noding.VALIDATOR_STATE_OFF
	case n.BannedForLife:
		return noding.VALIDATOR_STATE_BAN
	case n.Jailed:
		return noding.VALIDATOR_STATE_JAIL
	case !n.Status:
		return noding.VALIDATOR_STATE_OFF
	case n.LastPower == 0:
		return noding.VALIDATOR_STATE_SPARE
	case n.LotteryNo == 0:
		return noding.VALIDATOR_STATE_TOP
	}
	return noding.VALIDATOR_STATE_LUCKY
}

func linesOpened(s referral.Status) int {
	switch s {
	case referral.STATUS_LUCKY:
		return 4
	case referral.STATUS_LEADER:
		return 6
	case referral.STATUS_MASTER:
		return 8
	case referral.STATUS_UNSPECIFIED:
		return 0
	}
	return 10
}

// networkDelegated is what an account and the levels open to it have delegated, recomputed from balances and the tree.
func networkDelegated(s *Snap, b string) int64 {
	l := linesOpened(s.Ref[b].Status)
	var sum int64
	for i := 0; i <= l && i < len(s.Ref[b].Delegated); i++ {
		if x := s.Ref[b].Delegated[i]; !x.IsNil() {
			sum += x.Int64()
		}
	}
	return sum
}

// qualified says whether an account meets the criteria for validators.
func qualified(s *Snap, b string) (bool, string) {
	if s.Node[b].Staff {
		return true, "staff"
	}
	c := s.P.Node.MinCriteria
	if s.Ref[b].Status < c.Status {
		return false, "status"
	}
	if uint64(s.bal(b, dDel)) < c.SelfStake {
		return false, "self stake"
	}
	if uint64(networkDelegated(s, b)) < c.TotalStake {
		return false, "total stake"
	}
	return true, ""
}
