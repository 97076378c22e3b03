//go:build testing
// +build testing

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/app"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// The older form of queries ("custom/MODULE/PATH", JSON in and out) is to give the same answers as the gRPC one, which
// the rest of Q01 judges against the state.

var legacyCdc = app.NewEncodingConfig().Amino

// legacyPair is one question asked in both ways.
type legacyPair struct {
	path string        // after "custom/"
	data interface{}   // is sent as JSON
	grpc string        // after "/artery."
	req  proto.Message // the same question
	resp proto.Message // is filled with the answer
	want func() interface{}
	raw  func() []byte // the answer isn't JSON
}

func legacyPairs(w *World, b, b2 string, s *Snap) (r []*legacyPair) {
	add := func(p *legacyPair) { r = append(r, p) }
	acc, err := sdk.AccAddressFromBech32(b)
	if err != nil {
		return nil
	}
	bal := new(bank.BalanceResponse)
	add(&legacyPair{path: "artrbank/balances", data: bank.QueryBalanceParams{Address: acc}, grpc: "bank.v1beta1.Query/Balance", req: &bank.BalanceRequest{AccAddress: b}, resp: bal, want: func() interface{} { return bal.Balance }})
	bp := new(bank.ParamsResponse)
	add(&legacyPair{path: "artrbank/params", grpc: "bank.v1beta1.Query/Params", req: &bank.ParamsRequest{}, resp: bp, want: func() interface{} { return bp.Params }})
	dp := new(delegating.ParamsResponse)
	add(&legacyPair{path: "delegating/params", grpc: "delegating.v1beta1.Query/Params", req: &delegating.ParamsRequest{}, resp: dp, want: func() interface{} { return dp.Params }})
	dr := new(delegating.RevokingResponse)
	add(&legacyPair{path: "delegating/revoking", data: delegating.RevokingRequest{AccAddress: b}, grpc: "delegating.v1beta1.Query/Revoking", req: &delegating.RevokingRequest{AccAddress: b}, resp: dr, want: func() interface{} { return dr }})
	da := new(delegating.AccumulationResponse)
	add(&legacyPair{path: "delegating/accum", data: delegating.AccumulationRequest{AccAddress: b}, grpc: "delegating.v1beta1.Query/Accumulation", req: &delegating.AccumulationRequest{AccAddress: b}, resp: da, want: func() interface{} { return da }})
	ep := new(earning.ParamsResponse)
	add(&legacyPair{path: "earning/params", grpc: "earning.v1beta1.Query/Params", req: &earning.ParamsRequest{}, resp: ep, want: func() interface{} { return ep.Params }})
	np := new(noding.ParamsResponse)
	add(&legacyPair{path: "noding/params", grpc: "noding.v1beta1.Query/Params", req: &noding.ParamsRequest{}, resp: np, want: func() interface{} { return np.Params }})
	ng := new(noding.GetResponse)
	add(&legacyPair{path: "noding/info/" + b, grpc: "noding.v1beta1.Query/Get", req: &noding.GetRequest{Account: b}, resp: ng, want: func() interface{} { return ng.Info }})
	ng2 := new(noding.StateResponse)
	add(&legacyPair{path: "noding/status/" + b, grpc: "noding.v1beta1.Query/State", req: &noding.StateRequest{Account: b}, resp: ng2, want: func() interface{} {
		n, has := s.Node[b]
		return has && n.Status && !n.Jailed && !n.BannedForLife
	}})
	ns := new(noding.StateResponse)
	add(&legacyPair{path: "noding/state/" + b, grpc: "noding.v1beta1.Query/State", req: &noding.StateRequest{Account: b}, resp: ns, raw: func() []byte { return []byte{byte(ns.State)} }})
	na := new(noding.IsAllowedResponse)
	add(&legacyPair{path: "noding/allowed/" + b, grpc: "noding.v1beta1.Query/IsAllowed", req: &noding.IsAllowedRequest{Account: b}, resp: na, want: func() interface{} { return na }})
	h := int64(w.R.Intn(int(w.C.App.LastBlockHeight()) + 3))
	npr := new(noding.ProposerResponse)
	add(&legacyPair{path: fmt.Sprintf("noding/proposer/%d", h), grpc: "noding.v1beta1.Query/Proposer", req: &noding.ProposerRequest{Height: h}, resp: npr, raw: func() []byte {
		a, _ := sdk.AccAddressFromBech32(npr.Account)
		return a
	}})
	cons := w.G.Nodes[w.R.Intn(len(w.G.Nodes))].Cons
	no := new(noding.OperatorResponse)
	f, t := noding.OperatorRequest_FORMAT_BECH32, "bech32/"+cons.String()
	ca := cons.String()
	if w.R.chance(0.5) {
		ca = fmt.Sprintf("%X", []byte(cons))
		f, t = noding.OperatorRequest_FORMAT_HEX, "hex/"+ca
	}
	add(&legacyPair{path: "noding/operator/" + t, grpc: "noding.v1beta1.Query/Operator", req: &noding.OperatorRequest{ConsAddress: ca, Format: f}, resp: no, raw: func() []byte {
		a, _ := sdk.AccAddressFromBech32(no.Account)
		return a
	}})
	nl := new(noding.SwitchedOnResponse)
	add(&legacyPair{path: "noding/switched-on", grpc: "noding.v1beta1.Query/SwitchedOn", req: &noding.SwitchedOnRequest{}, resp: nl, want: func() interface{} { return nl.Accounts }})
	pa := new(profile.GetByAddressResponse)
	add(&legacyPair{path: "profile/get_by_addr", data: profile.GetByAddressRequest{Address: b}, grpc: "profile.v1beta1.Query/GetByAddress", req: &profile.GetByAddressRequest{Address: b}, resp: pa, want: func() interface{} { return pa }})
	p := s.Prof[b]
	pn := new(profile.GetByNicknameResponse)
	add(&legacyPair{path: "profile/get_by_nick", data: profile.GetByNicknameRequest{Nickname: p.Nickname}, grpc: "profile.v1beta1.Query/GetByNickname", req: &profile.GetByNicknameRequest{Nickname: p.Nickname}, resp: pn, want: func() interface{} { return pn }})
	pc := new(profile.GetByCardNumberResponse)
	add(&legacyPair{path: "profile/get_by_card", data: profile.GetByCardNumberRequest{CardNumber: p.CardNumber}, grpc: "profile.v1beta1.Query/GetByCardNumber", req: &profile.GetByCardNumberRequest{CardNumber: p.CardNumber}, resp: pc, want: func() interface{} { return pc }})
	pp := new(profile.ParamsResponse)
	add(&legacyPair{path: "profile/params", grpc: "profile.v1beta1.Query/Params", req: &profile.ParamsRequest{}, resp: pp, want: func() interface{} { return pp }})
	rp := new(referral.ParamsResponse)
	add(&legacyPair{path: "referral/params", grpc: "referral.v1beta1.Query/Params", req: &referral.ParamsRequest{}, resp: rp, want: func() interface{} { return rp.Params }})
	rg := new(referral.GetResponse)
	add(&legacyPair{path: "referral/info", data: referral.GetRequest{AccAddress: b}, grpc: "referral.v1beta1.Query/Get", req: &referral.GetRequest{AccAddress: b}, resp: rg, want: func() interface{} { return rg.Info }})
	depth := uint32(w.R.Intn(13))
	rc := new(referral.CoinsResponse)
	add(&legacyPair{path: "referral/coins", data: referral.CoinsRequest{AccAddress: b, MaxDepth: depth}, grpc: "referral.v1beta1.Query/Coins", req: &referral.CoinsRequest{AccAddress: b, MaxDepth: depth}, resp: rc, want: func() interface{} { return rc }})
	st := referral.Status(1 + w.R.Intn(9))
	rs := new(referral.CheckStatusResponse)
	add(&legacyPair{path: "referral/check-status", data: referral.CheckStatusRequest{AccAddress: b, Status: st}, grpc: "referral.v1beta1.Query/CheckStatus", req: &referral.CheckStatusRequest{AccAddress: b, Status: st}, resp: rs, want: func() interface{} { return rs.Result }})
	rv := new(referral.ValidateTransitionResponse)
	add(&legacyPair{path: "referral/validate-transition", data: referral.ValidateTransitionRequest{Subject: b, Target: b2}, grpc: "referral.v1beta1.Query/ValidateTransition", req: &referral.ValidateTransitionRequest{Subject: b, Target: b2}, resp: rv, want: func() interface{} { return rv }})
	vp := new(voting.ParamsResponse)
	add(&legacyPair{path: "voting/params", grpc: "voting.v1beta1.Query/Params", req: &voting.ParamsRequest{}, resp: vp, want: func() interface{} { return vp.Params }})
	vg := new(voting.GovernmentResponse)
	add(&legacyPair{path: "voting/government", grpc: "voting.v1beta1.Query/Government", req: &voting.GovernmentRequest{}, resp: vg, want: func() interface{} { return vg }})
	vc := new(voting.CurrentResponse)
	add(&legacyPair{path: "voting/current", grpc: "voting.v1beta1.Query/Current", req: &voting.CurrentRequest{}, resp: vc, want: func() interface{} {
		if s.Prop == nil {
			return nil
		}
		return vc
	}})
	vh := new(voting.HistoryResponse)
	lim, page := int32(1+w.R.Intn(4)), int32(1+w.R.Intn(3))
	add(&legacyPair{path: "voting/history", data: voting.HistoryRequest{Limit: lim, Page: page}, grpc: "voting.v1beta1.Query/History", req: &voting.HistoryRequest{Limit: lim, Page: page}, resp: vh, want: func() interface{} { return vh.History }})
	return r
}

func (m *monQuery) legacy(w *World, s *Snap) {
	b := w.anyAcc().B
	if w.R.chance(0.1) {
		b = newAcc("nobody").B
	}
	for _, p := range legacyPairs(w, b, w.anyAcc().B, s) {
		g := query(w, "/artery."+p.grpc, p.req)
		var data []byte
		if p.data != nil {
			data = legacyCdc.MustMarshalJSON(p.data)
		}
		l := func() abci.ResponseQuery {
			defer guardApp("Query custom/" + p.path)
			return w.C.App.Query(abci.RequestQuery{Path: "custom/" + p.path, Data: data, Height: w.C.App.LastBlockHeight()})
		}()
		name := strings.Join(strings.SplitN(p.path, "/", 3)[:2], "/")
		w.Rep.Count("older queries", 1)
		w.Rep.Count("q:custom/"+name, 1)
		w.Rep.Eval("custom/%s/%v", name, l.Code)
		if isSDKOk(g) && !isSDKOk(l) && strings.HasPrefix(p.path, "voting/") && strings.Contains(l.Log, "Unregistered interface types.isProposal_Args") {
			w.Rep.Violate(w, "older-query-proposal-args", "%s %s: code %d (%s)", p.path, data, l.Code, clip(l.Log, 200))
			continue
		}
		if isSDKOk(g) != isSDKOk(l) {
			w.Rep.Violate(w, "older-query-"+name, "%s %s: code %d (%s), while %s has code %d (%s)", p.path, data, l.Code, clip(l.Log, 200), p.grpc, g.Code, clip(g.Log, 200))
			continue
		}
		if !isSDKOk(l) {
			continue
		}
		must(proto.Unmarshal(g.Value, p.resp))
		var want []byte
		if p.raw != nil {
			want = p.raw()
		} else {
			var err error
			want, err = codec.MarshalJSONIndent(legacyCdc, p.want())
			must(err)
		}
		if string(want) == "null" && string(l.Value) == "[]" {
			continue // an empty list
		}
		if !bytes.Equal(want, l.Value) {
			w.Rep.Violate(w, "older-query-"+name, "%s %s: answered %q, while %s gives %q", p.path, data, clip(string(l.Value), 300), p.grpc, clip(string(want), 300))
		}
	}
}
