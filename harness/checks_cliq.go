//go:build testing
// +build testing

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"
	"gopkg.in/yaml.v3"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// ---- C02: the command line shows what the node answers -----------------------------------------------------------------

// qArgs makes up arguments of queries; bad is set once one of them isn't what the usage asks for.
type qArgs struct {
	*Rng
	w     *World
	s     *Snap
	bad   string
	plain bool // no wrong arguments
}

func (g *qArgs) spoil() bool { return !g.plain && g.bad == "" && g.Intn(10) == 0 }

// addr is somebody's address, or something the node has to make out.
func (g *qArgs) addr() string {
	switch g.Intn(12) {
	case 0:
		return newAcc("nobody").B
	case 1:
		return "nonsense"
	}
	if g.Intn(2) == 0 {
		if ns := sortedNodes(g.s); len(ns) > 0 {
			return ns[g.Intn(len(ns))]
		}
	}
	return g.w.G.Accs[g.Intn(len(g.w.G.Accs))].B
}

// checked is an address the program has to be satisfied with before asking.
func (g *qArgs) checked() string {
	a := g.addr()
	if _, err := sdk.AccAddressFromBech32(a); err != nil {
		g.bad = "address"
	}
	return a
}

func (g *qArgs) num(max int, what string) (string, int) {
	if g.spoil() {
		g.bad = what
		return []string{"abc", "1.5", "7x", "1e1", "5 6", "99999999999999999999"}[g.Intn(6)], 0
	}
	x := g.Intn(max)
	return strconv.Itoa(x), x
}

type qCase struct {
	args     []string
	path     string
	req, res proto.Message
	what     func() interface{} // what is shown of the answer
}

type qCmd struct {
	names []string
	make  func(g *qArgs) qCase
}

type qModule struct {
	names []string
	cmds  []qCmd
}

func qParams(names string, path string, req, res proto.Message, field string) qCmd {
	return qCmd{strings.Fields(names), func(g *qArgs) qCase {
		r := reflect.New(reflect.TypeOf(res).Elem())
		return qCase{nil, path, req, r.Interface().(proto.Message), func() interface{} {
			if field == "" {
				return r.Interface()
			}
			return r.Elem().FieldByName(field).Interface()
		}}
	}}
}

// qPage makes up a page of a list.
func qPage(g *qArgs, flags bool, defLimit, defPage int32) (args []string, limit, page int32) {
	limit, page = defLimit, defPage
	n := g.Intn(3)
	if n > 0 {
		a, x := g.num(12, "limit")
		limit = int32(x)
		if flags {
			a = "--limit=" + a
		}
		args = append(args, a)
	}
	if n > 1 || flags && g.Intn(3) == 0 {
		a, x := g.num(5, "page")
		page = int32(x)
		if flags {
			a = "--page=" + a
		}
		args = append(args, a)
	}
	return
}

var qModules = []qModule{
	{[]string{"artrbank", "b"}, []qCmd{
		qParams("params p", "/artery.bank.v1beta1.Query/Params", &bank.ParamsRequest{}, &bank.ParamsResponse{}, "Params"),
		{strings.Fields("supply s"), func(g *qArgs) qCase {
			res := &bank.SupplyResponse{}
			return qCase{nil, "/artery.bank.v1beta1.Query/Supply", &bank.SupplyRequest{}, res, func() interface{} { return res.Supply.Total }}
		}},
		{strings.Fields("balance b"), func(g *qArgs) qCase {
			a, res := g.addr(), &bank.BalanceResponse{}
			return qCase{[]string{a}, "/artery.bank.v1beta1.Query/Balance", &bank.BalanceRequest{AccAddress: a}, res, func() interface{} { return res.Balance }}
		}},
	}},
	{[]string{"delegating", "d"}, []qCmd{
		qParams("params p", "/artery.delegating.v1beta1.Query/Params", &delegating.ParamsRequest{}, &delegating.ParamsResponse{}, "Params"),
		{strings.Fields("revoking r"), func(g *qArgs) qCase {
			a, res := g.addr(), &delegating.RevokingResponse{}
			return qCase{[]string{a}, "/artery.delegating.v1beta1.Query/Revoking", &delegating.RevokingRequest{AccAddress: a}, res, func() interface{} { return res.Revoking }}
		}},
		{strings.Fields("accum a"), func(g *qArgs) qCase {
			a, res := g.addr(), &delegating.AccumulationResponse{}
			return qCase{[]string{a}, "/artery.delegating.v1beta1.Query/Accumulation", &delegating.AccumulationRequest{AccAddress: a}, res, func() interface{} { return res }}
		}},
		{strings.Fields("get"), func(g *qArgs) qCase {
			a, res := g.addr(), &delegating.GetResponse{}
			return qCase{[]string{a}, "/artery.delegating.v1beta1.Query/Get", &delegating.GetRequest{AccAddress: a}, res, func() interface{} { return res }}
		}},
	}},
	{[]string{"earning", "e"}, []qCmd{
		qParams("params p", "/artery.earning.v1beta1.Query/Params", &earning.ParamsRequest{}, &earning.ParamsResponse{}, "Params"),
		{strings.Fields("get"), func(g *qArgs) qCase {
			var as []string
			for n := 1 + g.Intn(3); n > 0; n-- {
				as = append(as, g.addr())
			}
			res := &earning.GetMultipleResponse{}
			return qCase{as, "/artery.earning.v1beta1.Query/GetMultiple", &earning.GetMultipleRequest{Addresses: as}, res, func() interface{} { return res.Earners }}
		}},
		{strings.Fields("list"), func(g *qArgs) qCase {
			args, limit, page := qPage(g, g.Intn(2) == 0, 30, 1)
			res := &earning.ListResponse{}
			return qCase{args, "/artery.earning.v1beta1.Query/List", &earning.ListRequest{Limit: limit, Page: page}, res, func() interface{} { return res.List }}
		}},
	}},
	{[]string{"noding", "n"}, []qCmd{
		qParams("params", "/artery.noding.v1beta1.Query/Params", &noding.ParamsRequest{}, &noding.ParamsResponse{}, "Params"),
		qParams("switched-on so on", "/artery.noding.v1beta1.Query/SwitchedOn", &noding.SwitchedOnRequest{}, &noding.SwitchedOnResponse{}, "Accounts"),
		qParams("queue q", "/artery.noding.v1beta1.Query/Queue", &noding.QueueRequest{}, &noding.QueueResponse{}, "Queue"),
		{strings.Fields("info i"), func(g *qArgs) qCase {
			a, res := g.addr(), &noding.GetResponse{}
			return qCase{[]string{a}, "/artery.noding.v1beta1.Query/Get", &noding.GetRequest{Account: a}, res, func() interface{} { return res.Info }}
		}},
		{strings.Fields("state s"), func(g *qArgs) qCase {
			a, res := g.addr(), &noding.StateResponse{}
			return qCase{[]string{a}, "/artery.noding.v1beta1.Query/State", &noding.StateRequest{Account: a}, res, func() interface{} { return res.State }}
		}},
		{strings.Fields("proposer p"), func(g *qArgs) qCase {
			var args []string
			req, res := &noding.ProposerRequest{}, &noding.ProposerResponse{}
			if g.Intn(4) > 0 {
				a, x := g.num(int(g.w.C.Height)+3, "height")
				args, req.Height = []string{a}, int64(x)
			}
			return qCase{args, "/artery.noding.v1beta1.Query/Proposer", req, res, func() interface{} { return res.Account }}
		}},
		{strings.Fields("is-allowed ia a"), func(g *qArgs) qCase {
			a, res := g.addr(), &noding.IsAllowedResponse{}
			return qCase{[]string{a}, "/artery.noding.v1beta1.Query/IsAllowed", &noding.IsAllowedRequest{Account: a}, res, func() interface{} { return res }}
		}},
		{strings.Fields("whois w"), func(g *qArgs) qCase {
			n := g.w.G.Nodes[g.Intn(len(g.w.G.Nodes))]
			req, res := &noding.OperatorRequest{ConsAddress: n.Cons.String(), Format: noding.OperatorRequest_FORMAT_BECH32}, &noding.OperatorResponse{}
			if g.Intn(2) == 0 {
				req.ConsAddress = fmt.Sprintf("%X", []byte(n.Cons))
			}
			if g.Intn(6) == 0 {
				req.ConsAddress = "nonsense"
			}
			args := []string{req.ConsAddress}
			if !strings.HasPrefix(req.ConsAddress, "artr") && g.Intn(4) > 0 {
				req.Format = noding.OperatorRequest_FORMAT_HEX
				args = append(args, []string{"--hex", "-x"}[g.Intn(2)])
			}
			return qCase{args, "/artery.noding.v1beta1.Query/Operator", req, res, func() interface{} { return res.Account }}
		}},
	}},
	{[]string{"profile", "p"}, []qCmd{
		qParams("params p", "/artery.profile.v1beta1.Query/Params", &profile.ParamsRequest{}, &profile.ParamsResponse{}, "Params"),
		{strings.Fields("info"), func(g *qArgs) qCase {
			a, res := g.addr(), &profile.GetByAddressResponse{}
			return qCase{[]string{a}, "/artery.profile.v1beta1.Query/GetByAddress", &profile.GetByAddressRequest{Address: a}, res, func() interface{} { return res.Profile }}
		}},
		{strings.Fields("account-by-nickname account_by_nickname"), func(g *qArgs) qCase {
			n := "nobody"
			if p, ok := g.s.Prof[g.addr()]; ok && p.Nickname != "" && !strings.HasPrefix(p.Nickname, "-") {
				n = p.Nickname
			}
			res := &profile.GetByNicknameResponse{}
			return qCase{[]string{n}, "/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: n}, res, func() interface{} { return res }}
		}},
		{strings.Fields("account-by-card-number account_by_card_number"), func(g *qArgs) qCase {
			a, x := g.num(100, "card number")
			n := uint64(x)
			if p, ok := g.s.Prof[g.addr()]; ok && g.bad == "" && g.Intn(3) > 0 {
				n = p.CardNumber
				a = fmt.Sprint(n)
			}
			res := &profile.GetByCardNumberResponse{}
			return qCase{[]string{a}, "/artery.profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: n}, res, func() interface{} { return res }}
		}},
	}},
	{[]string{"referral", "ref", "r"}, []qCmd{
		qParams("params p", "/artery.referral.v1beta1.Query/Params", &referral.ParamsRequest{}, &referral.ParamsResponse{}, "Params"),
		{strings.Fields("info i"), func(g *qArgs) qCase {
			a := g.checked()
			req, res := &referral.GetRequest{AccAddress: a}, &referral.GetResponse{}
			args := []string{a}
			if g.Intn(2) == 0 {
				req.Light = true
				args = append(args, []string{"--light", "-l"}[g.Intn(2)])
			}
			return qCase{args, "/artery.referral.v1beta1.Query/Get", req, res, func() interface{} { return res.Info }}
		}},
		{strings.Fields("coins c"), func(g *qArgs) qCase {
			a := g.checked()
			req, res := &referral.CoinsRequest{AccAddress: a}, &referral.CoinsResponse{}
			args := []string{a}
			if g.Intn(3) > 0 {
				b, x := g.num(14, "depth")
				req.MaxDepth = uint32(x)
				args = append(args, b)
			}
			return qCase{args, "/artery.referral.v1beta1.Query/Coins", req, res, func() interface{} { return res }}
		}},
		{strings.Fields("check-status check_status cs"), func(g *qArgs) qCase {
			a := g.checked()
			b, x := g.num(11, "status")
			res := &referral.CheckStatusResponse{}
			return qCase{[]string{a, b}, "/artery.referral.v1beta1.Query/CheckStatus", &referral.CheckStatusRequest{AccAddress: a, Status: referral.Status(x)}, res, func() interface{} { return res.Result }}
		}},
		{strings.Fields("validate-transition validate_transition vt"), func(g *qArgs) qCase {
			a, b, res := g.checked(), g.checked(), &referral.ValidateTransitionResponse{}
			return qCase{[]string{a, b}, "/artery.referral.v1beta1.Query/ValidateTransition", &referral.ValidateTransitionRequest{Subject: a, Target: b}, res, func() interface{} { return res }}
		}},
		{strings.Fields("all-with-status all_with_status aws"), func(g *qArgs) qCase {
			b, x := g.num(11, "status")
			res := &referral.AllWithStatusResponse{}
			return qCase{[]string{b}, "/artery.referral.v1beta1.Query/AllWithStatus", &referral.AllWithStatusRequest{Status: referral.Status(x)}, res, func() interface{} { return res.Accounts }}
		}},
	}},
	{[]string{"schedule", "s"}, []qCmd{
		{strings.Fields("in"), func(g *qArgs) qCase {
			t := func(d int) string {
				if g.Intn(12) == 0 {
					return "yesterday"
				}
				return g.w.C.Time.Add(g.w.WL.Spec.Day*0).AddDate(0, 0, d).UTC().Format("2006-01-02T15:04:05Z")
			}
			req, res := &schedule.GetRequest{Since: t(-1), To: t(1 + g.Intn(40))}, &schedule.GetResponse{}
			return qCase{[]string{req.Since, req.To}, "/artery.schedule.v1beta1.Query/Get", req, res, func() interface{} { return res.Tasks }}
		}},
		qParams("all a", "/artery.schedule.v1beta1.Query/All", &schedule.AllRequest{}, &schedule.AllResponse{}, "Tasks"),
	}},
	{[]string{"voting"}, []qCmd{
		qParams("params p", "/artery.voting.v1beta1.Query/Params", &voting.ParamsRequest{}, &voting.ParamsResponse{}, "Params"),
		qParams("government", "/artery.voting.v1beta1.Query/Government", &voting.GovernmentRequest{}, &voting.GovernmentResponse{}, "Members"),
		qParams("current", "/artery.voting.v1beta1.Query/Current", &voting.CurrentRequest{}, &voting.CurrentResponse{}, ""),
		qParams("poll", "/artery.voting.v1beta1.Query/Poll", &voting.PollRequest{}, &voting.PollResponse{}, ""),
		{strings.Fields("history"), func(g *qArgs) qCase {
			args, limit, page := qPage(g, true, 30, 1)
			res := &voting.HistoryResponse{}
			return qCase{args, "/artery.voting.v1beta1.Query/History", &voting.HistoryRequest{Limit: limit, Page: page}, res, func() interface{} { return res.History }}
		}},
		{strings.Fields("poll-history"), func(g *qArgs) qCase {
			args, limit, page := qPage(g, false, 0, 0)
			res := &voting.PollHistoryResponse{}
			return qCase{args, "/artery.voting.v1beta1.Query/PollHistory", &voting.PollHistoryRequest{Limit: limit, Page: page}, res, func() interface{} { return res }}
		}},
	}},
}

// plain is what is written down, whatever the layout.
func plain(format string, bz []byte) (x interface{}, err error) {
	if format == "json" {
		d := json.NewDecoder(bytes.NewReader(bz))
		d.UseNumber()
		if err = d.Decode(&x); err == nil && d.More() {
			err = fmt.Errorf("there's something after the answer")
		}
		return
	}
	err = yaml.Unmarshal(bz, &x)
	return
}

func cliqCase(rep *Report, c *cli, s *Snap, m qModule, cmd qCmd, seed int64, k int) {
	g := &qArgs{Rng: newRng(seed), w: c.w, s: s}
	q := cmd.make(g)
	argv := append([]string{"query", m.names[k%len(m.names)], cmd.names[k%len(cmd.names)]}, q.args...)
	if g.Intn(10) == 0 {
		argv[0] = "q"
	}
	who := m.names[0] + " " + cmd.names[0]
	height := int64(0)
	if h := c.w.C.Height; g.Intn(3) == 0 {
		height = []int64{1, h, h - 1, 1 + g.Int63n(h), 1 + g.Int63n(h)}[g.Intn(5)]
		argv = append(argv, "--height", fmt.Sprint(height))
	}
	format := []string{"json", "json", "text", "text"}[g.Intn(4)]
	if format == "json" || g.Intn(2) == 0 {
		argv = append(argv, []string{"-o", "--output"}[g.Intn(2)], format)
	}
	o, e, ok := c.run("", argv...)
	full := strings.Join(argv, " ")
	rep.Count("command "+who, 1)
	if g.bad != "" {
		rep.Eval("%s/%v/%s/bad/%s", who, argv[1:3], format, g.bad)
		rep.Count("refused", 1)
		if ok {
			rep.Violate(nil, "cli:not refused:"+who, "artrd %s: there's a wrong %s there, but it answers: %s", full, g.bad, clip(o, 300))
		}
		return
	}
	want := func() abci.ResponseQuery {
		c.node.mu.Lock()
		defer c.node.mu.Unlock()
		return c.w.C.App.Query(abci.RequestQuery{Path: q.path, Data: mustProto(q.req), Height: height})
	}()
	rep.Eval("%s/%v/%s/%v/%v", who, argv[1:3], format, height != 0, want.Code)
	if want.Code != 0 {
		rep.Count("errors", 1)
		if ok {
			rep.Violate(nil, "cli:no error:"+who, "artrd %s: the node answers with an error (%s), the program shows %s", full, clip(want.Log, 200), clip(o, 300))
		}
		return
	}
	must(proto.Unmarshal(want.Value, q.res))
	var exp []byte
	var err error
	if format == "json" {
		exp, err = json.Marshal(q.what())
	} else {
		exp, err = yaml.Marshal(q.what())
	}
	must(err)
	x, err := plain(format, exp)
	must(err)
	if !ok {
		rep.Violate(nil, "cli:failed:"+who, "artrd %s: %s; expected %s", full, clip(strings.SplitN(e, "\n", 2)[0], 300), clip(string(exp), 300))
		return
	}
	if y, err := plain(format, []byte(o)); err != nil || !reflect.DeepEqual(x, y) {
		rep.Violate(nil, "cli:answer:"+who, "artrd %s: it says %s, expected %s (%v)", full, clip(o, 600), clip(string(exp), 600), err)
	}
	rep.Count("answers", 1)
	rep.Count("answers, "+format, 1)
	if height != 0 {
		rep.Count("answers, past states", 1)
	}
	if k == 0 {
		rep.Sample(map[string]interface{}{"command": full, "answer": clip(o, 300)})
	}
}

func init() {
	register(Check{
		ID:   "C02",
		Rule: "one evaluation per run of the artrd program with one query command; distinct by command, name it's called by, format, present or past state, what's wrong with the arguments, error code",
		Run: func(rep *Report, thorough bool, seed int64) {
			wls := append(mixedWorkloads(seed+32, 1, 60, 8), voteWorlds(seed+33, false)[0])
			for _, wl := range wls {
				w := newWorld(wl, rep)
				w.Run()
				c := newCli(w)
				s := takeSnap(w.C)
				per := 10
				if thorough {
					per = 150
				}
				type job struct{ m, cmd, k int }
				var jobs []job
				for i, m := range qModules {
					for j := range m.cmds {
						for k := 0; k < per; k++ {
							jobs = append(jobs, job{i, j, k})
						}
					}
				}
				ch := make(chan int)
				go func() {
					for i := range jobs {
						ch <- i
					}
					close(ch)
				}()
				parallel(workers, func(int) {
					for i := range ch {
						j := jobs[i]
						cliqCase(rep, c, s, qModules[j.m], qModules[j.m].cmds[j.cmd], seed*1000003+int64(i), j.k)
					}
				})
				c.close()
			}
			rep.Need("answers, json", 100)
			rep.Need("answers, text", 100)
			rep.Need("answers, past states", 50)
			rep.Need("refused", 10)
			rep.Need("errors", 20)
		},
	})
}
