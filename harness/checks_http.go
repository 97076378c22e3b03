//go:build testing
// +build testing

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/gogo/protobuf/jsonpb"
	"github.com/gogo/protobuf/proto"
	abci "github.com/tendermint/tendermint/abci/types"
	tmbytes "github.com/tendermint/tendermint/libs/bytes"
	"github.com/tendermint/tendermint/libs/log"
	rpcclient "github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server/api"
	"github.com/cosmos/cosmos-sdk/server/config"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"

	earning "github.com/arterynetwork/artr/x/earning/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

// ---- C04: the HTTP interface of a node answers what the node answers ---------------------------------------------------

// routes are as published (in the proto files).
var routes = map[string]string{
	"delegating.v1beta1.Query/Params":           "/delegating/v1beta1/params",
	"delegating.v1beta1.Query/Revoking":         "/delegating/v1beta1/revoking/{acc_address}",
	"delegating.v1beta1.Query/Accumulation":     "/delegating/v1beta1/accum/{acc_address}",
	"delegating.v1beta1.Query/Get":              "/delegating/v1beta1/get/{acc_address}",
	"earning.v1beta1.Query/Params":              "/earning/v1beta1/params",
	"earning.v1beta1.Query/Get":                 "/earning/v1beta1/get/{address}",
	"earning.v1beta1.Query/GetMultiple":         "/earning/v1beta1/get-multiple",
	"earning.v1beta1.Query/List":                "/earning/v1beta1/list",
	"profile.v1beta1.Query/GetByAddress":        "/profile/v1beta1/get_by_addr/{address}",
	"profile.v1beta1.Query/GetByNickname":       "/profile/v1beta1/get_by_nick/{nickname}",
	"profile.v1beta1.Query/GetByCardNumber":     "/profile/v1beta1/get_by_card/{card_number}",
	"profile.v1beta1.Query/Params":              "/profile/v1beta1/params",
	"bank.v1beta1.Query/Params":                 "/bank/v1beta1/params",
	"bank.v1beta1.Query/Supply":                 "/bank/v1beta1/supply",
	"bank.v1beta1.Query/Balance":                "/bank/v1beta1/balance/{acc_address}",
	"schedule.v1beta1.Query/All":                "/schedule/v1beta1/all",
	"schedule.v1beta1.Query/Get":                "/schedule/v1beta1/since/{since}/to/{to}",
	"schedule.v1beta1.Query/Params":             "/schedule/v1beta1/params",
	"noding.v1beta1.Query/Params":               "/noding/v1beta1/params",
	"noding.v1beta1.Query/Get":                  "/noding/v1beta1/get/{account}",
	"noding.v1beta1.Query/State":                "/noding/v1beta1/state/{account}",
	"noding.v1beta1.Query/Proposer":             "/noding/v1beta1/proposer/{height}",
	"noding.v1beta1.Query/IsAllowed":            "/noding/v1beta1/is-allowed/{account}",
	"noding.v1beta1.Query/Operator":             "/noding/v1beta1/operator/{format}/{cons_address}",
	"noding.v1beta1.Query/SwitchedOn":           "/noding/v1beta1/switched-on",
	"noding.v1beta1.Query/Queue":                "/noding/v1beta1/queue",
	"referral.v1beta1.Query/Get":                "/referral/v1beta1/get/{acc_address}",
	"referral.v1beta1.Query/Coins":              "/referral/v1beta1/coins/{acc_address}/{max_depth}",
	"referral.v1beta1.Query/CheckStatus":        "/referral/v1beta1/check-status/{acc_address}/{status}",
	"referral.v1beta1.Query/ValidateTransition": "/referral/v1beta1/validate-transition/{subject}/{target}",
	"referral.v1beta1.Query/Params":             "/referral/v1beta1/params",
	"referral.v1beta1.Query/AllWithStatus":      "/referral/v1beta1/all_with/{status}",
	"voting.v1beta1.Query/History":              "/voting/v1beta1/history",
	"voting.v1beta1.Query/Government":           "/voting/v1beta1/government",
	"voting.v1beta1.Query/Current":              "/voting/v1beta1/current",
	"voting.v1beta1.Query/Params":               "/voting/v1beta1/params",
	"voting.v1beta1.Query/Poll":                 "/voting/v1beta1/poll",
	"voting.v1beta1.Query/PollHistory":          "/voting/v1beta1/poll-history",
}

// Queries there's no command for.
var httpOnly = qModule{[]string{"http only"}, []qCmd{
	{[]string{"earning get"}, func(g *qArgs) qCase {
		a := g.addr()
		return qCase{nil, "/artery.earning.v1beta1.Query/Get", &earning.GetRequest{Address: a}, &earning.GetResponse{}, nil}
	}},
	qParams("schedule params", "/artery.schedule.v1beta1.Query/Params", &schedule.ParamsRequest{}, &schedule.ParamsResponse{}, ""),
	{[]string{"nickname"}, func(g *qArgs) qCase {
		n := ""
		for _, p := range g.s.Prof {
			if p.Nickname != "" && (n == "" || p.Nickname < n) && g.Intn(3) > 0 {
				n = p.Nickname
			}
		}
		return qCase{nil, "/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: n}, &profile.GetByNicknameResponse{}, nil}
	}},
}}

// inNode is the way from the HTTP interface to the node around it.
type inNode struct {
	rpcclient.Client
	mu   sync.Mutex
	c    *Chain
	sent []tmtypes.Tx
}

func (n *inNode) ABCIQueryWithOptions(_ context.Context, path string, data tmbytes.HexBytes, o rpcclient.ABCIQueryOptions) (*coretypes.ResultABCIQuery, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return &coretypes.ResultABCIQuery{Response: n.c.App.Query(abci.RequestQuery{Path: path, Data: data, Height: o.Height, Prove: o.Prove})}, nil
}

func (n *inNode) BroadcastTxSync(_ context.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTx, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.sent = append(n.sent, tx)
	return &coretypes.ResultBroadcastTx{Hash: tx.Hash()}, nil
}

type httpNode struct {
	*inNode
	w      *World
	router http.Handler
	json   protoJSON
}

// protoJSON is how messages are written as JSON.
type protoJSON struct{ res jsonpb.AnyResolver }

func (p protoJSON) Marshal(m proto.Message) ([]byte, error) {
	s, err := (&jsonpb.Marshaler{OrigName: true, EmitDefaults: true, AnyResolver: p.res}).MarshalToString(m)
	return []byte(s), err
}

func (p protoJSON) Unmarshal(bz []byte, m proto.Message) error {
	return (&jsonpb.Unmarshaler{AnyResolver: p.res}).Unmarshal(bytes.NewReader(bz), m)
}

// newHTTP is what a node does when it starts with its API enabled.
func newHTTP(w *World) *httpNode {
	in := &inNode{c: w.C}
	cc := client.Context{}.WithClient(in).WithChainID(chainID).WithJSONMarshaler(w.C.EC.Marshaler).WithInterfaceRegistry(w.C.EC.InterfaceRegistry).
		WithTxConfig(w.C.EC.TxConfig).WithLegacyAmino(w.C.EC.Amino)
	defer guardApp("setting up the HTTP interface")
	w.C.App.RegisterTxService(cc)
	srv := api.New(cc, log.NewNopLogger())
	w.C.App.RegisterAPIRoutes(srv, config.APIConfig{Enable: true})
	srv.Router.PathPrefix("/").Handler(srv.GRPCGatewayRouter)
	return &httpNode{in, w, srv.Router, protoJSON{w.C.EC.InterfaceRegistry}}
}

func (n *httpNode) call(method, u string, body []byte, height int64) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, u, bytes.NewReader(body))
	if height != 0 {
		r.Header.Set("x-cosmos-block-height", fmt.Sprint(height))
	}
	o := httptest.NewRecorder()
	defer guardApp("HTTP " + method)
	n.router.ServeHTTP(o, r)
	return o
}

// address makes the address of the request up; bad is set if one of the values isn't of its type.
func (n *httpNode) address(g *qArgs, path string, req proto.Message) (u string, bad string) {
	tmpl, ok := routes[path]
	if !ok {
		panic("no route for " + path)
	}
	var f map[string]interface{}
	bz, err := protoJSON{}.Marshal(req)
	must(err)
	d := json.NewDecoder(bytes.NewReader(bz))
	d.UseNumber()
	must(d.Decode(&f))
	q := url.Values{}
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := f[k]
		s := fmt.Sprint(v)
		fv := protoField(req, k)
		switch fv.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Uint32, reflect.Uint64, reflect.Bool:
			if _, enum := fv.Interface().(fmt.Stringer); enum {
				if g.Intn(2) == 0 { // enumerations may be given by number, too
					s = fmt.Sprint(fv.Int())
				}
			}
			if bad == "" && g.Intn(12) == 0 {
				s, bad = []string{"abc", "1.5", "7x", "99999999999999999999", "--1"}[g.Intn(5)], k
			}
		}
		if strings.Contains(tmpl, "{"+k+"}") {
			tmpl = strings.Replace(tmpl, "{"+k+"}", url.PathEscape(s), 1)
			continue
		}
		if l, ok := v.([]interface{}); ok {
			for _, x := range l {
				q.Add(k, fmt.Sprint(x))
			}
		} else if bad == k || !fv.IsZero() || g.Intn(2) == 0 {
			q.Set(k, s)
		}
	}
	u = "/artery" + tmpl
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	return
}

// protoField finds a field by its name in the proto file.
func protoField(m proto.Message, name string) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		for _, p := range strings.Split(v.Type().Field(i).Tag.Get("protobuf"), ",") {
			if p == "name="+name {
				return v.Field(i)
			}
		}
	}
	panic("no field " + name)
}

func (n *httpNode) query(rep *Report, s *Snap, cmd qCmd, seed int64, k int) {
	g := &qArgs{Rng: newRng(seed), w: n.w, s: s, plain: true}
	q := cmd.make(g)
	path := strings.TrimPrefix(q.path, "/artery.")
	u, bad := n.address(g, path, q.req)
	if strings.Contains(u, "%2F") || strings.Contains(u, "//") || strings.HasSuffix(u, "/") { // a part of the path can be neither this nor empty
		rep.Count("not to be asked", 1)
		return
	}
	height := int64(0)
	if h := n.w.C.Height; g.Intn(3) == 0 {
		height = []int64{1, h, h - 1, 1 + g.Int63n(h), h + 3}[g.Intn(5)]
	}
	o := n.call("GET", u, nil, height)
	rep.Count("asked "+path, 1)
	if bad != "" {
		rep.Eval("%s bad %s", path, bad)
		rep.Count("refused", 1)
		if o.Code != http.StatusBadRequest {
			rep.Violate(nil, "http:not refused:"+path, "GET %s: %s is wrong there, it says %d: %s", u, bad, o.Code, clip(o.Body.String(), 300))
		}
		return
	}
	n.mu.Lock()
	want := n.c.App.Query(abci.RequestQuery{Path: q.path, Data: mustProto(q.req), Height: height})
	n.mu.Unlock()
	rep.Eval("%s %v %v", path, height != 0, want.Code)
	seg := strings.Split(strings.SplitN(u, "?", 2)[0], "/")
	if last := seg[len(seg)-1]; o.Code == http.StatusNotImplemented && strings.Contains(last, ":") { // taken for a "verb"
		rep.Violate(nil, "http:colon:"+path, "GET %s: %d %s; the node: %d %s", u, o.Code, clip(o.Body.String(), 300), want.Code, want.Log)
		return
	}
	if want.Code != 0 {
		rep.Count("errors", 1)
		var e struct{ Message string }
		if err := json.Unmarshal(o.Body.Bytes(), &e); err != nil || o.Code < 400 || e.Message != want.Log && !strings.HasPrefix(e.Message, "type mismatch") {
			rep.Violate(nil, "http:no error:"+path, "GET %s: the node answers with an error (%s), HTTP with %d: %s", u, clip(want.Log, 200), o.Code, clip(o.Body.String(), 300))
		}
		return
	}
	must(proto.Unmarshal(want.Value, q.res))
	if o.Code != http.StatusOK || !strings.HasPrefix(o.Header().Get("Content-Type"), "application/json") {
		rep.Violate(nil, "http:failed:"+path, "GET %s at %d: %d %s; expected %s", u, height, o.Code, clip(o.Body.String(), 300), clip(q.res.String(), 300))
		return
	}
	if h := o.Header().Get("Grpc-Metadata-X-Cosmos-Block-Height"); h != strconv.FormatInt(want.Height, 10) {
		rep.Violate(nil, "http:height:"+path, "GET %s at %d: it says it's about height %q, in fact about %d", u, height, h, want.Height)
	}
	exp, err := n.json.Marshal(q.res)
	must(err)
	x, err := plain("json", exp)
	must(err)
	if y, err := plain("json", o.Body.Bytes()); err != nil || !reflect.DeepEqual(x, y) {
		rep.Violate(nil, "http:answer:"+path, "GET %s at %d: it says %s, expected %s (%v)", u, height, clip(o.Body.String(), 600), clip(string(exp), 600), err)
		return
	}
	back := reflect.New(reflect.TypeOf(q.res).Elem()).Interface().(proto.Message)
	if err := n.json.Unmarshal(o.Body.Bytes(), back); err != nil {
		rep.Violate(nil, "http:unreadable:"+path, "GET %s at %d: what it says can't be read: %s (%s)", u, height, err, clip(o.Body.String(), 600))
	} else if !bytes.Equal(mustProto(back), want.Value) {
		rep.Violate(nil, "http:misread:"+path, "GET %s at %d: what it says (%s) reads as %s", u, height, clip(o.Body.String(), 600), clip(back.String(), 600))
	}
	rep.Count("answers", 1)
	rep.Count("answered "+path, 1)
	if height != 0 {
		rep.Count("answers, past states", 1)
	}
	if k == 0 {
		rep.Sample(map[string]interface{}{"request": u, "answer": clip(o.Body.String(), 300)})
	}
}

// send puts a transaction through: simulates and broadcasts it.
func (n *httpNode) send(rep *Report, bz []byte, kind string) {
	tx, err := n.w.C.EC.TxConfig.TxDecoder()(bz)
	must(err)
	js, err := n.w.C.EC.TxConfig.TxJSONEncoder()(tx)
	must(err)
	hash := n.w.C.App.LastCommitID().String()
	o := n.call("POST", "/cosmos/tx/v1beta1/simulate", append(append([]byte(`{"tx":`), js...), '}'), 0)
	n.mu.Lock()
	gas, res, err := n.w.C.App.Simulate(bz)
	n.mu.Unlock()
	rep.Eval("simulate %s %v", kind, err == nil)
	rep.Count(fmt.Sprintf("simulated ok=%v", err == nil), 1)
	if err != nil {
		if o.Code < 400 {
			rep.Violate(nil, "http:simulate", "simulating %s: the node says %s, HTTP %s", js, err, clip(o.Body.String(), 400))
		}
	} else {
		var got txtypes.SimulateResponse
		if err := n.json.Unmarshal(o.Body.Bytes(), &got); err != nil || o.Code != http.StatusOK {
			rep.Violate(nil, "http:simulate", "simulating %s: %d %s (%v)", js, o.Code, clip(o.Body.String(), 400), err)
		} else if exp := (&txtypes.SimulateResponse{GasInfo: &gas, Result: res}); !bytes.Equal(mustProto(&got), mustProto(exp)) {
			rep.Violate(nil, "http:simulate", "simulating %s: %s; expected %s", js, clip(got.String(), 400), clip(exp.String(), 400))
		}
	}
	if h := n.w.C.App.LastCommitID().String(); h != hash {
		rep.Violate(nil, "http:changed", "simulating has changed the state")
	}
	body, err := json.Marshal(map[string]string{"tx_bytes": base64.StdEncoding.EncodeToString(bz), "mode": "BROADCAST_MODE_SYNC"})
	must(err)
	k := len(n.sent)
	o = n.call("POST", "/cosmos/tx/v1beta1/txs", body, 0)
	if o.Code != http.StatusOK || len(n.sent) != k+1 || !bytes.Equal(n.sent[k], bz) || !strings.Contains(o.Body.String(), fmt.Sprintf("%X", tmtypes.Tx(bz).Hash())) {
		rep.Violate(nil, "http:broadcast", "broadcasting %s: %d %s, %d sent", js, o.Code, clip(o.Body.String(), 300), len(n.sent)-k)
	}
	rep.Count("broadcast", 1)
}

// txKeeper keeps what has been sent in the last blocks.
type txKeeper struct {
	NopMonitor
	n       *httpNode
	modules []qModule
	per     int
	txs     []*TxRec
	k       int64
	polls   int
	votes   int
}

func (m *txKeeper) Start(w *World) { m.n = newHTTP(w) }

// BeginBlock asks every now and then, and while there's something to be seen about voting.
func (m *txKeeper) BeginBlock(w *World, pre, post *Snap, b *BlockRec, _ abci.ResponseBeginBlock) {
	if b.Height < 3 {
		return
	}
	if pre.Poll != nil && m.polls < 6 || pre.Prop != nil && m.votes < 6 {
		m.polls += boolInt(pre.Poll != nil)
		m.votes += boolInt(pre.Prop != nil)
		m.ask(w, pre, 1+m.per/20)
	} else if b.Height%16 == 0 {
		m.ask(w, pre, 1+m.per/10)
	}
}

func (m *txKeeper) ask(w *World, s *Snap, per int) {
	for _, mod := range m.modules {
		for _, cmd := range mod.cmds {
			for k := 0; k < per; k++ {
				m.k++
				m.n.query(w.Rep, s, cmd, w.Rep.Seed*1000003+w.WL.Seed*7919+m.k, k)
			}
		}
	}
}

func (m *txKeeper) Tx(w *World, pre, post *Snap, tx *TxRec) {
	if tx.Hostile == "" && len(tx.Msgs) == 1 && w.R.chance(0.3) {
		m.txs = append(m.txs, tx)
	}
}

func init() {
	register(Check{
		ID:   "C04",
		Rule: "one evaluation per HTTP request; distinct by what is asked, present or past state, what's wrong with the request, error code, kind of transaction",
		Run: func(rep *Report, thorough bool, seed int64) {
			wls := append(mixedWorkloads(seed+34, 2, 60, 8), voteWorlds(seed+35, false)[0])
			per := 25
			if thorough {
				wls = append(mixedWorkloads(seed+34, 12, 90, 8), voteWorlds(seed+35, false)...)
				per = 300
			}
			modules := append([]qModule{httpOnly}, qModules...)
			runParallel(rep, len(wls), func(i int) *World { return newWorld(wls[i], rep, &txKeeper{per: per, modules: modules}) }, func(w *World) {
				m := w.Mons[0].(*txKeeper)
				w.Run()
				n := m.n
				m.ask(w, takeSnap(w.C), m.per)
				seen := map[string]int{}
				for _, tx := range m.txs {
					if seen[tx.Kind]++; seen[tx.Kind] <= 4 {
						n.send(rep, w.C.MakeTx(400000, tx.Signers, tx.Msgs...), tx.Kind)
					}
				}
				for _, u := range []string{"/artery/bank/v1beta1", "/artery/bank/v1beta1/nothing", "/artery/nothing/v1beta1/params", "/artery/profile/v1beta1/get_by_addr"} {
					if o := n.call("GET", u, nil, 0); o.Code < 400 {
						rep.Violate(nil, "http:nothing there", "GET %s: %d %s", u, o.Code, clip(o.Body.String(), 200))
					}
				}
			})
			for r := range routes {
				if r == "schedule.v1beta1.Query/Get" { // see known-findings.json
					continue
				}
				rep.Need("answered "+r, 10)
			}
			rep.Need("answers, past states", 100)
			rep.Need("refused", 50)
			rep.Need("errors", 50)
			rep.Need("broadcast", 20)
			rep.Need("simulated ok=true", 5)
		},
	})
}
