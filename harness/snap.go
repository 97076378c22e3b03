//go:build testing
// +build testing

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

const (
	dMain = "uartr"
	dDel  = "uartrd"
	dRev  = "uartrr"
)

var denoms = []string{dMain, dDel, dRev}

type AccInfo struct {
	Num, Seq uint64
	Module   string
}

type Params struct {
	Bank  bank.Params
	Deleg delegating.Params
	Earn  earning.Params
	Node  noding.Params
	Prof  profile.Params
	Ref   referral.Params
	Sch   schedule.Params
	Vote  voting.Params
}

// Snap is the observable application state at one point.
type Snap struct {
	Height int64
	Time   time.Time
	P      Params
	Accs   map[string]AccInfo
	Bal    map[string]sdk.Coins
	Supply sdk.Coins
	Prof   map[string]profile.Profile
	Nick   map[string]string // nickname index lookups of every nickname known to the workload
	Card   map[uint64]string
	Ref    map[string]referral.Info
	Del    map[string]delegating.Record
	Node   map[string]noding.Info
	Props  map[string][]uint64 // blocks proposed
	Op     map[string]string   // operators by consensus address
	Tasks  []schedule.Task
	Earn   map[string]earning.Earner
	Gov    []string
	Prop   *voting.Proposal
	Agreed []string
	Disagr []string
	Start  int64
	Hist   []voting.ProposalHistoryRecord
	Poll   *voting.Poll
	Ans    map[string]bool
	Yes    uint64
	No     uint64
	PHist  []voting.PollHistoryItem
}

func takeSnap(c *Chain) *Snap { return snapCtx(c.App, c.Ctx(), c.Height, c.Time) }

func snapCtx(a *app.ArteryApp, ctx sdk.Context, height int64, t time.Time) *Snap {
	s := &Snap{
		Height: height, Time: t,
		Accs: map[string]AccInfo{}, Bal: map[string]sdk.Coins{}, Prof: map[string]profile.Profile{},
		Ref: map[string]referral.Info{}, Del: map[string]delegating.Record{}, Node: map[string]noding.Info{},
		Earn: map[string]earning.Earner{}, Ans: map[string]bool{}, Nick: map[string]string{}, Card: map[uint64]string{},
	}
	bk, dk, rk, pk, nk, ek, vk, sk := a.GetBankKeeper(), a.GetDelegatingKeeper(), a.GetReferralKeeper(), a.GetProfileKeeper(), a.GetNodingKeeper(), a.GetEarningKeeper(), a.GetVotingKeeper(), a.GetScheduleKeeper()
	s.P = Params{
		Bank: bk.GetParams(ctx), Deleg: dk.GetParams(ctx), Earn: ek.GetParams(ctx), Node: nk.GetParams(ctx),
		Prof: pk.GetParams(ctx), Ref: rk.GetParams(ctx), Sch: sk.GetParams(ctx), Vote: vk.GetParams(ctx),
	}
	a.GetAccountKeeper().IterateAccounts(ctx, func(acc authtypes.AccountI) bool {
		ai := AccInfo{Num: acc.GetAccountNumber(), Seq: acc.GetSequence()}
		if m, ok := acc.(authtypes.ModuleAccountI); ok {
			ai.Module = m.GetName()
		}
		s.Accs[acc.GetAddress().String()] = ai
		return false
	})
	bk.IterateAllBalances(ctx, func(addr sdk.AccAddress, coins sdk.Coins) bool {
		s.Bal[addr.String()] = append(sdk.Coins(nil), coins...)
		return false
	})
	s.Supply = bk.GetSupply(ctx).GetTotal()
	for b := range s.Accs {
		addr, _ := sdk.AccAddressFromBech32(b)
		if p := pk.GetProfile(ctx, addr); p != nil {
			s.Prof[b] = *p
			if n := strings.TrimSpace(p.Nickname); n != "" {
				s.Nick[n] = pk.GetProfileAccountByNickname(ctx, n).String()
			}
			s.Card[p.CardNumber] = pk.GetProfileAccountByCardNumber(ctx, p.CardNumber).String()
		}
		if r, err := rk.Get(ctx, b); err == nil && len(r.Coins) != 0 {
			s.Ref[b] = r
		}
		if d := dk.Get(ctx, addr); d != nil {
			s.Del[b] = *d
		}
		if n, err := nk.Get(ctx, addr); err == nil {
			s.Node[b] = n
		}
	}
	s.Op = map[string]string{}
	for _, n := range s.Node {
		if ca := consAddrOf(n.PubKey); ca != nil {
			if op, found, _, err := nk.GetValidatorByConsAddr(ctx, ca); err == nil && found {
				s.Op[string(ca)] = op.String()
			}
		}
	}
	s.Props = nk.GetBlocksProposedByAll(ctx)
	_, s.Tasks = sk.ExportGenesis(ctx)
	for _, e := range ek.GetEarners(ctx) {
		s.Earn[e.Account] = e
	}
	s.Gov = vk.GetGovernment(ctx).Strings()
	s.Prop = vk.GetCurrentProposal(ctx)
	s.Agreed = vk.GetAgreed(ctx).Strings()
	s.Disagr = vk.GetDisagreed(ctx).Strings()
	if s.Prop != nil {
		s.Start = vk.GetStartBlock(ctx)
	}
	s.Hist = vk.GetHistory(ctx, 1000, 1)
	if p, ok := vk.GetCurrentPoll(ctx); ok {
		s.Poll = &p
		s.Yes, s.No = vk.GetPollStatus(ctx)
		_ = vk.IterateThroughCurrentPollAnswers(ctx, func(acc string, ans bool) bool { s.Ans[acc] = ans; return false })
	}
	s.PHist = vk.GetPollHistoryAll(ctx)
	return s
}

func (s *Snap) bal(b, denom string) int64 {
	n := s.Bal[b].AmountOf(denom)
	if !n.IsInt64() { // an absurd rate in a made up genesis
		return 1<<63 - 1
	}
	return n.Int64()
}
func (s *Snap) main(b string) int64       { return s.bal(b, dMain) }
func (s *Snap) supply(denom string) int64 { return s.Supply.AmountOf(denom).Int64() }
func (s *Snap) sum(denom string) sdk.Int {
	t := sdk.ZeroInt()
	for _, c := range s.Bal {
		t = t.Add(c.AmountOf(denom))
	}
	return t
}
func (s *Snap) addrs() []string {
	r := make([]string, 0, len(s.Accs))
	for b := range s.Accs {
		r = append(r, b)
	}
	sort.Strings(r)
	return r
}
func (s *Snap) day() time.Duration { return time.Duration(s.P.Sch.DayNanos) }

func (s *Snap) moduleAddr(name string) string {
	return authtypes.NewModuleAddress(name).String()
}

func (s *Snap) tasks(handler string, data []byte) (r []time.Time) {
	for _, t := range s.Tasks {
		if t.HandlerName == handler && (data == nil || bytes.Equal(t.Data, data)) {
			r = append(r, t.Time)
		}
	}
	return r
}

var (
	splitAddr = authtypes.NewModuleAddress(util.SplittableFeeCollectorName).String()
	feeAddr   = authtypes.NewModuleAddress(authtypes.FeeCollectorName).String()
)

// diff lists everything that differs between two snapshots, section by section: "section/key".
func (s *Snap) diff(t *Snap, skip ...string) []string {
	var r []string
	sk := map[string]bool{}
	for _, x := range skip {
		sk[x] = true
	}
	put := func(section, f string, a ...interface{}) {
		if !sk[section] {
			r = append(r, section+"/"+fmt.Sprintf(f, a...))
		}
	}
	for _, b := range unionKeys(s.Accs, t.Accs) {
		if s.Accs[b] != t.Accs[b] {
			put("acc", "%s: %+v -> %+v", b, s.Accs[b], t.Accs[b])
		}
	}
	for _, b := range unionKeys(s.Bal, t.Bal) {
		for _, d := range denoms {
			if x, y := s.Bal[b].AmountOf(d), t.Bal[b].AmountOf(d); !x.Equal(y) {
				put("bal", "%s/%s: %s -> %s", b, d, x, y)
			}
		}
	}
	for _, d := range denoms {
		if x, y := s.Supply.AmountOf(d), t.Supply.AmountOf(d); !x.Equal(y) {
			put("supply", "%s: %s -> %s", d, x, y)
		}
	}
	cmpMap := func(section string, a, b interface{}) {
		if sk[section] {
			return
		}
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		keys := map[string]reflect.Value{}
		for _, k := range va.MapKeys() {
			keys[fmt.Sprint(k.Interface())] = k
		}
		for _, k := range vb.MapKeys() {
			keys[fmt.Sprint(k.Interface())] = k
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x, y := va.MapIndex(keys[k]), vb.MapIndex(keys[k])
			if x.IsValid() != y.IsValid() {
				put(section, "%s: present %v -> %v", k, x.IsValid(), y.IsValid())
				continue
			}
			if reflect.DeepEqual(x.Interface(), y.Interface()) {
				continue
			}
			if str(x.Interface()) != str(y.Interface()) {
				put(section, "%s: %s -> %s", k, str(x.Interface()), str(y.Interface()))
			}
		}
	}
	cmpMap("prof", s.Prof, t.Prof)
	cmpMap("nick", s.Nick, t.Nick)
	cmpMap("card", s.Card, t.Card)
	cmpMap("ref", s.Ref, t.Ref)
	cmpMap("del", s.Del, t.Del)
	cmpMap("node", s.Node, t.Node)
	cmpMap("props", s.Props, t.Props)
	cmpMap("earn", s.Earn, t.Earn)
	if !sk["task"] {
		x, y := taskSet(s.Tasks), taskSet(t.Tasks)
		for _, k := range unionKeys(x, y) {
			if x[k] != y[k] {
				put("task", "%s: %d -> %d", k, x[k], y[k])
			}
		}
	}
	if !sk["vote"] {
		x := fmt.Sprint(s.Gov, str(s.Prop), s.Agreed, s.Disagr, s.Start, str(s.Hist), str(s.Poll), s.Ans, s.Yes, s.No, str(s.PHist))
		y := fmt.Sprint(t.Gov, str(t.Prop), t.Agreed, t.Disagr, t.Start, str(t.Hist), str(t.Poll), t.Ans, t.Yes, t.No, str(t.PHist))
		if x != y {
			put("vote", "%s -> %s", x, y)
		}
	}
	if !sk["params"] {
		if x, y := str(s.P), str(t.P); x != y {
			put("params", "%s -> %s", x, y)
		}
	}
	return r
}

func taskSet(ts []schedule.Task) map[string]int {
	m := map[string]int{}
	for _, t := range ts {
		m[fmt.Sprintf("%s %x @%s", t.HandlerName, t.Data, t.Time.UTC().Format(time.RFC3339Nano))]++
	}
	return m
}

// str renders a value canonically (proto messages through their binary form, so nil/empty differences do not matter).
func str(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case string:
		return v
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if m, ok := x.(proto.Message); ok {
			bz, err := proto.Marshal(m)
			if err == nil {
				return fmt.Sprintf("%+v#%x", strip(v.Elem().Interface()), sha8(bz))
			}
		}
		return str(v.Elem().Interface())
	case reflect.Struct:
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		if m, ok := p.Interface().(proto.Message); ok {
			if bz, err := proto.Marshal(m); err == nil {
				return fmt.Sprintf("%+v#%x", strip(x), sha8(bz))
			}
		}
		var parts []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				parts = append(parts, v.Type().Field(i).Name+"="+str(v.Field(i).Interface()))
			}
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.Slice:
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, str(v.Index(i).Interface()))
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	return fmt.Sprintf("%+v", x)
}

// strip renders a proto struct readably without pointer values.
func strip(x interface{}) string {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Struct {
		return fmt.Sprintf("%+v", x)
	}
	var parts []string
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		if fv.IsZero() {
			continue
		}
		switch y := fv.Interface().(type) {
		case *time.Time:
			if y != nil {
				parts = append(parts, f.Name+":"+y.UTC().Format(time.RFC3339Nano))
			}
		default:
			if fv.Kind() == reflect.Ptr && !fv.IsNil() {
				if st, ok := fv.Interface().(fmt.Stringer); ok {
					parts = append(parts, f.Name+":"+st.String())
				} else {
					parts = append(parts, f.Name+":"+fmt.Sprintf("%+v", fv.Elem().Interface()))
				}
			} else {
				parts = append(parts, f.Name+":"+fmt.Sprintf("%+v", fv.Interface()))
			}
		}
	}
	return "{" + strings.Join(parts, " ") + "}"
}

func sha8(bz []byte) []byte { h := sha256.Sum256(bz); return h[:4] }

func unionKeys(a, b interface{}) []string {
	m := map[string]bool{}
	for _, x := range []interface{}{a, b} {
		for _, k := range reflect.ValueOf(x).MapKeys() {
			m[k.String()] = true
		}
	}
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// rawDump hashes and lists every persisted key/value of every module store.
func rawDump(a *app.ArteryApp, ctx sdk.Context) map[string][]byte {
	m := map[string][]byte{}
	for name, key := range a.GetKeys() {
		it := ctx.KVStore(key).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			m[name+"|"+string(it.Key())] = append([]byte(nil), it.Value()...)
		}
		it.Close()
	}
	return m
}

func rawHash(m map[string][]byte) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	var l [8]byte
	for _, k := range ks {
		binary.BigEndian.PutUint64(l[:], uint64(len(k)))
		h.Write(l[:])
		h.Write([]byte(k))
		binary.BigEndian.PutUint64(l[:], uint64(len(m[k])))
		h.Write(l[:])
		h.Write(m[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func rawDiff(a, b map[string][]byte) []string {
	var r []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, fmt.Sprintf("%q removed", k))
		} else if !bytes.Equal(v, w) {
			r = append(r, fmt.Sprintf("%q: %x -> %x", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, fmt.Sprintf("%q added", k))
		}
	}
	sort.Strings(r)
	return r
}
