//go:build testing
// +build testing

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// TxRec is one delivered transaction and all we know about how it was made.
type TxRec struct {
	Kind    string
	Msgs    []sdk.Msg
	Signers []*Acc
	Hostile string // why it must be rejected before it is executed: "" | wrongkey | badseq | lowgas | tampered | wrongchain
	Raw     []byte
	Res     abci.ResponseDeliverTx
	Time    time.Time
	Height  int64
}

func (t *TxRec) ok() bool { return t.Res.Code == 0 }

// BlockRec is what was fed to BeginBlock.
type BlockRec struct {
	Height   int64
	Time     time.Time
	Proposer []byte
	Votes    []abci.VoteInfo
	Evidence []abci.Evidence
}

// Monitor watches executions. pre and post are the observable states right before and right after the step.
type Monitor interface {
	Start(w *World)
	BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock)
	Tx(w *World, pre, post *Snap, tx *TxRec)
	EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock)
	Commit(w *World, s *Snap)
	Finish(w *World)
}

type NopMonitor struct{}

func (NopMonitor) Start(*World)                                                        {}
func (NopMonitor) BeginBlock(*World, *Snap, *Snap, *BlockRec, abci.ResponseBeginBlock) {}
func (NopMonitor) Tx(*World, *Snap, *Snap, *TxRec)                                     {}
func (NopMonitor) EndBlock(*World, *Snap, *Snap, abci.ResponseEndBlock)                {}
func (NopMonitor) Commit(*World, *Snap)                                                {}
func (NopMonitor) Finish(*World)                                                       {}

// Profile says what the workload of one world looks like.
type Workload struct {
	Name   string
	Spec   GenSpec
	Seed   int64
	Blocks int
	Txs    int            // at most this many transactions per block
	Ops    map[string]int // weights
	// time steps: weights of next (exactly the next scheduled task), sec, hour, day, month
	TNext, TSec, THour, TDay, TMonth int
	HostileP                         float64
	MissP                            float64               // chance of a missed signature
	SickP                            float64               // chance that a validator goes silent for a while
	EvP                              float64               // chance of double sign evidence per block
	OldEvP                           float64               // chance of evidence about somebody who was a validator once
	MultiP                           float64               // chance of a multi-message transaction
	UpperP                           float64               // chance of a voter's address in upper case, which is as good
	MutateP                          float64               // chance of a transaction with odd values
	PropTypes                        []voting.ProposalType // what may be proposed (default: everything)
	NoSnap                           bool                  // no snapshots at all (only for monitors which take their own)
	Hooks                            func(w *World)
}

type World struct {
	WL      Workload
	C       *Chain
	R       *Rng
	G       *Genesis
	S       *Snap // the latest snapshot
	QueryAt int64 // the height queries are about, 0 is the latest
	Rep     *Report
	Mons    []Monitor
	Init    abci.ResponseInitChain

	byAddr   map[string]*Acc
	sick     map[string]int
	once     map[string]ValEntry // everybody who has been a validator
	nextN    int
	Gas      uint64
	ops      []string
	opsW     []int
	opsSum   int
	Dead     string
	followUp sdk.Msg
	TxLog    []string
	Halted   bool
}

func newWorld(wl Workload, rep *Report, mons ...Monitor) *World {
	if oddP > 0 {
		wl.MutateP = oddP
	}
	w := &World{WL: wl, R: newRng(wl.Seed), Rep: rep, Mons: mons, byAddr: map[string]*Acc{}, sick: map[string]int{}, once: map[string]ValEntry{}, Gas: 100_000_000}
	w.G = buildGenesis(w.R, wl.Spec)
	for _, a := range w.G.Accs {
		w.byAddr[a.B] = a
	}
	w.byAddr[w.G.Company.B] = w.G.Company
	w.byAddr[w.G.SubAcc.B] = w.G.SubAcc
	w.C, w.Init = NewChain(w.G.JSON, w.G.Time)
	for k := range wl.Ops {
		w.ops = append(w.ops, k)
	}
	sort.Strings(w.ops)
	for _, k := range w.ops {
		w.opsW = append(w.opsW, wl.Ops[k])
		w.opsSum += wl.Ops[k]
	}
	return w
}

func (w *World) snap() *Snap {
	if w.WL.NoSnap {
		return nil
	}
	return takeSnap(w.C)
}

func (w *World) where() string {
	return fmt.Sprintf("%s/seed=%d/h=%d/t=%s", w.WL.Name, w.WL.Seed, w.C.Height, w.C.Time.UTC().Format(time.RFC3339Nano))
}

func (w *World) acc(b string) *Acc { return w.byAddr[b] }

// Run drives the world to its end.
func (w *World) Run() {
	w.S = w.snap()
	if w.S == nil {
		w.S = takeSnap(w.C)
	}
	for _, m := range w.Mons {
		m.Start(w)
	}
	for i := 0; i < w.WL.Blocks && !w.Rep.Full() && !w.Halted; i++ {
		w.Block()
	}
	for _, m := range w.Mons {
		m.Finish(w)
	}
}

func (w *World) Block() {
	b := w.nextBlock()
	w.BeginBlock(b)
	if w.WL.Hooks != nil {
		w.WL.Hooks(w)
	}
	n := 0
	if w.WL.Txs > 0 {
		n = w.R.Intn(w.WL.Txs + 1)
	}
	for i := 0; i < n; i++ {
		if tx := w.makeTx(); tx != nil {
			w.Deliver(tx)
		}
	}
	w.EndBlock()
}

func (w *World) BeginBlock(b *BlockRec) {
	pre := w.S
	res := w.C.Begin(b.Time, b.Proposer, b.Votes, b.Evidence)
	w.dump("BeginBlock", res.Events)
	w.Rep.Count("blocks", 1)
	if w.WL.NoSnap {
		pre = nil
	} else {
		w.S = w.snap()
	}
	for _, m := range w.Mons {
		m.BeginBlock(w, pre, w.S, b, res)
	}
}

func (w *World) Deliver(tx *TxRec) {
	pre := w.S
	tx.Time, tx.Height = w.C.Time, w.C.Height
	tx.Res = w.C.Deliver(tx.Raw)
	w.dump(fmt.Sprintf("%s %v code %d %s", tx.Kind, tx.Msgs, tx.Res.Code, tx.Res.Log), tx.Res.Events)
	if tx.ok() {
		w.Rep.Count("tx-ok:"+tx.Kind, 1)
	} else {
		w.Rep.Count("tx-rejected:"+tx.Kind, 1)
	}
	if w.WL.NoSnap {
		pre = nil
	} else {
		w.S = w.snap()
	}
	for _, m := range w.Mons {
		m.Tx(w, pre, w.S, tx)
	}
}

func (w *World) EndBlock() {
	pre := w.S
	res := w.C.End()
	w.dump("EndBlock", res.Events)
	if w.WL.NoSnap {
		pre = nil
	} else {
		w.S = w.snap()
	}
	for _, m := range w.Mons {
		m.EndBlock(w, pre, w.S, res)
	}
	w.C.Commit()
	for _, m := range w.Mons {
		m.Commit(w, w.S)
	}
}

func (w *World) nextTime() time.Time {
	now := w.C.Time
	wl := w.WL
	sum := wl.TNext + wl.TSec + wl.THour + wl.TDay + wl.TMonth
	if sum == 0 {
		return now.Add(5 * time.Second)
	}
	x := w.R.Intn(sum)
	day := w.S.day()
	switch {
	case x < wl.TNext:
		var best time.Time
		for _, t := range w.S.Tasks {
			if t.Time.After(now) && (best.IsZero() || t.Time.Before(best)) {
				best = t.Time
			}
		}
		if !best.IsZero() {
			switch w.R.Intn(8) {
			case 0:
				if b := best.Add(-1); b.After(now) {
					return b
				}
			case 1:
				return best.Add(1)
			}
			return best
		}
		return now.Add(time.Duration(w.R.between(1, int64(day))))
	case x < wl.TNext+wl.TSec:
		return now.Add(time.Duration(w.R.between(1, 10*int64(time.Second))))
	case x < wl.TNext+wl.TSec+wl.THour:
		return now.Add(time.Duration(w.R.between(1, int64(day)/6)))
	case x < wl.TNext+wl.TSec+wl.THour+wl.TDay:
		return now.Add(time.Duration(w.R.between(1, 2*int64(day))))
	default:
		return now.Add(time.Duration(w.R.between(1, 35*int64(day))))
	}
}

func (w *World) nextBlock() *BlockRec {
	h := w.C.Height + 1
	b := &BlockRec{Height: h, Time: w.nextTime()}
	cur := sortedSet(w.C.SetAt(h))
	if len(cur) > 0 {
		b.Proposer = cur[w.R.Intn(len(cur))].Addr
	}
	if h > 1 {
		prev := sortedSet(w.C.SetAt(h - 1))
		for _, v := range prev {
			signed := !w.R.chance(w.WL.MissP)
			if w.sick[v.Key] > 0 {
				w.sick[v.Key]--
				signed = false
			} else if w.R.chance(w.WL.SickP) {
				w.sick[v.Key] = 1 + w.R.Intn(4)
			}
			b.Votes = append(b.Votes, abci.VoteInfo{Validator: abci.Validator{Address: v.Addr, Power: v.Power}, SignedLastBlock: signed})
		}
		for _, v := range prev {
			w.once[v.Key] = v
		}
		if w.WL.OldEvP > 0 && w.R.chance(w.WL.OldEvP) {
			l := sortedSet(w.once)
			v := l[w.R.Intn(len(l))]
			b.Evidence = append(b.Evidence, abci.Evidence{
				Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: v.Addr, Power: v.Power},
				Height: w.R.between(1, h-1), Time: w.C.Time, TotalVotingPower: 100,
			})
		}
		if len(prev) > 0 && w.R.chance(w.WL.EvP) {
			v := prev[w.R.Intn(len(prev))]
			var total int64
			for _, x := range prev {
				total += x.Power
			}
			b.Evidence = append(b.Evidence, abci.Evidence{
				Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: v.Addr, Power: v.Power},
				Height: h - 1, Time: w.C.Time, TotalVotingPower: total,
			})
		}
	}
	return b
}

// ---------------------------------------------------------------------------------------------------------------------
// transactions

func (w *World) anyAcc() *Acc { return w.G.Accs[w.R.Intn(len(w.G.Accs))] }

func (w *World) accWhere(f func(a *Acc) bool) *Acc {
	off := w.R.Intn(len(w.G.Accs))
	for i := range w.G.Accs {
		if a := w.G.Accs[(off+i)%len(w.G.Accs)]; f(a) {
			return a
		}
	}
	return nil
}

func (w *World) fromList(l []string) *Acc {
	if len(l) == 0 {
		return nil
	}
	return w.byAddr[l[w.R.Intn(len(l))]]
}

// fromListOr picks an account from the list, or with chance p anybody.
func (w *World) fromListOr(l []string, p float64) *Acc {
	if !w.R.chance(p) {
		if a := w.fromList(l); a != nil {
			return a
		}
	}
	return w.anyAcc()
}

func (w *World) amount(max int64) int64 {
	switch w.R.Intn(12) {
	case 0:
		return max
	case 1:
		return max + 1
	case 2:
		return w.R.between(1, 2000)
	case 3:
		return []int64{0, 1, 999, 1000, 1001, 999_999, 1_000000, 1_000001, 3_333_333_333, 3_333_333_334}[w.R.Intn(10)]
	case 4, 5, 6:
		return w.R.between(1, max/3+2)
	case 7:
		return int64(math.Exp(w.R.Float64() * math.Log(float64(max)+2)))
	}
	return w.R.between(1, max/50+2)
}

func (w *World) dump(what string, evs []abci.Event) {
	if dumpHeight == 0 || w.C.Height != dumpHeight {
		return
	}
	fmt.Println("##", clip(what, 600))
	for _, e := range events(evs, "") {
		fmt.Println("   ", e.Type, clip(fmt.Sprint(e.A), 300))
	}
}

func (w *World) pickOp() string {
	x := w.R.Intn(w.opsSum)
	for i, wt := range w.opsW {
		if x < wt {
			return w.ops[i]
		}
		x -= wt
	}
	return w.ops[0]
}

func (w *World) makeTx() *TxRec {
	if m := w.followUp; m != nil {
		w.followUp = nil
		return w.buildTx("on", []sdk.Msg{m})
	}
	var msgs []sdk.Msg
	kind := ""
	n := 1
	if w.R.chance(w.WL.MultiP) {
		n = 2 + w.R.Intn(2)
	}
	for i := 0; i < n; i++ {
		op := w.pickOp()
		m := w.makeMsg(op)
		if m == nil {
			continue
		}
		msgs = append(msgs, m)
		if kind == "" {
			kind = op
		} else {
			kind = "multi"
		}
	}
	if len(msgs) == 0 {
		return nil
	}
	if w.WL.MutateP > 0 && w.R.chance(w.WL.MutateP) {
		if tx := w.mutated(msgs); tx != nil {
			return tx
		}
	}
	return w.buildTx(kind, msgs)
}

// mutated makes a transaction of the messages, some of them changed to something odd.
func (w *World) mutated(msgs []sdk.Msg) *TxRec {
	mu := &mutator{r: w.R, now: w.C.Time}
	for _, a := range w.G.Accs {
		mu.addrs = append(mu.addrs, a.B)
	}
	res := make([]sdk.Msg, len(msgs))
	k := w.R.Intn(len(msgs))
	copy(res, msgs)
	if res[k] = mu.mutate(msgs[k]); res[k] == nil {
		return nil
	}
	kind := "odd " + strings.TrimPrefix(fmt.Sprintf("%T", res[k]), "*")
	for _, p := range mu.what {
		w.Rep.Count("changed "+strings.TrimPrefix(fmt.Sprintf("%T", res[k]), "*")+p, 1)
	}
	// Sign as the one who's meant to send it, or, if there's no such account, as who meant to send the original.
	var signers []*Acc
	for i := range msgs {
		a := w.byAddr[authority(res[i])]
		if a == nil {
			a = w.byAddr[authority(msgs[i])]
		}
		if a == nil {
			return nil
		}
		dup := false
		for _, s := range signers {
			dup = dup || s == a
		}
		if !dup {
			signers = append(signers, a)
		}
	}
	tx := &TxRec{Kind: kind, Msgs: res, Signers: signers}
	func() {
		defer func() {
			if recover() != nil { // the client can't make it
				tx = nil
			}
		}()
		tx.Raw = w.C.MakeTx(w.Gas, signers, res...)
	}()
	if tx != nil && w.R.chance(0.05) {
		tx.Hostile = "garbled"
		orig := append([]byte{}, tx.Raw...)
		i := w.R.Intn(len(tx.Raw))
		switch w.R.Intn(3) {
		case 0:
			tx.Raw[i] ^= 1 << uint(w.R.Intn(8))
		case 1:
			tx.Raw = tx.Raw[:i]
		default:
			tx.Raw = append(tx.Raw[:i:i], tx.Raw[i+w.R.Intn(len(tx.Raw)-i):]...)
		}
		if bytes.Equal(orig, tx.Raw) {
			tx.Hostile = ""
		}
	}
	return tx
}

func (w *World) buildTx(kind string, msgs []sdk.Msg) *TxRec {
	var signers []*Acc
	seen := map[string]bool{}
	for _, m := range msgs {
		if s := authority(m); !seen[s] {
			seen[s] = true
			a := w.byAddr[s]
			if a == nil {
				return nil
			}
			signers = append(signers, a)
		}
	}
	tx := &TxRec{Kind: kind, Msgs: msgs, Signers: signers}
	if w.R.chance(w.WL.HostileP) {
		w.makeHostile(tx)
		return tx
	}
	tx.Raw = w.C.MakeTx(w.Gas, signers, msgs...)
	return tx
}

// Send builds and delivers a transaction right away.
func (w *World) Send(kind string, msgs ...sdk.Msg) *TxRec {
	save := w.WL.HostileP
	w.WL.HostileP = 0
	tx := w.buildTx(kind, msgs)
	w.WL.HostileP = save
	w.Deliver(tx)
	return tx
}

func (w *World) makeHostile(tx *TxRec) {
	ctx := w.C.Ctx()
	ak := w.C.App.GetAccountKeeper()
	nums := make([]uint64, len(tx.Signers))
	seqs := make([]uint64, len(tx.Signers))
	for i, s := range tx.Signers {
		if a := ak.GetAccount(ctx, s.Addr); a != nil {
			nums[i], seqs[i] = a.GetAccountNumber(), a.GetSequence()
		}
	}
	switch w.R.Intn(4) {
	case 0: // somebody else's key
		tx.Hostile = "wrongkey"
		i := w.R.Intn(len(tx.Signers))
		other := w.accWhere(func(a *Acc) bool { return a.B != tx.Signers[i].B })
		fake := append([]*Acc(nil), tx.Signers...)
		fake[i] = &Acc{Name: "fake", Priv: other.Priv, Addr: tx.Signers[i].Addr, B: tx.Signers[i].B}
		tx.Raw = w.C.SignTx(fake, nums, seqs, w.Gas, tx.Msgs...)
	case 1:
		tx.Hostile = "badseq"
		i := w.R.Intn(len(seqs))
		if w.R.chance(0.5) || seqs[i] == 0 {
			seqs[i] += 1 + uint64(w.R.Intn(3))
		} else {
			seqs[i]--
		}
		tx.Raw = w.C.SignTx(tx.Signers, nums, seqs, w.Gas, tx.Msgs...)
	case 2:
		// enough or not enough for the ante handler, hardly for the message
		tx.Hostile = "lowgas"
		tx.Raw = w.C.SignTx(tx.Signers, nums, seqs, uint64(w.R.between(1000, 140_000)), tx.Msgs...)
	default: // signature of another transaction
		tx.Hostile = "badnum"
		i := w.R.Intn(len(nums))
		nums[i] += 1
		tx.Raw = w.C.SignTx(tx.Signers, nums, seqs, w.Gas, tx.Msgs...)
	}
}

func coins1(d string, n int64) []sdk.Coin { return []sdk.Coin{{Denom: d, Amount: sdk.NewInt(n)}} }

func (w *World) newAcc() *Acc {
	a := newAcc(fmt.Sprintf("x%d-%d", w.WL.Seed, w.nextN))
	w.nextN++
	w.byAddr[a.B] = a
	return a
}

func (w *World) nickname() string {
	if w.R.chance(0.3) { // somebody else's
		for _, p := range w.sortedProfiles() {
			if n := w.S.Prof[p].Nickname; n != "" && w.R.chance(0.3) {
				switch w.R.Intn(3) {
				case 0:
					return strings.ToUpper(n)
				case 1:
					return strings.Title(n)
				}
				return n
			}
		}
	}
	if w.R.chance(0.05) {
		return []string{"", "ab", "ARTR-x", "artr-1", "Artr-Foo", "a b", "ÄRTR-x", "ñandú", "ÑANDÚ", "xyz\t", "\tname", "İx-"}[w.R.Intn(12)]
	}
	if w.R.chance(0.1) {
		return ""
	}
	n := fmt.Sprintf("nm%d", w.R.Intn(25))
	if w.R.chance(0.3) {
		n = strings.ToUpper(n)
	}
	return n
}

func (w *World) sortedProfiles() []string {
	r := make([]string, 0, len(w.S.Prof))
	for k := range w.S.Prof {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func boolUpd(f profile.MsgUpdateProfile_Update_Field, v bool) profile.MsgUpdateProfile_Update {
	return profile.MsgUpdateProfile_Update{Field: f, Value: &profile.MsgUpdateProfile_Update_Bool{Bool: v}}
}
func strUpd(f profile.MsgUpdateProfile_Update_Field, v string) profile.MsgUpdateProfile_Update {
	return profile.MsgUpdateProfile_Update{Field: f, Value: &profile.MsgUpdateProfile_Update_String_{String_: v}}
}

func (w *World) makeMsg(op string) sdk.Msg {
	r, s := w.R, w.S
	used := func(limit, other uint64) uint64 {
		if r.chance(0.7) {
			return other
		}
		return []uint64{0, 1, limit / 2, limit - 1, limit, limit + 1, limit + 1<<20}[r.Intn(7)]
	}
	switch op {
	case "send":
		from, to := w.anyAcc(), w.anyAcc()
		dst := to.B
		if r.chance(0.04) {
			dst = []string{w.G.Company.B, w.G.SubAcc.B, feeAddr, splitAddr, newAcc("nobody").B}[r.Intn(5)]
		}
		if r.chance(0.04) {
			return &bank.MsgSend{FromAddress: from.B, ToAddress: dst, Amount: coins1([]string{dDel, dRev, "foo"}[r.Intn(3)], w.amount(s.bal(from.B, dDel)))}
		}
		if r.chance(0.03) {
			return &bank.MsgSend{FromAddress: from.B, ToAddress: dst, Amount: []sdk.Coin{
				{Denom: dMain, Amount: sdk.NewInt(w.amount(s.main(from.B)))}, {Denom: dDel, Amount: sdk.NewInt(w.R.between(1, 1000))}}}
		}
		return &bank.MsgSend{FromAddress: from.B, ToAddress: dst, Amount: coins1(dMain, w.amount(s.main(from.B)))}
	case "sendmax":
		from := w.anyAcc()
		return &bank.MsgSend{FromAddress: from.B, ToAddress: w.anyAcc().B, Amount: coins1(dMain, w.amountWithFee(from.B))}
	case "burn":
		a := w.anyAcc()
		n := uint64(w.amount(s.main(a.B)))
		if r.chance(0.03) {
			n = math.MaxUint64 - uint64(r.Intn(3))
		}
		return &bank.MsgBurn{Account: a.B, Amount: n}
	case "delegate":
		a := w.anyAcc()
		return &delegating.MsgDelegate{Address: a.B, MicroCoins: sdk.NewInt(w.amount(s.main(a.B)))}
	case "backdel": // somebody banished delegates
		a := w.accWhere(func(a *Acc) bool { return s.Ref[a.B].Banished && s.main(a.B) > 0 })
		if a == nil {
			return nil
		}
		return &delegating.MsgDelegate{Address: a.B, MicroCoins: sdk.NewInt(w.amount(s.main(a.B)))}
	case "backpay": // somebody banished pays for a subscription
		a := w.accWhere(func(a *Acc) bool { return s.Ref[a.B].Banished && s.main(a.B) > 0 })
		if a == nil {
			return nil
		}
		return &profile.MsgPayTariff{Address: a.B}
	case "delegatebig":
		a := w.anyAcc()
		return &delegating.MsgDelegate{Address: a.B, MicroCoins: sdk.NewInt(s.main(a.B)*9/10 + 1)}
	case "revoke", "xrevoke":
		a := w.accWhere(func(a *Acc) bool { return s.bal(a.B, dDel) > 0 })
		if a == nil || r.chance(0.05) {
			a = w.anyAcc()
		}
		n := sdk.NewInt(w.amount(s.bal(a.B, dDel)))
		if op == "revoke" {
			return &delegating.MsgRevoke{Address: a.B, MicroCoins: n}
		}
		return &delegating.MsgExpressRevoke{Address: a.B, MicroCoins: n}
	case "revokeall":
		a := w.accWhere(func(a *Acc) bool { return s.bal(a.B, dDel) > 0 })
		if a == nil {
			return nil
		}
		return &delegating.MsgRevoke{Address: a.B, MicroCoins: sdk.NewInt(s.bal(a.B, dDel))}
	case "createacc":
		if len(w.G.Accs) > w.WL.Spec.N*3 {
			return nil
		}
		creator := w.fromListOr(s.P.Prof.Creators, 0.8)
		ref := w.anyAcc()
		a := w.newAcc()
		b := a.B
		if r.chance(0.1) {
			b = w.anyAcc().B
		} else {
			w.G.Accs = append(w.G.Accs, a)
		}
		m := &profile.MsgCreateAccount{Creator: creator.B, Address: b, Referrer: ref.B}
		if r.chance(0.4) {
			m.Profile = &profile.Profile{Nickname: w.nickname(), AutoPay: r.chance(0.5), Vpn: r.chance(0.5), CardNumber: uint64(r.Intn(3))}
			if r.chance(0.2) { // what nobody may just ask for
				till := w.C.Time.Add(time.Duration(r.between(1, 100*int64(s.day()))))
				m.Profile.ActiveUntil, m.Profile.ExtraImUntil, m.Profile.ImLimitExtra = &till, &till, 7
				m.Profile.VpnLimit, m.Profile.StorageLimit, m.Profile.VpnCurrent = 100*util.GBSize, 100*util.GBSize, uint64(r.Intn(5))
			}
		}
		return m
	case "updateprofile":
		a := w.anyAcc()
		m := &profile.MsgUpdateProfile{Address: a.B}
		for i := 0; i <= r.Intn(3); i++ {
			if r.chance(0.5) {
				m.Updates = append(m.Updates, strUpd(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, w.nickname()))
			} else {
				f := []profile.MsgUpdateProfile_Update_Field{
					profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, profile.MsgUpdateProfile_Update_FIELD_NODING, profile.MsgUpdateProfile_Update_FIELD_STORAGE,
					profile.MsgUpdateProfile_Update_FIELD_VALIDATOR, profile.MsgUpdateProfile_Update_FIELD_VPN, profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY,
				}[r.Intn(6)]
				m.Updates = append(m.Updates, boolUpd(f, r.chance(0.6)))
			}
		}
		return m
	case "autopay":
		a := w.accWhere(func(a *Acc) bool { return !s.Prof[a.B].AutoPay })
		if a == nil {
			a = w.anyAcc()
		}
		return &profile.MsgUpdateProfile{Address: a.B, Updates: []profile.MsgUpdateProfile_Update{boolUpd(profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, r.chance(0.9))}}
	case "imauto":
		a := w.accWhere(func(a *Acc) bool { return s.Prof[a.B].ImLimitExtra > 0 && !s.Prof[a.B].AutoPayImExtra })
		if a == nil {
			a = w.anyAcc()
		}
		return &profile.MsgUpdateProfile{Address: a.B, Updates: []profile.MsgUpdateProfile_Update{boolUpd(profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY, r.chance(0.9))}}
	case "paytariff":
		a := w.anyAcc()
		var gb uint32
		switch r.Intn(5) {
		case 0:
			gb = uint32(r.Intn(40))
		case 1:
			gb = s.P.Prof.BaseStorageGb + uint32(r.Intn(3)) - 1
		case 2:
			gb = uint32(s.Prof[a.B].StorageLimit / util.GBSize)
		case 3:
			if r.chance(0.2) {
				gb = uint32(1717986919 + r.Intn(20))
			}
		}
		return &profile.MsgPayTariff{Address: a.B, StorageAmount: gb}
	case "buystorage":
		a := w.accActive(s)
		return &profile.MsgBuyStorage{Address: a.B, ExtraStorage: uint32(r.between(1, 30))}
	case "givestorage":
		a := w.accWhere(func(a *Acc) bool { return s.Prof[a.B].StorageLimit > uint64(s.P.Prof.BaseStorageGb)*util.GBSize })
		if a == nil {
			a = w.anyAcc()
		}
		l := int64(s.Prof[a.B].StorageLimit / util.GBSize)
		return &profile.MsgGiveStorageUp{Address: a.B, Amount: uint32(r.between(1, l+1))}
	case "buyvpn":
		a := w.accActive(s)
		return &profile.MsgBuyVpn{Address: a.B, ExtraTraffic: uint32(r.between(1, 30))}
	case "buyim":
		return &profile.MsgBuyImExtraStorage{Address: w.anyAcc().B, ExtraStorage: uint32(r.between(1, 10))}
	case "giveim":
		a := w.accWhere(func(a *Acc) bool { return s.Prof[a.B].ImLimitExtra > 0 })
		if a == nil {
			a = w.anyAcc()
		}
		return &profile.MsgGiveUpImExtra{Address: a.B, Amount: uint32(r.Intn(int(s.Prof[a.B].ImLimitExtra) + 1))}
	case "prolongim":
		a := w.accWhere(func(a *Acc) bool { return s.Prof[a.B].ImLimitExtra > 0 })
		if a == nil {
			a = w.anyAcc()
		}
		return &profile.MsgProlongImExtra{Address: a.B}
	case "setrate":
		q := util.NewFraction(r.between(1, 300000), r.between(1, 7))
		return &profile.MsgSetRate{Sender: w.fromListOr(s.P.Prof.TokenRateSigners, 0.3).B, Value: q}
	case "setstoragecur":
		a := w.anyAcc()
		return &profile.MsgSetStorageCurrent{Sender: w.fromListOr(s.P.Prof.StorageSigners, 0.3).B, Address: a.B, Value: used(s.Prof[a.B].StorageLimit, uint64(r.between(0, 20))*util.GBSize/2)}
	case "setvpncur":
		a := w.anyAcc()
		lim := int64(s.Prof[a.B].VpnLimit)
		if lim == 0 {
			lim = 7 * util.GBSize
		}
		return &profile.MsgSetVpnCurrent{Sender: w.fromListOr(s.P.Prof.VpnSigners, 0.3).B, Address: a.B, Value: used(uint64(lim), uint64(r.between(0, lim+lim/3)))}
	case "reqtrans":
		return &referral.MsgRequestTransition{Subject: w.anyAcc().B, Destination: w.anyAcc().B}
	case "restrans":
		a := w.accWhere(func(a *Acc) bool { return s.Ref[a.B].Transition != "" })
		if a == nil {
			a = w.anyAcc()
		}
		sg := w.byAddr[s.Ref[a.B].Referrer]
		if sg == nil || r.chance(0.25) {
			sg = w.anyAcc()
			if r.chance(0.4) && w.byAddr[s.Ref[a.B].Transition] != nil {
				sg = w.byAddr[s.Ref[a.B].Transition]
			}
		}
		return &referral.MsgResolveTransition{Signer: sg.B, Subject: a.B, Decline: r.chance(0.3)}
	case "on":
		a := w.anyAcc()
		if x := w.accWhere(func(a *Acc) bool { n, ok := s.Node[a.B]; return !ok || !n.Status }); x != nil && r.chance(0.7) {
			a = x
		}
		return &noding.MsgOn{Account: a.B, PubKey: w.G.Nodes[r.Intn(len(w.G.Nodes))].Bech32}
	case "rekey", "handover": // a node goes off, and then another node (or another operator) goes on, mostly within the same block
		a := w.accWhere(func(a *Acc) bool { n := s.Node[a.B]; return n.Status && n.LastPower != 0 && n.MissedBlocksInRow != 0 })
		if a == nil || r.chance(0.3) {
			a = w.accWhere(func(a *Acc) bool { return s.Node[a.B].Status })
		}
		if a == nil {
			return nil
		}
		next := &noding.MsgOn{Account: a.B, PubKey: w.G.Nodes[r.Intn(len(w.G.Nodes))].Bech32}
		if op == "handover" {
			next.PubKey = s.Node[a.B].PubKey
			if b := w.accWhere(func(b *Acc) bool { return b.B != a.B && !s.Node[b.B].Status }); b != nil {
				next.Account = b.B
			}
		}
		w.followUp = next
		return &noding.MsgOff{Account: a.B}
	case "off":
		a := w.accWhere(func(a *Acc) bool { return s.Node[a.B].Status })
		if a == nil || r.chance(0.1) {
			a = w.anyAcc()
		}
		return &noding.MsgOff{Account: a.B}
	case "unjail":
		a := w.accWhere(func(a *Acc) bool { return s.Node[a.B].Jailed })
		if a == nil || r.chance(0.1) {
			a = w.anyAcc()
		}
		return &noding.MsgUnjail{Account: a.B}
	case "propose":
		return &voting.MsgPropose{Proposal: w.proposal(w.fromListOr(s.Gov, 0.15).B)}
	case "vote":
		a := w.fromListOr(s.Gov, 0.1)
		return &voting.MsgVote{Voter: w.spell(a.B), Agree: r.chance(0.75)}
	case "oddprop": // values which can't be put in force
		p := w.proposal(w.fromListOr(s.Gov, 0.1).B)
		switch r.Intn(9) {
		case 0:
			p.Type, p.Args = voting.PROPOSAL_TYPE_ENTER_PRICE, &voting.Proposal_Price{Price: &voting.PriceArgs{}}
		case 1:
			p.Type, p.Args = voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, &voting.Proposal_Price{Price: &voting.PriceArgs{}}
		case 2:
			p.Type, p.Args = voting.PROPOSAL_TYPE_MIN_DELEGATE, &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: -int64(r.Intn(2))}}
		case 3:
			p.Type, p.Args = voting.PROPOSAL_TYPE_DUST_DELEGATION, &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: -1}}
		case 4:
			p.Type, p.Args = voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: -1}}
		case 5:
			p.Type, p.Args = voting.PROPOSAL_TYPE_MAX_VALIDATORS, &voting.Proposal_Count{Count: &voting.CountArgs{}}
		case 6:
			p = w.proposalOf(p.Author, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE)
		case 7:
			p = w.proposalOf(p.Author, voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE)
		case 8:
			p = w.proposalOf(p.Author, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE)
		}
		return &voting.MsgPropose{Proposal: p}
	case "voteyes": // somebody who hasn't voted yet agrees
		var left []string
		for _, b := range s.Gov {
			if s.Prop != nil && !contains(s.Agreed, b) && !contains(s.Disagr, b) {
				left = append(left, b)
			}
		}
		if len(left) == 0 {
			return &voting.MsgVote{Voter: w.anyAcc().B, Agree: true}
		}
		return &voting.MsgVote{Voter: left[r.Intn(len(left))], Agree: true}
	case "startpoll":
		p := voting.Poll{Name: fmt.Sprintf("poll%d%s", w.C.Height, oddName[w.C.Height%int64(len(oddName))]), Author: w.fromListOr(s.Gov, 0.15).B, Question: "?"}
		if r.chance(0.7) {
			q := []util.Fraction{util.FractionZero(), util.Percent(50), util.NewFraction(2, 3), util.FractionInt(1), util.Percent(33)}[r.Intn(5)]
			p.Quorum = &q
		}
		switch r.Intn(3) {
		case 0:
			p.Requirements = &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}
		case 1:
			p.Requirements = &voting.Poll_MinStatus{MinStatus: referral.Status(1 + r.Intn(3))}
		}
		return &voting.MsgStartPoll{Poll: p}
	case "answerpoll":
		return &voting.MsgAnswerPoll{Respondent: w.spell(w.anyAcc().B), Yes: r.chance(0.6)}
	case "earnset":
		return &earning.MsgSet{Earner: w.earner(), Signer: w.fromListOr(s.P.Earn.Signers, 0.25).B}
	case "earnmulti":
		m := &earning.MsgSetMultiple{Signer: w.fromListOr(s.P.Earn.Signers, 0.25).B}
		for i := 0; i <= r.Intn(4); i++ {
			m.Earners = append(m.Earners, w.earner())
		}
		return m
	}
	panic("unknown op " + op)
}

// spell writes the address down one way or the other.
func (w *World) spell(addr string) string {
	if w.WL.UpperP > 0 && w.R.chance(w.WL.UpperP) {
		return strings.ToUpper(addr)
	}
	return addr
}

func (w *World) accActive(s *Snap) *Acc {
	if a := w.accWhere(func(a *Acc) bool { p := s.Prof[a.B]; return p.ActiveUntil != nil && p.ActiveUntil.After(s.Time) }); a != nil && w.R.chance(0.9) {
		return a
	}
	return w.anyAcc()
}

func (w *World) earner() earning.Earner {
	e := earning.Earner{Account: w.anyAcc().B}
	day := w.S.day()
	at := func() *time.Time {
		t := w.C.Time.Add(-time.Duration(w.R.between(0, 3*int64(day))))
		switch w.R.Intn(6) {
		case 0:
			t = w.C.Time.Add(-2 * day)
		case 1:
			t = w.C.Time
		case 2:
			t = w.C.Time.Add(-2*day + time.Duration(w.R.between(-5, 5))*time.Second)
		}
		return &t
	}
	if w.R.chance(0.6) {
		e.Vpn = at()
	}
	if w.R.chance(0.6) {
		e.Storage = at()
	}
	return e
}

var proposalTypes = func() (r []voting.ProposalType) {
	for k := range voting.ProposalType_name {
		if k != 0 {
			r = append(r, voting.ProposalType(k))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}()

func (w *World) proposal(author string) voting.Proposal {
	types := w.WL.PropTypes
	if len(types) == 0 {
		types = proposalTypes
	}
	return w.proposalOf(author, types[w.R.Intn(len(types))])
}

func (w *World) proposalOf(author string, t voting.ProposalType) voting.Proposal {
	r, s := w.R, w.S
	p := voting.Proposal{Name: fmt.Sprintf("prop-%d-%d%s", t, r.Intn(1000), oddName[w.C.Height%int64(len(oddName))]), Author: author, Type: t}
	addr := func(cur []string, remove bool) {
		a := w.anyAcc().B
		if remove && len(cur) > 0 && r.chance(0.8) {
			a = cur[r.Intn(len(cur))]
		}
		p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: a}}
	}
	price := func(lo, hi int64) {
		p.Args = &voting.Proposal_Price{Price: &voting.PriceArgs{Price: uint32(r.between(lo, hi))}}
	}
	amt := func(v int64) { p.Args = &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: v}} }
	count := func(v uint32) { p.Args = &voting.Proposal_Count{Count: &voting.CountArgs{Count: v}} }
	portion := func(f util.Fraction) { p.Args = &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: f}} }
	pct := func(lo, hi int64) util.Fraction { return util.Percent(r.between(lo, hi)) }
	switch t {
	case voting.PROPOSAL_TYPE_ENTER_PRICE:
		price(1000, 3000)
	case voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		price(1, 40)
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		price(0, 20_000000)
	case voting.PROPOSAL_TYPE_DELEGATION_AWARD:
		p.Args = &voting.Proposal_DelegationAward{DelegationAward: &voting.DelegationAwardArgs{Award: delegating.Percentage{Minimal: 1, ThousandPlus: 20, TenKPlus: 30, HundredKPlus: 35}}}
	case voting.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD, voting.PROPOSAL_TYPE_PRODUCT_NETWORK_AWARD:
		a := referral.NetworkAward{Network: make([]util.Fraction, 10), Company: util.Percent(1)}
		for i := range a.Network {
			a.Network[i] = util.Percent(1)
		}
		p.Args = &voting.Proposal_NetworkAward{NetworkAward: &voting.NetworkAwardArgs{Award: a}}
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		addr(nil, false)
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		addr(s.Gov, true)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD:
		addr(nil, false)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		addr(s.P.Prof.Creators, true)
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		at := w.C.Time.Add(time.Duration(r.between(1, 1000)) * 24 * time.Hour * 3650)
		p.Args = &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: &voting.SoftwareUpgradeArgs{Name: "future", Info: "", Time: &at}}
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		addr(nil, false)
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		var staff []string
		for _, b := range s.addrs() {
			if s.Node[b].Staff {
				staff = append(staff, b)
			}
		}
		addr(staff, true)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		addr(nil, false)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		addr(s.P.Earn.Signers, true)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		addr(s.P.Prof.TokenRateSigners, true)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		addr(s.P.Prof.VpnSigners, true)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		addr(s.P.Prof.StorageSigners, true)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		addr(s.P.Bank.BlockedSenders, true)
	case voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_MIN_DELEGATE:
		amt([]int64{0, 1, 1000, 10_000, 1_000000}[r.Intn(5)])
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		amt([]int64{0, 0, 1000, 1_000000, 100_000000}[r.Intn(5)])
	case voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		amt([]int64{0, 1, 1000, 10_000000, 100_000000, 33_333_333}[r.Intn(6)])
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		count(uint32(r.between(1, 12)))
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		count(uint32(r.between(0, 4)))
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		count(uint32(r.between(1, 4)))
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_STATUS:
		p.Args = &voting.Proposal_Status{Status: &voting.StatusArgs{Status: referral.Status(r.between(1, 3))}}
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		mc := noding.MinCriteria{Status: referral.Status(r.between(1, 2)), SelfStake: uint64(r.between(0, 3)) * 1_000_000000, TotalStake: uint64(r.between(0, 5)) * 1_000_000000}
		p.Args = &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &mc}}
	case voting.PROPOSAL_TYPE_REVOKE_PERIOD:
		p.Args = &voting.Proposal_Period{Period: &voting.PeriodArgs{Days: uint32(r.between(1, 20))}}
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		d := noding.Distribution{Slices: []noding.Distribution_Slice{{Part: pct(10, 90), VotingPower: r.between(5, 20)}}, LuckiesVotingPower: r.between(1, 20)}
		d.Slices = append(d.Slices, noding.Distribution_Slice{Part: util.FractionInt(1).Sub(d.Slices[0].Part), VotingPower: r.between(1, 20)})
		p.Args = &voting.Proposal_VotingPower{VotingPower: &d}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		portion([]util.Fraction{util.Permille(3), util.FractionZero(), util.Percent(10), util.NewFraction(1, 7), util.Permille(1)}[r.Intn(5)])
	case voting.PROPOSAL_TYPE_VALIDATOR_BONUS, voting.PROPOSAL_TYPE_SUBSCRIPTION_BONUS, voting.PROPOSAL_TYPE_VPN_BONUS, voting.PROPOSAL_TYPE_STORAGE_BONUS, voting.PROPOSAL_TYPE_VALIDATOR, voting.PROPOSAL_TYPE_BURN_ON_REVOKE:
		portion(pct(0, 20))
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		fs := [][2]util.Fraction{{util.FractionInt(1), util.FractionZero()}, {util.Percent(50), util.Percent(30)}, {util.NewFraction(1, 3), util.NewFraction(1, 7)}, {util.FractionZero(), util.FractionZero()}, {util.FractionZero(), util.FractionInt(1)}, {util.NewFraction(1, 6), util.NewFraction(3, 10)}}[r.Intn(6)]
		p.Args = &voting.Proposal_Portions{Portions: &voting.PortionsArgs{Fractions: []util.Fraction{fs[0], fs[1]}}}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES:
		p.Args = &voting.Proposal_AccruePercentageRanges{AccruePercentageRanges: &voting.AccruePercentageRangesArgs{AccruePercentageRanges: []delegating.PercentageRange{{Start: 0, Percent: util.Percent(21)}}}}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		b := r.between(1, 40)
		l := func(x int64) []util.Fraction {
			return []util.Fraction{util.Percent(x), util.Percent(1), util.Permille(5), util.Percent(2), util.Percent(3)}
		}
		p.Args = &voting.Proposal_AccruePercentageTable{AccruePercentageTable: &voting.AccruePercentageTableArgs{AccruePercentageTable: []delegating.PercentageListRange{{Start: 0, PercentList: l(b)}, {Start: uint64(r.between(1, 20)) * 1_000_000000, PercentList: l(b + 3)}}}}
	case voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		p.Args = &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &delegating.Revoke{Period: uint32(r.between(1, 15)), Burn: pct(0, 30)}}}
	default:
		panic(fmt.Sprintf("no generator for proposal type %s", t))
	}
	return p
}

// replayInfo identifies the execution: rebuilding the same world from it reproduces the same chain of events.
func (w *World) replayInfo() json.RawMessage {
	bz, _ := json.Marshal(map[string]interface{}{
		"world": w.WL.Name, "seed": w.WL.Seed, "height": w.C.Height, "time": w.C.Time.UTC().Format(time.RFC3339Nano), "blocks": w.WL.Blocks,
	})
	return bz
}

// oddName are endings of names people might well give.
var oddName = []string{"", " R&D", " <new>", " \"quoted\"", " a\\b", " две\nстроки", " \\\"", ""}
