//go:build testing
// +build testing

package main

import (
	"fmt"
	"math"
	"math/big"
	"sync"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
)

// ---- B01: conservation ----------------------------------------------------------------------------------------------

type monSupply struct{ NopMonitor }

func (monSupply) check(w *World, s *Snap, step string) {
	for b, c := range s.Bal {
		for _, x := range c {
			if x.Amount.IsNegative() {
				w.Rep.Violate(w, "negative-balance", "%s: %s has %s%s", step, b, x.Amount, x.Denom)
			}
		}
	}
	for _, d := range denoms {
		if sum, sup := s.sum(d), s.Supply.AmountOf(d); !sum.Equal(sup) {
			w.Rep.Violate(w, "supply-mismatch:"+step, "%s: accounts hold %s%s in total, the recorded supply is %s", step, sum, d, sup)
		}
	}
}

func total(s *Snap) *big.Int {
	t := new(big.Int)
	for _, d := range denoms {
		t.Add(t, s.sum(d).BigInt())
	}
	return t
}

func (m monSupply) Start(w *World) {
	m.check(w, w.S, "genesis")
	w.Rep.Eval("genesis/%s", w.WL.Name)
}

// minted/burned sums what the events of a step say came into being and what was destroyed.
func mintedBurned(evs []abci.Event) (minted, burned int64) {
	for _, e := range events(evs, "accrue") {
		minted += e.u("ucoins") + e.u("fee")
	}
	for _, e := range events(evs, "validator_accrue") {
		for _, n := range e.ulist("ucoins") {
			minted += n
		}
	}
	for _, e := range events(evs, "burn") {
		for _, n := range e.coins("amount") {
			burned += n
		}
	}
	return
}

func (m monSupply) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.check(w, post, "BeginBlock")
	d := new(big.Int).Sub(total(post), total(pre)).Int64()
	minted, _ := mintedBurned(res.Events)
	// what the fee collector did not hand out was burned
	split := pre.main(splitAddr)
	// and so was a part of what the banished had delegated, their delegation being revoked
	for _, e := range events(res.Events, "acc_banished") {
		split += pre.bal(e.A["address"], dDel)
	}
	if d > minted || d < minted-split {
		w.Rep.Violate(w, "unexplained-supply-change:BeginBlock", "total supply changed by %d while %d was accrued and at most %d could be burned with the fees", d, minted, split)
	}
	w.Rep.Count("minted", minted)
	w.Rep.Eval("begin/%d/%d/%d", bucket(minted), bucket(split), sign(d-minted))
}

func (m monSupply) EndBlock(w *World, pre, post *Snap, _ abci.ResponseEndBlock) {
	m.check(w, post, "EndBlock")
	if total(pre).Cmp(total(post)) != 0 {
		w.Rep.Violate(w, "unexplained-supply-change:EndBlock", "total supply changed from %s to %s", total(pre), total(post))
	}
	w.Rep.Eval("end/%d", len(pre.Tasks)%7)
}

func (m monSupply) Tx(w *World, pre, post *Snap, tx *TxRec) {
	m.check(w, post, "tx:"+tx.Kind)
	d := new(big.Int).Sub(total(post), total(pre)).Int64()
	want := int64(0)
	loose := false
	if tx.ok() {
		minted, _ := mintedBurned(tx.Res.Events)
		want = minted
		for _, x := range tx.Msgs {
			switch y := x.(type) {
			case *bank.MsgBurn:
				want -= int64(y.Amount)
			case *delegating.MsgRevoke, *delegating.MsgExpressRevoke:
				loose = true // part of the amount burns: D01 decides how much exactly
			}
		}
	}
	if d != want && !(loose && d < want) {
		w.Rep.Violate(w, "unexplained-supply-change:tx:"+tx.Kind, "total supply changed by %d, expected %d", d, want)
	}
	w.Rep.Count("tx-checked", 1)
	w.Rep.Eval("tx/%s/%v/%d/%d", tx.Kind, tx.ok(), bucket(want), sign(d))
	if tx.ok() && want != 0 {
		w.Rep.Sample(map[string]interface{}{"where": w.where(), "tx": tx.Kind, "supply_change": d, "explained": want})
	}
}

func bucket(n int64) int {
	if n == 0 {
		return 0
	}
	return sign(n) * (1 + int(math.Log10(math.Abs(float64(n)))))
}

func sign(n int64) int {
	switch {
	case n > 0:
		return 1
	case n < 0:
		return -1
	}
	return 0
}

var allOps = map[string]int{
	"send": 20, "burn": 4, "delegate": 14, "revoke": 8, "xrevoke": 4, "revokeall": 2, "createacc": 4, "updateprofile": 5, "paytariff": 8,
	"buystorage": 3, "givestorage": 2, "buyvpn": 3, "buyim": 3, "giveim": 2, "prolongim": 2, "setrate": 1, "setstoragecur": 2, "setvpncur": 3,
	"reqtrans": 4, "restrans": 5, "on": 3, "off": 2, "unjail": 3, "propose": 4, "vote": 8, "startpoll": 1, "answerpoll": 4, "earnset": 4, "earnmulti": 2,
}

func without(m map[string]int, ks ...string) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		if !contains(ks, k) {
			r[k] = v
		}
	}
	return r
}

// mixedWorkloads is the general purpose set of worlds.
func mixedWorkloads(seed int64, n, blocks, txs int) (r []Workload) {
	for i := 0; i < n; i++ {
		sp := defaultSpec()
		vary(newRng(seed*1000+int64(i)), i, &sp)
		r = append(r, Workload{
			Name: "mixed", Spec: sp, Seed: seed*7919 + int64(i)*104729 + 13, Blocks: blocks, Txs: txs, Ops: allOps,
			TNext: 60, TSec: 20, THour: 12, TDay: 6, TMonth: boolInt(i%3 == 0), HostileP: 0.03, MissP: 0.05, SickP: 0.02, EvP: 0.004, MultiP: 0.06,
		})
	}
	return r
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- B02: transfers and burning -------------------------------------------------------------------------------------

// bankSim predicts what a list of bank messages does: the balance changes, or that they are refused.
func bankSim(s *Snap, msgs []sdk.Msg) (m Model, supply int64, ok, known bool) {
	m = Model{}
	have := func(b, d string) int64 { return s.bal(b, d) + m[b][d] }
	for _, x := range msgs {
		switch y := x.(type) {
		case *bank.MsgSend:
			if len(y.Amount) != 1 || y.Amount[0].Denom != dMain || !y.Amount[0].Amount.IsInt64() || !y.Amount[0].Amount.IsPositive() {
				return nil, 0, false, true
			}
			n := y.Amount[0].Amount.Int64()
			if _, exists := s.Accs[y.ToAddress]; !exists {
				return nil, 0, false, true
			}
			if n < s.P.Bank.MinSend || contains(s.P.Bank.BlockedSenders, y.FromAddress) {
				return nil, 0, false, true
			}
			fee := txFee(s.P, n)
			if have(y.FromAddress, dMain) < n+fee {
				return nil, 0, false, true
			}
			m.add(y.FromAddress, dMain, -n-fee)
			m.add(splitAddr, dMain, fee)
			m.add(y.ToAddress, dMain, n)
		case *bank.MsgBurn:
			if y.Amount == 0 || y.Amount > math.MaxInt64 || have(y.Account, dMain) < int64(y.Amount) {
				return nil, 0, false, true
			}
			m.add(y.Account, dMain, -int64(y.Amount))
			supply -= int64(y.Amount)
		default:
			return nil, 0, false, false
		}
	}
	return m, supply, true, true
}

type monTransfer struct{ NopMonitor }

func (monTransfer) Tx(w *World, pre, post *Snap, tx *TxRec) {
	if tx.Hostile != "" {
		return
	}
	m, supply, ok, known := bankSim(pre, tx.Msgs)
	if !known {
		return
	}
	kind := "multi"
	var n int64
	if len(tx.Msgs) == 1 {
		kind = tx.Kind
		switch y := tx.Msgs[0].(type) {
		case *bank.MsgSend:
			n = sdk.Coins(y.Amount).AmountOf(dMain).Int64()
		case *bank.MsgBurn:
			n = int64(y.Amount)
		}
	}
	situation := fmt.Sprintf("%s/%v/%d/self=%v", kind, ok, bucket(n), len(m) == 2)
	w.Rep.Eval("%s/%v/%v", situation, pre.P.Bank.MaxTransactionFee, pre.P.Bank.TransactionFee)
	if ok != tx.ok() {
		if ok {
			w.Rep.Violate(w, kind+"-refused", "a valid %s was refused: %s (%v)", kind, tx.Res.Log, tx.Msgs)
		} else {
			w.Rep.Violate(w, kind+"-accepted", "a %s which must be refused was accepted: %v", kind, tx.Msgs)
		}
		return
	}
	w.Rep.Count(fmt.Sprintf("%s:%v", kind, ok), 1)
	if !ok {
		if x := pre.diff(post, "acc"); len(x) > 0 {
			w.Rep.Violate(w, kind+"-refused-effect", "a refused %s changed the state: %v", kind, first(x, 5))
		}
		return
	}
	if x := m.mismatch(pre, post); len(x) > 0 {
		w.Rep.Violate(w, kind+"-balances", "%v: %v", tx.Msgs, first(x, 6))
	}
	if d := supplyDelta(pre, post, dMain); d != supply {
		w.Rep.Violate(w, kind+"-supply", "the supply changed by %d, expected %d", d, supply)
	}
	// moving money touches nothing but money, its network aggregates, and what depends on those
	if x := pre.diff(post, "acc", "bal", "supply", "ref"); len(x) > 0 {
		w.Rep.Violate(w, kind+"-side-effect", "%v also changed: %v", tx.Msgs, first(x, 5))
	}
	w.Rep.Sample(map[string]interface{}{"where": w.where(), "msgs": fmt.Sprint(tx.Msgs), "changes": m})
}

// ---- B03: transaction fees ------------------------------------------------------------------------------------------

type monFees struct{ NopMonitor }

// feesOf predicts which fees a transaction brings into the splittable collector and into the plain one.
func feesOf(pre *Snap, tx *TxRec) (split, plain int64, known bool) {
	for _, x := range tx.Msgs {
		switch y := x.(type) {
		case *bank.MsgSend:
			n := sdk.Coins(y.Amount).AmountOf(dMain).Int64()
			split += txFee(pre.P, n)
			switch y.ToAddress { // anybody may also just send money to a collector
			case splitAddr:
				split += n
			case feeAddr:
				plain += n
			}
		case *delegating.MsgDelegate:
			split += txFee(pre.P, y.MicroCoins.Int64())
		case *bank.MsgBurn:
		default:
			return 0, 0, false
		}
	}
	return split, plain, true
}

func (monFees) Tx(w *World, pre, post *Snap, tx *TxRec) {
	got := post.main(splitAddr) - pre.main(splitAddr)
	plain := post.main(feeAddr) - pre.main(feeAddr)
	if !tx.ok() {
		if got != 0 || plain != 0 {
			w.Rep.Violate(w, "fee-on-failure", "a failed transaction changed the fee collectors by %d and %d", got, plain)
		}
		return
	}
	if got < 0 || plain < 0 {
		w.Rep.Violate(w, "fee-collector-drained", "a transaction (%s) took %d/%d out of the fee collectors", tx.Kind, -got, -plain)
	}
	switch tx.Kind {
	case "send", "sendmax", "burn", "delegate", "multi":
	case "revoke", "xrevoke", "revokeall", "paytariff", "buystorage", "buyvpn", "buyim", "prolongim", "updateprofile", "createacc", "reqtrans":
		if got > 0 && pre.P.Bank.MaxTransactionFee > 0 && tx.Kind != "revoke" && tx.Kind != "xrevoke" && tx.Kind != "revokeall" && got > pre.P.Bank.MaxTransactionFee {
			w.Rep.Violate(w, "fee-above-maximum:"+tx.Kind, "fee of %d, the maximum is %d", got, pre.P.Bank.MaxTransactionFee)
		}
		return
	default:
		if got != 0 || plain != 0 {
			// accruals triggered on the way are reported by events
			for _, e := range events(tx.Res.Events, "accrue") {
				got -= e.u("fee")
			}
			if got != 0 || plain != 0 {
				w.Rep.Violate(w, "unexpected-fee:"+tx.Kind, "fee collectors changed by %d and %d", got, plain)
			}
		}
		return
	}
	want, wantPlain, known := feesOf(pre, tx)
	if !known {
		return
	}
	for _, e := range events(tx.Res.Events, "accrue") {
		want += e.u("fee")
	}
	if got != want || plain != wantPlain {
		w.Rep.Violate(w, "fee-amount:"+tx.Kind, "%v: fees %d and %d, expected %d and %d", tx.Msgs, got, plain, want, wantPlain)
	}
	w.Rep.Count("fees-checked", 1)
	if want > 0 {
		w.Rep.Count("fees-nonzero", 1)
	}
	p := pre.P.Bank
	w.Rep.Eval("fee/%s/%d/%v/%d/%v", tx.Kind, bucket(want), p.TransactionFee, p.MaxTransactionFee, p.TransactionFeeSplitRatios)
}

func due(s *Snap, t time.Time) (n int) {
	for _, x := range s.Tasks {
		if !x.Time.After(t) {
			n++
		}
	}
	return
}

func (monFees) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	prop := operatorOf(pre, b.Proposer)
	if prop == "" {
		return
	}
	p := pre.P.Bank
	split, plain := pre.main(splitAddr), pre.main(feeAddr)
	toProp, toComp := mulTrunc(rat(p.TransactionFeeSplitRatios.ForProposer), split), mulTrunc(rat(p.TransactionFeeSplitRatios.ForCompany), split)
	burn := split - toProp - toComp
	var in, inPlain int64 // what came in with the tasks of this block
	for _, e := range events(res.Events, "transfer") {
		if e.A["recipient"] == splitAddr || e.A["recipient"] == quote(splitAddr) {
			in += e.coins("amount")[dMain]
		}
		if e.A["recipient"] == quote(feeAddr) {
			inPlain += e.coins("amount")[dMain]
		}
	}
	for _, e := range events(res.Events, "accrue") {
		in += e.u("fee")
	}
	if due(pre, b.Time) == 0 {
		m := Model{}
		m.add(splitAddr, dMain, -split)
		m.add(feeAddr, dMain, -plain)
		m.add(prop, dMain, plain+toProp)
		m.add(p.CompanyAccount, dMain, toComp)
		if x := m.mismatch(pre, post); len(x) > 0 {
			w.Rep.Violate(w, "fee-distribution", "collected %d and %d, proposer %s, shares %v: %v", split, plain, prop, p.TransactionFeeSplitRatios, first(x, 5))
		}
		if d := supplyDelta(pre, post, dMain); d != -burn {
			w.Rep.Violate(w, "fee-burning", "the supply changed by %d, %d had to be burned of %d collected (shares %v)", d, burn, split, p.TransactionFeeSplitRatios)
		}
		w.Rep.Count("distributions", 1)
		if split > 0 {
			w.Rep.Count("distributions-nonzero", 1)
			w.Rep.Sample(map[string]interface{}{"where": w.where(), "collected": split, "proposer": toProp, "company": toComp, "burned": burn})
		}
		w.Rep.Eval("dist/%d/%d/%v/%v", bucket(split), bucket(plain), prop == p.CompanyAccount, p.TransactionFeeSplitRatios)
		return
	}
	if got := post.main(splitAddr); got != in {
		w.Rep.Violate(w, "fee-collector-after-block", "the fee collector holds %d at the start of a block, %d of it was collected in this block", got, in)
	}
	if got := post.main(feeAddr); got != inPlain {
		w.Rep.Violate(w, "fee-collector-after-block", "the plain fee collector holds %d at the start of a block, %d of it was collected in this block", got, inPlain)
	}
	w.Rep.Eval("collector/%d/%d", bucket(split), bucket(in))
}

func (monFees) EndBlock(w *World, pre, post *Snap, _ abci.ResponseEndBlock) {
	if pre.main(splitAddr) != post.main(splitAddr) || pre.main(feeAddr) != post.main(feeAddr) {
		w.Rep.Violate(w, "fee-collector-endblock", "the end of a block changed the fee collectors")
	}
}

func quote(s string) string { return `"` + s + `"` }

// operatorOf is the account behind a consensus address.
func operatorOf(s *Snap, cons []byte) string { return s.Op[string(cons)] }

var consCache sync.Map

func consAddrOf(bech32 string) []byte {
	if v, ok := consCache.Load(bech32); ok {
		return v.([]byte)
	}
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, bech32)
	if err != nil {
		return nil
	}
	a := []byte(pk.Address())
	consCache.Store(bech32, a)
	return a
}

// govOps are operations that change the parameters other operations depend on.
func (w *World) amountWithFee(b string) int64 {
	// the most the account can send, give or take one
	bal := w.S.main(b)
	lo, hi := int64(0), bal
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if mid+txFee(w.S.P, mid) <= bal {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo + int64(w.R.Intn(3)) - 1
}
