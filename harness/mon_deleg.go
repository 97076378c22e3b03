//go:build testing
// +build testing

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
)

// bonuses: base, validator, subscription, VPN, storage
type bonuses [5]bool

func (f bonuses) bitmap() (r int64) {
	for i, v := range f[1:] {
		if v {
			r += 1 << uint(i)
		}
	}
	return
}

// longActive says whether an account is a validator in good standing for long enough to get validators' bonuses.
func longActive(s *Snap, b string, height int64) bool {
	n, ok := s.Node[b]
	return ok && n.Status && !n.Jailed && !n.BannedForLife && height-n.UnjailAt >= 6*int64(s.P.Node.UnjailAfter)
}

func bonusesOf(s *Snap, b string, now time.Time, height int64) bonuses {
	f := bonuses{true, longActive(s, b, height)}
	if p, ok := s.Prof[b]; ok {
		f[2] = p.ActiveUntil != nil && p.ActiveUntil.After(now)
	}
	if e, ok := s.Earn[b]; ok {
		f[3] = e.Vpn != nil && e.Vpn.Add(2*s.day()).After(now)
		f[4] = e.Storage != nil && e.Storage.Add(2*s.day()).After(now)
	}
	return f
}

// dailyRate is the share of the delegation that is awarded a day.
func dailyRate(s *Snap, delegated int64, f bonuses) *big.Rat {
	r := new(big.Rat)
	if delegated <= s.P.Bank.DustDelegation {
		return r
	}
	for i, v := range f {
		if !v {
			continue
		}
		x := new(big.Rat)
		for _, step := range s.P.Deleg.AccruePercentageTable {
			if step.Start <= uint64(delegated) {
				x = rat(step.PercentList[i])
			}
		}
		r.Add(r, x)
	}
	return r.Quo(r, ratI(30))
}

type share struct {
	B string
	R *big.Rat
}

// upperValidators are the ancestors who get their share from the delegations below.
func upperValidators(s *Snap, b string, height int64) (r []share) {
	best := int64(0)
	up := s.Ref[b].Referrer
	for level := 1; level <= 20 && up != ""; level++ {
		x := s.Ref[up]
		if longActive(s, up, height) {
			permille := int64(0)
			for _, y := range []struct {
				st       referral.Status
				permille int64
				levels   int
			}{
				{referral.STATUS_MASTER, 1, 4}, {referral.STATUS_CHAMPION, 2, 6}, {referral.STATUS_BUSINESSMAN, 3, 10},
				{referral.STATUS_PROFESSIONAL, 4, 12}, {referral.STATUS_TOP_LEADER, 5, 14}, {referral.STATUS_ABSOLUTE_CHAMPION, 6, 20},
			} {
				if x.Status >= y.st && level <= y.levels {
					permille = y.permille
				}
			}
			if permille > best {
				r = append(r, share{up, big.NewRat(permille-best, 1000)})
				best = permille
			}
		}
		up = x.Referrer
	}
	return
}

// award is one expected accrual.
type award struct {
	B              string
	Gross          int64 // what is accrued, fee inclusive
	Fee            int64
	Base           int64 // what the ancestors' shares are counted from
	Flags          bonuses
	Upper          []share
	UpperAmt       []int64
	Part           *big.Rat
	Delegated      int64
	NoRate, Missed bool
}

func (a award) apply(m Model) (minted int64) {
	m.add(a.B, dMain, a.Gross-a.Fee)
	m.add(splitAddr, dMain, a.Fee)
	minted = a.Gross
	for i, u := range a.Upper {
		m.add(u.B, dMain, a.UpperAmt[i])
		minted += a.UpperAmt[i]
	}
	return
}

// awardOf is what an account has earned by delegating by the moment; whole means a full day.
func awardOf(s *Snap, b string, now time.Time, height int64, whole bool) (a award) {
	rec := s.Del[b]
	a.B = b
	a.Delegated = s.bal(b, dDel)
	a.Part = ratI(1)
	if !whole {
		left := new(big.Rat).SetFrac(big.NewInt(rec.NextAccrue.Sub(now).Nanoseconds()), big.NewInt(s.day().Nanoseconds()))
		a.Part.Sub(a.Part, left)
	}
	a.Flags = bonusesOf(s, b, now, height)
	rate := dailyRate(s, a.Delegated, a.Flags)
	a.NoRate = rate.Sign() == 0
	if rec.MissedPart != nil {
		a.Missed = true
		if !whole {
			a.Part.Sub(a.Part, rat(*rec.MissedPart))
		}
	}
	x := new(big.Rat).Mul(rate, a.Part)
	a.Gross = truncRatI(x.Mul(x, ratI(a.Delegated)))
	a.Base = truncRatI(new(big.Rat).Mul(a.Part, ratI(a.Delegated)))
	if whole && rec.MissedPart != nil {
		a.Gross -= mulTrunc(rat(*rec.MissedPart), a.Gross)
		a.Base -= mulTrunc(rat(*rec.MissedPart), a.Base)
	}
	_, hasProfile := s.Prof[b]
	if a.Gross <= 0 || !hasProfile {
		a.Gross, a.Base = 0, 0
		return
	}
	a.Fee = txFee(s.P, a.Gross)
	for _, u := range upperValidators(s, b, height) {
		x := new(big.Rat).Quo(u.R, ratI(30))
		if n := truncRatI(x.Mul(x, ratI(a.Base))); n != 0 {
			a.Upper = append(a.Upper, u)
			a.UpperAmt = append(a.UpperAmt, n)
		}
	}
	return
}

// delTasks are the scheduled tasks of the delegating module.
func delTasks(s *Snap) map[string]int {
	r := map[string]int{}
	for _, t := range s.Tasks {
		if strings.HasPrefix(t.HandlerName, "delegating/") {
			r[taskKey(t.HandlerName, t.Time, t.Data)]++
		}
	}
	return r
}

func taskKey(h string, t time.Time, data []byte) string {
	return fmt.Sprintf("%s %s %s", h, t.UTC().Format(time.RFC3339Nano), sdk.AccAddress(data).String())
}

func diffCounts(got, want map[string]int) (r []string) {
	for _, k := range unionKeys(got, want) {
		if got[k] != want[k] {
			r = append(r, fmt.Sprintf("%s: %d instead of %d", k, got[k], want[k]))
		}
	}
	return
}

// monDeleg knows everything about delegation; only complaints about the property being decided count.
type monDeleg struct {
	NopMonitor
	prop string
	asks map[string][]delegating.RevokeRequest // promised payments per account
	last map[string]time.Time                  // when an account was last awarded
}

func (m *monDeleg) bad(w *World, prop, sig, f string, a ...interface{}) {
	if m.prop == prop {
		w.Rep.Violate(w, sig, f, a...)
	}
}

func (m *monDeleg) eval(w *World, prop, f string, a ...interface{}) {
	if m.prop == prop {
		w.Rep.Eval(f, a...)
	}
}

func (m *monDeleg) count(w *World, prop, name string, n int64) {
	if m.prop == prop {
		w.Rep.Count(name, n)
	}
}

func (m *monDeleg) Start(w *World) {
	m.asks = map[string][]delegating.RevokeRequest{}
	m.last = map[string]time.Time{}
	for b, d := range w.S.Del {
		m.asks[b] = append([]delegating.RevokeRequest(nil), d.Requests...)
	}
}

// awardEvents compares the events reported with the awards expected.
func (m *monDeleg) awardEvents(w *World, evs []abci.Event, want []award, what string) {
	var exp, got, expV, gotV []string
	for _, a := range want {
		if a.Gross > 0 {
			exp = append(exp, fmt.Sprintf("%s net=%d fee=%d flags=%d", a.B, a.Gross-a.Fee, a.Fee, a.Flags.bitmap()))
		}
		if len(a.Upper) > 0 {
			var us []string
			for _, u := range a.Upper {
				us = append(us, u.B)
			}
			expV = append(expV, fmt.Sprintf("%s -> %v %v", a.B, us, a.UpperAmt))
		}
	}
	for _, e := range events(evs, "accrue") {
		got = append(got, fmt.Sprintf("%s net=%d fee=%d flags=%d", e.A["account"], e.u("ucoins"), e.u("fee"), e.u("bonus_flags")))
	}
	for _, e := range events(evs, "validator_accrue") {
		gotV = append(gotV, fmt.Sprintf("%s -> %v %v", e.A["account"], e.list("accounts"), e.ulist("ucoins")))
	}
	for _, l := range [][]string{exp, got, expV, gotV} {
		sort.Strings(l)
	}
	if x, y := strings.Join(got, "; "), strings.Join(exp, "; "); x != y {
		m.bad(w, "D03", "award:"+what, "awarded [%s], expected [%s]", x, y)
	}
	if x, y := strings.Join(gotV, "; "), strings.Join(expV, "; "); x != y {
		m.bad(w, "D04", "upper-award:"+what, "the ancestors were awarded [%s], expected [%s]", x, y)
	}
}

func (m *monDeleg) Tx(w *World, pre, post *Snap, tx *TxRec) {
	m.invariant(w, post)
	if tx.Hostile != "" {
		return
	}
	if len(tx.Msgs) != 1 {
		m.resync(w, post)
		return
	}
	now, height := w.C.Time, w.C.Height
	var b string
	var amt sdk.Int
	kind := "delegate"
	rv := pre.P.Deleg.Revoke
	switch y := tx.Msgs[0].(type) {
	case *delegating.MsgDelegate:
		b, amt = y.Address, y.MicroCoins
	case *delegating.MsgRevoke:
		b, amt, kind = y.Address, y.MicroCoins, "revoke"
	case *delegating.MsgExpressRevoke:
		b, amt, kind = y.Address, y.MicroCoins, "xrevoke"
		rv = pre.P.Deleg.ExpressRevoke
	default:
		for _, t := range delegatingTouched(pre, post) {
			m.bad(w, "D01", "touched-by:"+tx.Kind, "a %s changed the delegation of %s: %s -> %s", tx.Kind, t, str(pre.Del[t]), str(post.Del[t]))
			m.bad(w, "D02", "touched-by:"+tx.Kind, "a %s changed the delegation of %s: %s -> %s", tx.Kind, t, str(pre.Del[t]), str(post.Del[t]))
		}
		if n := len(events(tx.Res.Events, "accrue")); n > 0 {
			m.bad(w, "D03", "award-by:"+tx.Kind, "a %s awarded delegations", tx.Kind)
		}
		return
	}
	rec := pre.Del[b]
	M := Model{}
	var awards []award
	var minted, burnt int64
	if rec.NextAccrue != nil {
		a := awardOf(pre, b, now, height, false)
		awards = append(awards, a)
		minted = a.apply(M)
	}
	ok := amt.IsPositive() && amt.IsInt64()
	n := int64(0)
	if ok {
		n = amt.Int64()
	}
	left := pre.bal(b, dDel)
	want := delegating.Record{Requests: rec.Requests, MissedPart: rec.MissedPart}
	tasks := delTasks(pre)
	if rec.NextAccrue != nil {
		delete(tasks, taskKey("delegating/accrue", *rec.NextAccrue, w.acc(b).Addr))
		want.MissedPart = nil
	}
	var newRequest *delegating.RevokeRequest
	if kind == "delegate" {
		fee := txFee(pre.P, n)
		ok = ok && n >= pre.P.Deleg.MinDelegate && pre.main(b) >= fee && pre.main(b)-fee+M[b][dMain] >= n-fee
		M.add(b, dMain, -n)
		M.add(b, dDel, n-fee)
		M.add(splitAddr, dMain, fee)
		left += n - fee
	} else {
		ok = ok && n <= left
		left -= n
		burnt = mulTrunc(rat(rv.Burn), n)
		M.add(b, dDel, -n)
		M.add(b, dRev, n-burnt)
		r := delegating.RevokeRequest{Time: now.Add(time.Duration(rv.Period) * pre.day()), Amount: sdk.NewInt(n - burnt)}
		newRequest = &r
		want.Requests = append(append([]delegating.RevokeRequest(nil), rec.Requests...), r)
		tasks[taskKey("delegating/revoke", r.Time, w.acc(b).Addr)]++
	}
	if left > pre.P.Bank.DustDelegation {
		t := now.Add(pre.day())
		want.NextAccrue = &t
		tasks[taskKey("delegating/accrue", t, w.acc(b).Addr)]++
	}
	m.eval(w, "D01", "%s/%v/%d/%v/%d/%v/%d", kind, ok, bucket(n), left > pre.P.Bank.DustDelegation, len(awards), rv.Burn, min(len(rec.Requests), 4))
	if ok != tx.ok() {
		if ok {
			m.bad(w, "D01", kind+"-refused", "a valid %s of %s by %s (%d, %d delegated) was refused: %s", kind, amt, b, pre.main(b), pre.bal(b, dDel), tx.Res.Log)
		} else {
			m.bad(w, "D01", kind+"-accepted", "an impossible %s of %s by %s (%d, %d delegated) was accepted", kind, amt, b, pre.main(b), pre.bal(b, dDel))
		}
		m.resync(w, post)
		return
	}
	m.count(w, "D01", fmt.Sprintf("%s:%v", kind, ok), 1)
	if !ok {
		if x := pre.diff(post, "acc"); len(x) > 0 {
			m.bad(w, "D01", kind+"-refused-effect", "a refused %s changed the state: %v", kind, first(x, 5))
		}
		return
	}
	if x := M.mismatch(pre, post); len(x) > 0 {
		m.bad(w, "D01", kind+"-balances", "%s of %d by %s: %v", kind, n, b, first(x, 6))
		if len(awards) > 0 {
			m.bad(w, "D03", "part-award", "%s of %d by %s, %s of a day passed: %v", kind, n, b, awards[0].Part.FloatString(9), first(x, 6))
			m.bad(w, "D04", "part-award", "%s of %d by %s: %v", kind, n, b, first(x, 6))
		}
		if kind != "delegate" {
			m.bad(w, "D02", "revoking", "%s of %d by %s: %v", kind, n, b, first(x, 6))
		}
	}
	if got, exp := supplyDelta(pre, post, dMain)+supplyDelta(pre, post, dDel)+supplyDelta(pre, post, dRev), minted-burnt; got != exp {
		m.bad(w, "D01", kind+"-supply", "the supply changed by %d, expected %d", got, exp)
	}
	m.awardEvents(w, tx.Res.Events, awards, "part")
	for _, a := range awards {
		m.noteAward(w, a, false)
		if p := a.Part; p.Sign() > 0 {
			m.last[b] = now
		}
	}
	// D01: the record and its tasks
	got := post.Del[b]
	if str(got) != str(want) {
		m.bad(w, "D01", kind+"-record", "%s of %d by %s: %s, expected %s", kind, n, b, str(got), str(want))
		m.bad(w, "D02", kind+"-record", "%s of %d by %s: %s, expected %s", kind, n, b, str(got), str(want))
		m.bad(w, "D03", kind+"-record", "%s of %d by %s: %s, expected %s", kind, n, b, str(got), str(want))
	}
	if x := diffCounts(delTasks(post), tasks); len(x) > 0 {
		m.bad(w, "D01", kind+"-tasks", "%s of %d by %s: scheduled tasks: %v", kind, n, b, first(x, 4))
		m.bad(w, "D02", kind+"-tasks", "%s of %d by %s: scheduled tasks: %v", kind, n, b, first(x, 4))
		m.bad(w, "D03", kind+"-tasks", "%s of %d by %s: scheduled tasks: %v", kind, n, b, first(x, 4))
	}
	if newRequest != nil {
		m.asks[b] = append(m.asks[b], *newRequest)
		m.eval(w, "D02", "ask/%s/%d/%v/%d", kind, bucket(n), rv, len(m.asks[b]))
		m.count(w, "D02", "requests", 1)
		if m.prop == "D02" {
			w.Rep.Sample(map[string]interface{}{"where": w.where(), "request": newRequest.String()})
		}
	}
	// nothing else is affected but what depends on balances
	var frame []string
	for _, x := range pre.diff(post, "acc", "bal", "supply", "ref", "node", "task", "del", "earn") {
		frame = append(frame, x)
	}
	for _, t := range delegatingTouched(pre, post) {
		if t != b {
			frame = append(frame, "del/"+t)
		}
	}
	if len(frame) > 0 {
		m.bad(w, "D01", kind+"-side-effect", "%s of %d by %s also changed %v", kind, n, b, first(frame, 5))
	}
	if m.prop == "D01" {
		w.Rep.Sample(map[string]interface{}{"where": w.where(), "kind": kind, "amount": n, "changes": M})
	}
}

func (m *monDeleg) noteAward(w *World, a award, whole bool) {
	m.eval(w, "D03", "award/%v/%v/%d/%d/%v/%v", whole, a.Flags, bucket(a.Gross), bucket(a.Fee), a.NoRate, a.Missed)
	m.count(w, "D03", fmt.Sprintf("awards whole=%v", whole), 1)
	if a.Gross > 0 {
		m.count(w, "D03", "awards nonzero", 1)
		for i, f := range a.Flags {
			if f && i > 0 {
				m.count(w, "D03", fmt.Sprintf("awards with bonus %d", i), 1)
			}
		}
		if m.prop == "D03" {
			w.Rep.Sample(map[string]interface{}{"where": w.where(), "account": a.B, "delegated": a.Delegated, "day_part": a.Part.FloatString(6), "bonuses": a.Flags, "gross": a.Gross, "fee": a.Fee})
		}
		m.eval(w, "D04", "upper/%d/%v/%d", len(a.Upper), a.UpperAmt, bucket(a.Base))
	}
	if len(a.Upper) > 0 {
		m.count(w, "D04", fmt.Sprintf("awards with %d ancestors", len(a.Upper)), 1)
		if m.prop == "D04" {
			w.Rep.Sample(map[string]interface{}{"where": w.where(), "account": a.B, "base": a.Base, "ancestors": len(a.Upper), "amounts": a.UpperAmt})
		}
	}
}

// delegatingTouched are the accounts whose delegation records differ.
func delegatingTouched(pre, post *Snap) (r []string) {
	for _, b := range unionKeys(pre.Del, post.Del) {
		x, ok1 := pre.Del[b]
		y, ok2 := post.Del[b]
		if ok1 != ok2 || str(x) != str(y) {
			r = append(r, b)
		}
	}
	return
}

// resync takes the promises from the state when something has changed which is not followed in detail.
func (m *monDeleg) resync(w *World, s *Snap) {
	m.asks = map[string][]delegating.RevokeRequest{}
	for b, d := range s.Del {
		m.asks[b] = append([]delegating.RevokeRequest(nil), d.Requests...)
	}
}

// invariant holds at all times.
func (m *monDeleg) invariant(w *World, s *Snap) {
	if m.prop != "D02" && m.prop != "D03" {
		return
	}
	tasks := map[string]int{}
	for _, t := range s.Tasks {
		if strings.HasPrefix(t.HandlerName, "delegating/") {
			tasks[taskKey(t.HandlerName, t.Time, t.Data)]++
		}
	}
	for b, d := range s.Del {
		addr, _ := sdk.AccAddressFromBech32(b)
		var sum int64
		for _, r := range d.Requests {
			sum += r.Amount.Int64()
			if tasks[taskKey("delegating/revoke", r.Time, addr)] == 0 {
				m.bad(w, "D02", "request-without-task", "%s: nothing is scheduled for the request of %s at %s", b, r.Amount, r.Time)
			}
		}
		if sum != s.bal(b, dRev) {
			m.bad(w, "D02", "requests-do-not-add-up", "%s: the requests add up to %d, %d is being revoked", b, sum, s.bal(b, dRev))
		}
		if d.NextAccrue != nil && tasks[taskKey("delegating/accrue", *d.NextAccrue, addr)] != 1 {
			m.bad(w, "D03", "accrual-without-task", "%s: %d tasks for the accrual at %s", b, tasks[taskKey("delegating/accrue", *d.NextAccrue, addr)], d.NextAccrue)
		}
	}
	for b := range s.Bal {
		if _, ok := s.Del[b]; !ok && s.bal(b, dRev) != 0 {
			m.bad(w, "D02", "requests-do-not-add-up", "%s: no requests, %d is being revoked", b, s.bal(b, dRev))
		}
	}
}

func (m *monDeleg) EndBlock(w *World, pre, post *Snap, _ abci.ResponseEndBlock) {
	for _, t := range delegatingTouched(pre, post) {
		m.bad(w, "D01", "touched-by-endblock", "the end of a block changed the delegation of %s", t)
	}
}

func (m *monDeleg) BeginBlock(w *World, pre, post *Snap, blk *BlockRec, res abci.ResponseBeginBlock) {
	m.invariant(w, post)
	now, height := w.C.Time, w.C.Height
	var due []schedule.Task
	onlyAccruals, onlyDeleg := true, true
	for _, t := range pre.Tasks {
		if t.Time.After(now) {
			continue
		}
		due = append(due, t)
		if t.HandlerName != "delegating/accrue" {
			onlyAccruals = false
		}
		if !strings.HasPrefix(t.HandlerName, "delegating/") {
			onlyDeleg = false
		}
	}
	// D02: whatever has matured is paid, whatever has not is not
	undelegated := map[string]int64{}
	for _, e := range events(res.Events, "undelegate") {
		undelegated[e.A["account"]] += e.u("ucoins")
	}
	banished := map[string]bool{} // a banished account's delegation is revoked
	for _, t := range due {
		if t.HandlerName == "referral/banish" || t.HandlerName == referral.ModuleName+"/banish" {
			banished[string(t.Data)] = true
		}
	}
	for _, b := range unionKeys(m.asks, post.Del) {
		var keep []delegating.RevokeRequest
		var pay int64
		for _, r := range m.asks[b] {
			if r.Time.After(now) {
				keep = append(keep, r)
			} else {
				pay += r.Amount.Int64()
				m.count(w, "D02", "payments", 1)
				late := now.Sub(r.Time)
				m.eval(w, "D02", "pay/%d/%d/%v", bucket(r.Amount.Int64()), len(m.asks[b]), late == 0)
			}
		}
		got := post.Del[b].Requests
		if len(got) > len(keep) && (banished[b] || len(due) > 1) && pre.bal(b, dDel) > post.bal(b, dDel) {
			// revoked on banishment: taken over as it is
			keep = append([]delegating.RevokeRequest(nil), got...)
			m.count(w, "D02", "revoked on banishment", 1)
		}
		if !sameRequests(got, keep) {
			m.bad(w, "D02", "requests-after-block", "%s at %s: %v left, expected %v", b, now, got, keep)
		}
		if undelegated[b] != pay {
			m.bad(w, "D02", "payment", "%s at %s: %d paid, %d has matured", b, now, undelegated[b], pay)
		}
		if pay > 0 && onlyDeleg {
			if d := pre.bal(b, dRev) - post.bal(b, dRev); d != pay {
				m.bad(w, "D02", "payment-balance", "%s: %d of %d being revoked is gone, %d has matured", b, d, pre.bal(b, dRev), pay)
			}
		}
		m.asks[b] = keep
	}
	// D03, D04: daily awards
	if !onlyAccruals && !onlyDeleg {
		m.count(w, "D03", "blocks with other tasks", 1)
		return
	}
	var awards []award
	wantNext := map[string]*time.Time{}
	for _, t := range due {
		b := sdk.AccAddress(t.Data).String()
		if t.HandlerName != "delegating/accrue" {
			continue
		}
		rec := pre.Del[b]
		if rec.NextAccrue == nil || !rec.NextAccrue.Equal(t.Time) {
			continue
		}
		// the validators' part of the state is as it is after this block's bookkeeping
		mid := *pre
		mid.Node = post.Node
		a := awardOf(&mid, b, now, height, true)
		awards = append(awards, a)
		at := t.Time
		if a.NoRate {
			wantNext[b] = nil
		} else {
			// the chain may have been standing for days: how many of them are made up for at once is not promised
			got := post.Del[b].NextAccrue
			x := at.Add(pre.day())
			for got != nil && !x.After(now) && got.After(x) {
				at, x = x, x.Add(pre.day())
				mid.Del = map[string]delegating.Record{b: {NextAccrue: &at}}
				awards = append(awards, awardOf(&mid, b, now, height, true))
				m.count(w, "D03", "made up at once", 1)
			}
			wantNext[b] = &x
		}
		m.noteAward(w, a, true)
		if x, ok := m.last[b]; ok && t.Time.Sub(x) < pre.day() && a.Gross > 0 {
			m.bad(w, "D03", "too-early", "%s awarded at %s and again at %s", b, x, t.Time)
		}
		m.last[b] = at
		m.eval(w, "D03", "late/%d", bucket(int64(now.Sub(t.Time))))
	}
	m.awardEvents(w, res.Events, awards, "day")
	for b, d := range post.Del {
		exp, touched := wantNext[b]
		if !touched {
			exp = pre.Del[b].NextAccrue
		}
		if (exp == nil) != (d.NextAccrue == nil) || exp != nil && !exp.Equal(*d.NextAccrue) {
			m.bad(w, "D03", "next-award", "%s: next award at %v, expected %v", b, d.NextAccrue, exp)
		}
	}
	// the money itself
	M := Model{}
	prop := operatorOf(pre, blk.Proposer)
	if prop == "" {
		return
	}
	p := pre.P.Bank
	split, plain := pre.main(splitAddr), pre.main(feeAddr)
	toProp, toComp := mulTrunc(rat(p.TransactionFeeSplitRatios.ForProposer), split), mulTrunc(rat(p.TransactionFeeSplitRatios.ForCompany), split)
	M.add(splitAddr, dMain, -split)
	M.add(feeAddr, dMain, -plain)
	M.add(prop, dMain, plain+toProp)
	M.add(p.CompanyAccount, dMain, toComp)
	minted := int64(0)
	for _, a := range awards {
		minted += a.apply(M)
	}
	for b, n := range undelegated {
		M.add(b, dMain, n)
		M.add(b, dRev, -n)
	}
	if x := M.mismatch(pre, post); len(x) > 0 {
		for _, q := range []string{"D02", "D03", "D04"} {
			m.bad(w, q, "block-balances", "with %d tasks due: %v", len(due), first(x, 5))
		}
	}
	if d := supplyDelta(pre, post, dMain) + supplyDelta(pre, post, dRev); d != minted-(split-toProp-toComp) {
		m.bad(w, "D03", "block-supply", "the supply changed by %d, %d was awarded and %d of fees burned", d, minted, split-toProp-toComp)
	}
	m.count(w, "D03", "blocks judged", 1)
}

func sameRequests(a, b []delegating.RevokeRequest) bool {
	if len(a) != len(b) {
		return false
	}
	f := func(l []delegating.RevokeRequest) string {
		var r []string
		for _, x := range l {
			r = append(r, fmt.Sprintf("%s %s", x.Time.UTC().Format(time.RFC3339Nano), x.Amount))
		}
		sort.Strings(r)
		return strings.Join(r, ";")
	}
	return f(a) == f(b)
}

var _ = bytes.Equal
var _ bank.MsgSend
