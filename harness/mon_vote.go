//go:build testing
// +build testing

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/x/delegating"
	profile "github.com/arterynetwork/artr/x/profile/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// monVote follows proposals (V01) and polls (V02).
type monVote struct {
	judge
	plan  string // scheduled software upgrade
	staff []string
}

const (
	hookProposal = "voting/complete"
	hookPoll     = "voting/poll"
)

func (m *monVote) readPlan(w *World) string {
	p, ok := w.C.App.GetUpgradeKeeper().GetUpgradePlan(w.C.Ctx())
	if !ok {
		return ""
	}
	return planStr(p.Name, p.Info, p.Time)
}

func planStr(name, info string, t time.Time) string {
	return fmt.Sprintf("%s|%s|%s", name, info, t.UTC().Format(time.RFC3339Nano))
}

func (m *monVote) Start(w *World) { m.plan, m.staff = m.readPlan(w), m.readStaff(w) }

func tasksOf(s *Snap, hook string) (r []time.Time) {
	for _, t := range s.Tasks {
		if t.HandlerName == hook {
			r = append(r, t.Time)
		}
	}
	return
}

// inForce renders everything proposals can change, the order of lists apart.
func inForce(p Params, gov, staff []string, plan string) map[string]string {
	so := func(l []string) []string {
		r := append([]string(nil), l...)
		sort.Strings(r)
		return r
	}
	p.Prof.Creators, p.Prof.TokenRateSigners, p.Prof.VpnSigners, p.Prof.StorageSigners = so(p.Prof.Creators), so(p.Prof.TokenRateSigners), so(p.Prof.VpnSigners), so(p.Prof.StorageSigners)
	p.Earn.Signers, p.Bank.BlockedSenders = so(p.Earn.Signers), so(p.Bank.BlockedSenders)
	return map[string]string{
		"bank": str(p.Bank), "delegating": str(p.Deleg), "earning": str(p.Earn), "noding": str(p.Node), "profile": str(p.Prof), "referral": str(p.Ref),
		"schedule": str(p.Sch), "voting": str(p.Vote), "government": strings.Join(so(gov), ","), "staff": strings.Join(so(staff), ","), "upgrade": plan,
	}
}

// readStaff also finds those who have no account yet.
func (m *monVote) readStaff(w *World) (r []string) {
	ctx, nk := w.C.Ctx(), w.C.App.GetNodingKeeper()
	for b, a := range w.byAddr {
		if n, err := nk.Get(ctx, a.Addr); err == nil && n.Staff {
			r = append(r, b)
		}
	}
	sort.Strings(r)
	return
}

func added(l []string, b string) []string {
	r := append([]string(nil), l...)
	if !contains(r, b) {
		r = append(r, b)
	}
	return r
}

func dropped(l []string, b string) (r []string) {
	for _, x := range l {
		if x != b {
			r = append(r, x)
		}
	}
	return r
}

// effect says what has to be in force after an accepted proposal.
func (m *monVote) effect(w *World, pre *Snap, now time.Time, prop voting.Proposal) (want map[string]string, applied bool) {
	p, gov, staff, plan := pre.P, pre.Gov, m.staff, m.plan
	addr := prop.GetAddress().GetAddress
	atLeastOne := func(l *[]string, b string) {
		if r := dropped(*l, b); len(r) > 0 {
			*l = r
		}
	}
	price := func(x *uint32) {
		if v := prop.GetPrice().Price; v > 0 {
			*x = v
		}
	}
	switch prop.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE:
		price(&p.Prof.SubscriptionPrice)
	case voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
		price(&p.Prof.VpnGbPrice)
	case voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		price(&p.Prof.StorageGbPrice)
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		p.Ref.TransitionPrice = uint64(prop.GetPrice().Price)
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		gov = added(gov, addr().String())
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		atLeastOne(&gov, addr().String())
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD:
		p.Prof.Creators = added(p.Prof.Creators, addr().String())
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		atLeastOne(&p.Prof.Creators, addr().String())
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD:
		p.Prof.TokenRateSigners = added(p.Prof.TokenRateSigners, addr().String())
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		atLeastOne(&p.Prof.TokenRateSigners, addr().String())
	case voting.PROPOSAL_TYPE_VPN_SIGNER_ADD:
		p.Prof.VpnSigners = added(p.Prof.VpnSigners, addr().String())
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		atLeastOne(&p.Prof.VpnSigners, addr().String())
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD:
		p.Prof.StorageSigners = added(p.Prof.StorageSigners, addr().String())
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		atLeastOne(&p.Prof.StorageSigners, addr().String())
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD:
		p.Earn.Signers = added(p.Earn.Signers, addr().String())
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		atLeastOne(&p.Earn.Signers, addr().String())
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		p.Bank.BlockedSenders = added(p.Bank.BlockedSenders, addr().String())
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		p.Bank.BlockedSenders = dropped(p.Bank.BlockedSenders, addr().String())
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		staff = added(staff, addr().String())
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		staff = dropped(staff, addr().String())
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		if a := prop.GetSoftwareUpgrade(); a.Time.After(now) {
			plan = planStr(a.Name, a.Info, *a.Time)
		}
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE:
		plan = ""
	case voting.PROPOSAL_TYPE_MIN_SEND:
		p.Bank.MinSend = prop.GetMinAmount().MinAmount
	case voting.PROPOSAL_TYPE_MIN_DELEGATE:
		if v := prop.GetMinAmount().MinAmount; v >= 1 {
			p.Deleg.MinDelegate = v
		}
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		if v := prop.GetMinAmount().MinAmount; v >= 0 {
			p.Bank.DustDelegation = v
		}
	case voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		if v := prop.GetMinAmount().MinAmount; v >= 0 {
			p.Bank.MaxTransactionFee = v
		}
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		p.Bank.TransactionFee = prop.GetPortion().Fraction
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		f := prop.GetPortions().Fractions
		p.Bank.TransactionFeeSplitRatios.ForProposer, p.Bank.TransactionFeeSplitRatios.ForCompany = f[0], f[1]
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		if v := prop.GetCount().Count; v > 0 {
			p.Node.MaxValidators = v
		}
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		p.Node.LotteryValidators = prop.GetCount().Count
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		p.Node.JailAfter = prop.GetCount().Count
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		p.Node.MinCriteria = *prop.GetMinCriteria().MinCriteria
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		p.Node.VotingPower = *prop.GetVotingPower()
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		p.Deleg.AccruePercentageTable = append([]delegating.PercentageListRange(nil), prop.GetAccruePercentageTable().AccruePercentageTable...)
	case voting.PROPOSAL_TYPE_REVOKE:
		p.Deleg.Revoke = *prop.GetRevoke().Revoke
	case voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		p.Deleg.ExpressRevoke = *prop.GetRevoke().Revoke
	}
	was, want := inForce(pre.P, pre.Gov, m.staff, m.plan), inForce(p, gov, staff, plan)
	for k := range was {
		applied = applied || was[k] != want[k]
	}
	return want, applied || prop.Type == voting.PROPOSAL_TYPE_GENERAL_AMNESTY
}

// voteState is what a step has to leave behind.
type voteState struct {
	prop           *voting.Proposal
	agreed, disagr []string
	start          int64
	hist           []voting.ProposalHistoryRecord
	ended          *voting.Proposal
	accepted       bool
}

func (m *monVote) stateOf(s *Snap) voteState {
	return voteState{prop: s.Prop, agreed: s.Agreed, disagr: s.Disagr, start: s.Start, hist: s.Hist}
}

func (v voteState) String() string {
	if v.prop == nil {
		return fmt.Sprintf("no proposal, %d past ones: %s", len(v.hist), str(v.hist))
	}
	return fmt.Sprintf("proposal %s since %d, for %v, against %v, %d past ones: %s", str(v.prop), v.start, v.agreed, v.disagr, len(v.hist), str(v.hist))
}

func (v *voteState) end(s *Snap, height int64, complete bool) {
	v.ended = v.prop
	v.accepted = complete && 3*len(v.agreed) >= 2*len(s.Gov)
	rec := voting.ProposalHistoryRecord{Proposal: *v.prop, Government: s.Gov, Agreed: v.agreed, Disagreed: v.disagr, Started: v.start, Finished: height}
	v.hist = append(append([]voting.ProposalHistoryRecord(nil), v.hist...), rec)
	v.prop, v.agreed, v.disagr, v.start = nil, nil, nil, 0
}

// judgeProposal compares what a step did to the ballot and to what is in force with what it had to do.
func (m *monVote) judgeProposal(w *World, what string, pre, post *Snap, now time.Time, want voteState, evs []abci.Event, tokenRate bool) {
	if got := m.stateOf(post); got.String() != want.String() {
		m.bad(w, "V01", "ballot", "%s: %s; expected %s", what, got, want)
	}
	ts := tasksOf(post, hookProposal)
	if (want.prop == nil) != (len(ts) == 0) || len(ts) > 1 || len(ts) == 1 && want.prop != nil && !ts[0].Equal(*want.prop.EndTime) {
		m.bad(w, "V01", "ending", "%s: proposal %s, its ending is scheduled at %v", what, str(want.prop), ts)
	}
	fin := events(evs, "voting_finished")
	if want.ended == nil {
		if len(fin) != 0 {
			m.bad(w, "V01", "event", "%s: %d events about finished proposals", what, len(fin))
		}
	} else if len(fin) != 1 || fin[0].A["name"] != want.ended.Name || (fin[0].A["agreed"] == "true") != want.accepted {
		m.bad(w, "V01", "event", "%s: %s is accepted: %v, events %v", what, want.ended.Name, want.accepted, fin)
	}
	force := inForce(pre.P, pre.Gov, m.staff, m.plan)
	skip := []string{"acc", "vote", "task", "params"}
	if want.ended != nil {
		applied := false
		if want.accepted {
			force, applied = m.effect(w, pre, now, *want.ended)
			switch want.ended.Type {
			case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
				skip = append(skip, "node")
			}
		}
		t := strings.TrimPrefix(want.ended.Type.String(), "PROPOSAL_TYPE_")
		m.count(w, "V01", fmt.Sprintf("finished accepted=%v", want.accepted), 1)
		if applied {
			m.count(w, "V01", "changed "+t, 1)
		}
		m.eval(w, "V01", "finished %s accepted=%v applied=%v in time=%v", t, want.accepted, applied, now.Before(*want.ended.EndTime))
	}
	plan, staff := m.readPlan(w), m.readStaff(w)
	p, q := post.P, pre.P
	if tokenRate {
		q.Prof.TokenRate = p.Prof.TokenRate
		force = inForce(q, pre.Gov, m.staff, m.plan)
	}
	got := inForce(p, post.Gov, staff, plan)
	for _, k := range unionKeys(got, force) {
		if got[k] != force[k] {
			t := "nothing"
			if want.ended != nil {
				t = strings.TrimPrefix(want.ended.Type.String(), "PROPOSAL_TYPE_")
			}
			m.bad(w, "V01", "in-force:"+k+":"+t, "%s (%s finished): %s: %s; expected %s", what, t, k, got[k], force[k])
		}
	}
	m.plan, m.staff = plan, staff
	if want.ended != nil && !strings.HasPrefix(what, "start of block") {
		if d := pre.diff(post, skip...); len(d) > 0 {
			m.bad(w, "V01", "frame", "%s: also changes %v", what, first(d, 3))
		}
	}
}

func (m *monVote) Tx(w *World, pre, post *Snap, tx *TxRec) {
	what := "transaction " + tx.Kind
	if tx.Hostile != "" || len(tx.Msgs) != 1 {
		panic("one honest message per transaction, please")
	}
	want := m.stateOf(pre)
	pw := m.pollOf(pre)
	exp, prop, kind := "", "", ""
	tokenRate := false
	switch x := tx.Msgs[0].(type) {
	case *voting.MsgPropose:
		prop, kind = "V01", "propose"
		mc := x.Proposal.GetMinCriteria()
		switch {
		case mc != nil && mc.MinCriteria.SelfStake > mc.MinCriteria.TotalStake:
			exp = "contradictory values"
		case pre.Prop != nil:
			exp = "another one is open"
		case !contains(pre.Gov, x.Proposal.Author):
			exp = "not in the government"
		}
		if exp == "" && tx.ok() {
			p := x.Proposal
			end := tx.Time.Add(time.Duration(pre.P.Vote.VotingPeriod) * time.Hour)
			p.EndTime = &end
			want.prop, want.agreed, want.disagr, want.start = &p, []string{p.Author}, nil, tx.Height
			if len(pre.Gov) == 1 {
				want.end(pre, tx.Height, true)
			}
			if c := events(tx.Res.Events, "proposal_created"); len(c) != 1 || c[0].A["name"] != p.Name || c[0].A["author"] != p.Author {
				m.bad(w, "V01", "created-event", "%s: %v", what, c)
			}
		}
	case *voting.MsgVote:
		prop, kind = "V01", "vote"
		voter := strings.ToLower(x.Voter)
		switch {
		case pre.Prop == nil:
			exp = "nothing to vote for"
		case !contains(pre.Gov, voter):
			exp = "not in the government"
		case contains(pre.Agreed, voter) || contains(pre.Disagr, voter):
			exp = "voted"
		}
		if exp == "" && tx.ok() {
			if x.Agree {
				want.agreed = append(append([]string(nil), want.agreed...), voter)
			} else {
				want.disagr = append(append([]string(nil), want.disagr...), voter)
			}
			if len(want.agreed)+len(want.disagr) == len(pre.Gov) {
				want.end(pre, tx.Height, true)
			}
			if c := events(tx.Res.Events, "proposal_vote"); len(c) != 1 || strings.ToLower(c[0].A["voter"]) != voter || (c[0].A["agreed"] == "true") != x.Agree {
				m.bad(w, "V01", "vote-event", "%s: %v", what, c)
			}
		}
	case *voting.MsgStartPoll:
		prop, kind = "V02", "start"
		switch {
		case pre.Poll != nil:
			exp = "another one is open"
		case !contains(pre.Gov, x.Poll.Author):
			exp = "not in the government"
		}
		if exp == "" && tx.ok() {
			p := x.Poll
			start, end := tx.Time, tx.Time.Add(time.Duration(pre.P.Vote.PollPeriod)*time.Hour)
			p.StartTime, p.EndTime = &start, &end
			pw = pollState{poll: &p, ans: map[string]bool{}, hist: pw.hist}
		}
	case *voting.MsgAnswerPoll:
		prop, kind = "V02", "answer"
		respondent := strings.ToLower(x.Respondent)
		if respondent != x.Respondent {
			m.count(w, prop, fmt.Sprint("answer in upper case ", tx.ok()), 1)
		}
		_, voted := pre.Ans[respondent]
		_, known := pre.Ref[respondent]
		req := "none"
		if pre.Poll == nil {
			exp = "nothing to answer"
		} else {
			switch r := pre.Poll.Requirements.(type) {
			case *voting.Poll_CanValidate:
				req = "can validate"
				if !known || buildTree(pre).unqualified(respondent) != "" {
					exp = "can't validate"
				}
			case *voting.Poll_MinStatus:
				req = "status " + r.MinStatus.String()
				if pre.Ref[respondent].Status < r.MinStatus {
					exp = "status too low"
				}
			}
			if exp == "" && voted {
				exp = "answered"
			}
		}
		m.eval(w, "V02", "answer %v to %s: %s (status %d)", x.Yes, req, exp, pre.Ref[respondent].Status)
		if exp == "" && tx.ok() {
			ans := map[string]bool{respondent: x.Yes}
			for b, a := range pre.Ans {
				ans[b] = a
			}
			pw.ans = ans
			if x.Yes {
				pw.yes++
			} else {
				pw.no++
			}
		}
	case *profile.MsgSetRate:
		tokenRate = tx.ok()
	}
	if _, exists := pre.Accs[tx.Signers[0].B]; !exists {
		exp = "no such account"
	}
	if kind != "" {
		if (exp == "") != tx.ok() {
			m.bad(w, prop, "verdict:"+kind+":"+exp, "%s by %s: code %d (%s), expected reason to fail: %q; %s; government %v, %s", what, tx.Signers[0].B, tx.Res.Code, tx.Res.Log, exp, str(tx.Msgs[0]), pre.Gov, m.stateOf(pre))
		}
		m.count(w, prop, kind+":"+exp, 1)
		if prop == "V01" {
			m.eval(w, "V01", "%s %s government=%d for=%d against=%d", kind, exp, len(pre.Gov), len(pre.Agreed), len(pre.Disagr))
		}
	}
	m.judgeProposal(w, what, pre, post, tx.Time, want, tx.Res.Events, tokenRate)
	m.judgePoll(w, what, post, pw, tx.Res.Events)
	if prop == "V02" && tx.ok() {
		if d := pre.diff(post, "acc", "vote", "task"); len(d) > 0 {
			m.bad(w, "V02", "frame", "%s: also changes %v", what, first(d, 3))
		}
	}
}

func (m *monVote) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	want := m.stateOf(pre)
	if pre.Prop != nil && !pre.Prop.EndTime.After(b.Time) {
		want.end(pre, b.Height, false)
		m.count(w, "V01", "timed out", 1)
		if pre.Prop.EndTime.Equal(b.Time) {
			m.count(w, "V01", "timed out to the second", 1)
		}
	}
	m.judgeProposal(w, "start of block", pre, post, b.Time, want, res.Events, false)
	pw := m.pollOf(pre)
	if pre.Poll != nil && !pre.Poll.EndTime.After(b.Time) {
		pw.end()
	}
	m.judgePoll(w, "start of block", post, pw, res.Events)
}

func (m *monVote) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.judgeProposal(w, "end of block", pre, post, post.Time, m.stateOf(pre), res.Events, false)
	m.judgePoll(w, "end of block", post, m.pollOf(pre), res.Events)
}

type pollState struct {
	poll    *voting.Poll
	ans     map[string]bool
	yes, no uint64
	hist    []voting.PollHistoryItem
	ended   *voting.PollHistoryItem
}

func (m *monVote) pollOf(s *Snap) pollState {
	return pollState{poll: s.Poll, ans: s.Ans, yes: s.Yes, no: s.No, hist: s.PHist}
}

func (p pollState) String() string {
	if p.poll == nil {
		return fmt.Sprintf("no poll, %d past ones: %s", len(p.hist), str(p.hist))
	}
	return fmt.Sprintf("poll %s, yes %d, no %d, answers %v, %d past ones: %s", str(p.poll), p.yes, p.no, p.ans, len(p.hist), str(p.hist))
}

func (p *pollState) end() {
	it := voting.PollHistoryItem{Poll: *p.poll, Yes: p.yes, No: p.no}
	if p.poll.Quorum != nil {
		it.Decision = voting.DECISION_NEGATIVE
		need := new(big.Rat).Mul(rat(*p.poll.Quorum), ratI(int64(p.yes+p.no)))
		if p.yes != 0 && ratI(int64(p.yes)).Cmp(need) >= 0 {
			it.Decision = voting.DECISION_POSITIVE
		}
	}
	p.hist = append(append([]voting.PollHistoryItem(nil), p.hist...), it)
	p.ended = &it
	p.poll, p.ans, p.yes, p.no = nil, nil, 0, 0
}

func (m *monVote) judgePoll(w *World, what string, post *Snap, want pollState, evs []abci.Event) {
	if got := m.pollOf(post); got.String() != want.String() {
		m.bad(w, "V02", "poll", "%s: %s; expected %s", what, got, want)
	}
	ts := tasksOf(post, hookPoll)
	if (want.poll == nil) != (len(ts) == 0) || len(ts) > 1 || len(ts) == 1 && want.poll != nil && !ts[0].Equal(*want.poll.EndTime) {
		m.bad(w, "V02", "ending", "%s: poll %s, its ending is scheduled at %v", what, str(want.poll), ts)
	}
	var yes, no uint64
	for _, a := range post.Ans {
		if a {
			yes++
		} else {
			no++
		}
	}
	if yes != post.Yes || no != post.No {
		m.bad(w, "V02", "count", "%s: %d yes and %d no, counted as %d and %d", what, yes, no, post.Yes, post.No)
	}
	fin := events(evs, "poll_finished")
	if want.ended == nil {
		if len(fin) != 0 {
			m.bad(w, "V02", "event", "%s: %d events about finished polls", what, len(fin))
		}
		return
	}
	e := want.ended
	m.count(w, "V02", "finished "+e.Decision.String(), 1)
	if e.Poll.Quorum != nil && e.Yes+e.No > 0 && new(big.Rat).Mul(rat(*e.Poll.Quorum), ratI(int64(e.Yes+e.No))).Cmp(ratI(int64(e.Yes))) == 0 {
		m.count(w, "V02", "exactly at the quorum", 1)
	}
	m.eval(w, "V02", "finished %s yes=%d no=%d quorum=%s", e.Decision, e.Yes, e.No, e.Poll.Quorum)
	if len(fin) != 1 || fin[0].A["name"] != e.Poll.Name || fin[0].A["yes"] != fmt.Sprint(e.Yes) || fin[0].A["no"] != fmt.Sprint(e.No) || fin[0].A["decision"] != e.Decision.String() {
		m.bad(w, "V02", "event", "%s: %s finished, events %v", what, str(e), fin)
	}
}
