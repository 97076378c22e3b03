//go:build testing
// +build testing

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	"github.com/arterynetwork/artr/util"
	abci "github.com/tendermint/tendermint/abci/types"

	bank "github.com/arterynetwork/artr/x/bank/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// ---- E02: events ------------------------------------------------------------------------------------------------------

// replica is what can be known about the network by those who only read its events.
type replica struct {
	status   map[string]referral.Status
	active   map[string]bool
	parent   map[string]string
	banished map[string]bool
	pending  map[string]string
	downAt   map[string]time.Time
	jailed   map[string]bool
	banned   map[string]bool
	until    map[string]time.Time
}

func replicaOf(s *Snap) *replica {
	r := &replica{status: map[string]referral.Status{}, active: map[string]bool{}, parent: map[string]string{}, banished: map[string]bool{}, pending: map[string]string{}, downAt: map[string]time.Time{},
		jailed: map[string]bool{}, banned: map[string]bool{}, until: map[string]time.Time{}}
	for b, x := range s.Ref {
		r.status[b], r.active[b], r.parent[b], r.banished[b] = x.Status, x.Active, x.Referrer, x.Banished
		if x.Transition != "" {
			r.pending[b] = x.Transition
		}
		if x.StatusDowngradeAt != nil {
			r.downAt[b] = *x.StatusDowngradeAt
		}
	}
	for b, n := range s.Node {
		r.jailed[b], r.banned[b] = n.Jailed, n.BannedForLife
	}
	for b, p := range s.Prof {
		if p.ActiveUntil != nil {
			r.until[b] = *p.ActiveUntil
		}
	}
	return r
}

type monEvent struct {
	NopMonitor
}

func (m *monEvent) BeginBlock(w *World, pre, post *Snap, _ *BlockRec, res abci.ResponseBeginBlock) {
	m.judge(w, "start of block", pre, post, res.Events, nil)
}

func (m *monEvent) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.judge(w, "end of block", pre, post, res.Events, nil)
}

func (m *monEvent) Tx(w *World, pre, post *Snap, tx *TxRec) {
	if tx.ok() {
		m.judge(w, tx.Kind, pre, post, tx.Res.Events, tx)
	}
}

func evTime(s string) time.Time {
	t, _ := time.Parse(time.RFC3339Nano, s)
	return t
}

func (m *monEvent) judge(w *World, what string, pre, post *Snap, evs []abci.Event, tx *TxRec) {
	r := replicaOf(pre)
	kinds := map[string]bool{}
	for _, e := range events(evs, "") {
		kinds[e.Type] = true
	}
	w.Rep.Eval("%s/%v", what, sortedKeys(kinds))
	bad := func(sig, f string, a ...interface{}) {
		w.Rep.Violate(w, sig, "%s: "+f, append([]interface{}{what}, a...)...)
	}
	led := ledger{}
	fin, created, polls := 0, 0, 0
	last := map[string]Ev{}
	votes, banned := map[string]string{}, map[string]bool{}
	off, jailed, byz := map[string]int{}, map[string]int{}, map[string]int{}
	for _, e := range events(evs, "") {
		a := e.A["address"]
		w.Rep.Count("event "+e.Type, 1)
		led.book(e)
		switch e.Type {
		case "status_updated":
			if x := r.status[a].String(); x != e.A["before"] {
				bad("status-before", "%s's status is announced to change from %s, it was %s", a, e.A["before"], x)
			}
			was := r.status[a]
			r.status[a] = referral.Status(referral.Status_value[e.A["after"]])
			if r.status[a] < was {
				delete(r.downAt, a)
			}
		case "acc_banished":
			if r.banished[a] {
				bad("banished-twice", "%s is announced to be banished, but it's been already", a)
			}
			r.banished[a], r.status[a] = true, referral.STATUS_UNSPECIFIED
			delete(r.downAt, a)
		case "compression":
			if x := r.parent[a]; x != e.A["referrer"] {
				bad("compression-referrer", "a compression is announced: %s under %s, its referrer is %s", a, e.A["referrer"], x)
			}
			var kids []string
			for b, p := range r.parent {
				if p == a && !r.banished[b] {
					kids = append(kids, b)
				}
			}
			sort.Strings(kids)
			l := e.list("referrals")
			sort.Strings(l)
			if fmt.Sprint(kids) != fmt.Sprint(l) {
				bad("compression-referrals", "a compression is announced: %s, its referrals %v, they are %v", a, l, kids)
			}
			for _, b := range l {
				r.parent[b] = e.A["referrer"]
			}
			// Who's lost the team is back at the beginning.
			r.status[a] = referral.STATUS_LUCKY
			delete(r.downAt, a)
		case "transition_requested", "transition_performed", "transition_declined":
			if x := r.parent[a]; x != e.A["before"] {
				bad(e.Type+"-before", "%s: %s from %s, the referrer is %s", e.Type, a, e.A["before"], x)
			}
			switch e.Type {
			case "transition_requested":
				r.pending[a] = e.A["after"]
			case "transition_performed":
				if r.pending[a] != e.A["after"] {
					bad("performed-after", "%s has been moved under %s, requested was %s", a, e.A["after"], r.pending[a])
				}
				r.parent[a] = e.A["after"]
				delete(r.pending, a)
			default:
				if r.pending[a] != e.A["after"] {
					bad("declined-after", "%s's been refused to be moved under %s, requested was %s", a, e.A["after"], r.pending[a])
				}
				delete(r.pending, a)
			}
		case "status_will_be_downgraded":
			r.downAt[a] = evTime(e.A["time"])
		case "status_downgrade_canceled":
			delete(r.downAt, a)
		case "activity_changed":
			now := e.A["active_now"] == "true"
			if r.active[a] == now {
				bad("activity", "%s is announced to become active=%v, it's been so already", a, now)
			}
			r.active[a] = now
		case "validator_jailed":
			jailed[a]++
		case "validator_banished":
			off[a]++
		case "byzantine":
			byz[a]++
			banned[a] = e.A["banned"] == "true"
		case "buy_vpn":
			last["vpn "+a] = e
		case "buy_extra_im_storage", "give_up_im_storage":
			last["im "+a] = e
		case "im_auto_pay_failed":
			delete(last, "im "+a)
		case "buy_storage", "give_up_storage":
			last["storage "+a] = e
		case "update_limits_reset_used":
			delete(last, "vpn "+a)
			delete(last, "storage "+a)
		case "voting_finished":
			fin++
			if n := len(post.Hist); n == 0 || post.Hist[n-1].Proposal.Name != e.A["name"] {
				bad("finished-name", "the vote on %q is announced to be over, it isn't the last in the history", e.A["name"])
			}
		case "proposal_created":
			created++
			if p := proposalOf(post); p == nil || p.Name != e.A["name"] || p.Author != e.A["author"] || p.Type.String() != e.A["type"] {
				bad("created", "a proposal %q by %s (%s) is announced, in fact it's %v", e.A["name"], e.A["author"], e.A["type"], p)
			}
		case "proposal_vote":
			votes[e.A["voter"]] = e.A["agreed"]
		case "poll_finished":
			polls++
			if n := len(post.PHist); n > 0 {
				h := post.PHist[n-1]
				if h.Poll.Name != e.A["name"] || int64(h.Yes) != e.u("yes") || int64(h.No) != e.u("no") || h.Decision.String() != e.A["decision"] {
					bad("poll-result", "the poll %q is announced to end %s:%s %s, in the history it's %q %d:%d %s", e.A["name"], e.A["yes"], e.A["no"], e.A["decision"], h.Poll.Name, h.Yes, h.No, h.Decision)
				}
			}
		case "pay_tariff":
			r.until[a] = evTime(e.A["expire_at"])
		}
	}
	for _, e := range last {
		x := post.Prof[e.A["address"]]
		var limit, used int64
		switch e.Type {
		case "buy_vpn":
			limit, used = int64(x.VpnLimit), int64(x.VpnCurrent)
		case "buy_storage", "give_up_storage":
			limit, used = int64(x.StorageLimit), int64(x.StorageCurrent)
		default:
			limit = (int64(x.ImLimitExtra) + 5) * 1024 * 1024 * 1024
			if e.Type == "buy_extra_im_storage" && (x.ExtraImUntil == nil || !x.ExtraImUntil.Equal(evTime(e.A["expire_at"]))) {
				bad("im-until", "%s has got extra IM storage until %v, announced %s", e.A["address"], x.ExtraImUntil, e.A["expire_at"])
			}
		}
		w.Rep.Count("limits compared with what's announced", 1)
		if e.u("new_limit") != limit || e.u("used") != used {
			bad(e.Type, "%s announced %s of %s used, in fact %d of %d", e.Type, e.A["used"], e.A["new_limit"], used, limit)
		}
	}
	q := replicaOf(post)
	cmp := func(what string, x, y interface{}) {
		a, b := fmt.Sprintf("%v", x), fmt.Sprintf("%v", y)
		if a != b {
			bad(what, "%s", mapDiff(x, y))
		}
	}
	fresh := map[string]bool{}
	for b := range q.status {
		if _, ok := pre.Ref[b]; !ok {
			fresh[b] = true
		}
		if pre.Ref[b].Banished && !post.Ref[b].Banished {
			fresh[b] = true
			w.Rep.Count("came back", 1)
		}
	}
	for b := range fresh {
		r.status[b], r.parent[b], r.banished[b], r.active[b] = q.status[b], q.parent[b], q.banished[b], q.active[b]
		delete(r.until, b)
		delete(q.until, b)
	}
	cmp("status", r.status, q.status)
	cmp("active", r.active, q.active)
	cmp("parent", r.parent, q.parent)
	cmp("banished", r.banished, q.banished)
	cmp("pending", r.pending, q.pending)
	cmp("downgrade", r.downAt, q.downAt)
	cmp("until", r.until, q.until)
	amnesty := false
	for i := len(pre.Hist); i < len(post.Hist); i++ {
		amnesty = amnesty || post.Hist[i].Proposal.Type == voting.PROPOSAL_TYPE_GENERAL_AMNESTY
	}
	for b, n := range post.Node {
		o := pre.Node[b]
		if amnesty { // it wipes the records clean
			continue
		}
		if x, ok := banned[b]; ok && x != n.BannedForLife {
			bad("byzantine-banned", "%s offended, banned for life %v, though in fact %v", b, x, n.BannedForLife)
		}
		if x := n.JailCount - o.JailCount; int64(jailed[b]) != int64(x) {
			bad("jailed", "%s has been jailed %d times, announced %d times", b, x, jailed[b])
		}
		if x := len(n.Infractions) - len(o.Infractions); x >= 0 && byz[b] != x {
			bad("byzantine", "%s has offended %d times, announced %d times", b, x, byz[b])
		}
		if n.BannedForLife && !o.BannedForLife && byz[b] == 0 {
			bad("banned", "%s is banned for life without notice", b)
		}
		if o.Status && !n.Status && off[b] == 0 && byz[b] == 0 && !(tx != nil && switchesOff(tx, b)) {
			bad("off", "%s has been switched off without notice", b)
		}
		if off[b] > 0 && n.Status {
			bad("off-not", "%s is announced to lose its place, it's on", b)
		}
	}
	for a := range off {
		if _, ok := post.Node[a]; !ok {
			bad("off-nobody", "%s, not a validator, is announced to lose its place", a)
		}
	}
	if n := len(post.Hist) - len(pre.Hist); fin != n {
		bad("finished", "%d votes are over, announced %d", n, fin)
	}
	if n := len(post.PHist) - len(pre.PHist); polls != n {
		bad("polls", "%d polls are over, announced %d", n, polls)
	}
	was := 0
	if pre.Prop != nil {
		was = 1
	}
	now := len(post.Hist) - len(pre.Hist)
	if post.Prop != nil {
		now++
	}
	if created != now-was {
		bad("created-silently", "%d proposals are put to the vote, announced %d", now-was, created)
	}
	if tx != nil && len(post.Hist) == len(pre.Hist) {
		for _, b := range post.Agreed {
			if !contains(pre.Agreed, b) && votes[b] != "true" && (post.Prop == nil || post.Prop.Author != b) {
				bad("vote", "%s's consent hasn't been announced (%s)", b, votes[b])
			}
		}
		for _, b := range post.Disagr {
			if !contains(pre.Disagr, b) && votes[b] != "false" {
				bad("vote", "%s's objection hasn't been announced (%s)", b, votes[b])
			}
		}
	}
	if tx != nil {
		var said, done []string
		for _, e := range events(evs, "message") {
			if x := e.A["action"]; strings.HasPrefix(x, "artery.") {
				said = append(said, x)
			}
		}
		for _, x := range tx.Msgs {
			n := proto.MessageName(x.(proto.Message))
			switch strings.Split(n, ".")[1] {
			case "bank", "profile", "referral", "voting":
				done = append(done, n)
			}
		}
		w.Rep.Count("messages tagged", int64(len(said)))
		if fmt.Sprint(said) != fmt.Sprint(done) {
			bad("tags", "messages executed are %v, tagged %v", done, said)
		}
	}
	if tx == nil || !burns(tx) {
		led.check(w, what, pre, post)
	}
}

// proposalOf returns what's been put to the vote last.
func proposalOf(s *Snap) *voting.Proposal {
	if s.Prop != nil {
		return s.Prop
	}
	if n := len(s.Hist); n > 0 {
		return &s.Hist[n-1].Proposal
	}
	return nil
}

// ledger is the balances changes announced.
type ledger map[string]map[string]int64

func (l ledger) add(acc, denom string, n int64) {
	if l[acc] == nil {
		l[acc] = map[string]int64{}
	}
	l[acc][denom] += n
}

func (l ledger) book(e Ev) {
	const main, del, rev = util.ConfigMainDenom, util.ConfigDelegatedDenom, util.ConfigRevokingDenom
	a, n := e.A["account"], e.u("ucoins")
	switch e.Type {
	case "transfer":
		for d, x := range e.coins("amount") {
			l.add(e.A["sender"], d, -x)
			l.add(e.A["recipient"], d, x)
		}
	case "burn":
		for d, x := range e.coins("amount") {
			l.add(a, d, -x)
		}
	case "delegate":
		l.add(a, main, -n)
		l.add(a, del, n)
	case "freeze":
		l.add(a, del, -n)
		l.add(a, rev, n)
	case "undelegate":
		l.add(a, rev, -n)
		l.add(a, main, n)
	case "accrue":
		l.add(a, main, n)
		l.add(splitAddr, main, e.u("fee"))
	case "validator_accrue":
		x := e.ulist("ucoins")
		for i, b := range e.list("accounts") {
			l.add(b, main, x[i])
		}
	case "pay_tariff":
		x := e.ulist("commission_amount")
		for i, b := range e.list("commission_to") {
			l.add(b, main, x[i])
			l.add(e.A["address"], main, -x[i])
		}
	}
}

func (l ledger) check(w *World, what string, pre, post *Snap) {
	for b := range post.Bal {
		for _, d := range []string{util.ConfigMainDenom, util.ConfigDelegatedDenom, util.ConfigRevokingDenom} {
			x := post.Bal[b].AmountOf(d).Int64() - pre.Bal[b].AmountOf(d).Int64()
			w.Rep.Count("balances compared with what's announced", 1)
			if l[b][d] != 0 {
				w.Rep.Count("balance changes announced, "+d, 1)
			}
			// A part of what's called back from delegation is destroyed.
			if d == util.ConfigDelegatedDenom && l[b][util.ConfigRevokingDenom] > 0 && x <= l[b][d] {
				continue
			}
			if x != l[b][d] {
				w.Rep.Violate(w, "ledger", "%s: %s of %s has changed by %d, announced %d", what, d, b, x, l[b][d])
			}
		}
	}
}

func mapDiff(x, y interface{}) string {
	a, b := strings.Fields(strings.Trim(fmt.Sprint(x), "map[]")), strings.Fields(strings.Trim(fmt.Sprint(y), "map[]"))
	in := map[string]int{}
	for _, s := range a {
		in[s]--
	}
	for _, s := range b {
		in[s]++
	}
	var r []string
	for s, n := range in {
		if n < 0 {
			r = append(r, "announced "+s)
		} else if n > 0 {
			r = append(r, "is "+s)
		}
	}
	sort.Strings(r)
	return clip(strings.Join(r, ", "), 400)
}

// burns tells whether the transaction destroys coins at its author's will, which isn't announced besides.
func burns(tx *TxRec) bool {
	for _, m := range tx.Msgs {
		if _, ok := m.(*bank.MsgBurn); ok {
			return true
		}
	}
	return false
}

// switchesOff tells whether the transaction switches its own author's node off.
func switchesOff(tx *TxRec, acc string) bool {
	for _, m := range tx.Msgs {
		if x, ok := m.(*noding.MsgOff); ok && x.Account == acc {
			return true
		}
	}
	return false
}
