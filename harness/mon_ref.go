//go:build testing
// +build testing

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
)

const statusHero = referral.Status(8) // doesn't exist anymore

// refTree is the referral structure rebuilt from nothing but who is whose referral.
type refTree struct {
	s         *Snap
	kids      map[string][]string
	coins     map[string]*[11]int64
	delegated map[string]*[11]int64
	active    map[string]*[11]uint64
}

func stake(s *Snap, b string) int64 { return s.bal(b, dMain) + s.bal(b, dDel) + s.bal(b, dRev) }

func buildTree(s *Snap) *refTree {
	t := &refTree{s: s, kids: map[string][]string{}, coins: map[string]*[11]int64{}, delegated: map[string]*[11]int64{}, active: map[string]*[11]uint64{}}
	for b := range s.Ref {
		t.coins[b], t.delegated[b], t.active[b] = &[11]int64{}, &[11]int64{}, &[11]uint64{}
	}
	for b, r := range s.Ref {
		t.coins[b][0] += stake(s, b)
		t.delegated[b][0] += s.bal(b, dDel)
		if r.Active {
			t.active[b][0]++
		}
		if r.Banished {
			continue
		}
		if r.Referrer != "" {
			t.kids[r.Referrer] = append(t.kids[r.Referrer], b)
		}
		up := r.Referrer
		for l := 1; l <= 10 && up != ""; l++ {
			if _, ok := t.coins[up]; !ok {
				break
			}
			t.coins[up][l] += stake(s, b)
			t.delegated[up][l] += s.bal(b, dDel)
			if r.Active {
				t.active[up][l]++
			}
			up = s.Ref[up].Referrer
		}
	}
	for _, l := range t.kids {
		sort.Strings(l)
	}
	return t
}

var statusCoins = map[referral.Status]int64{2: 20_000, 3: 50_000, 4: 150_000, 5: 300_000, 6: 700_000, 7: 1_500_000, 9: 3_000_000}
var statusTeam = map[referral.Status]uint64{4: 10, 5: 50, 6: 100, 7: 300, 9: 600}

func prevStatus(s referral.Status) referral.Status {
	if s--; s == statusHero {
		s--
	}
	return s
}
func nextStatus(s referral.Status) referral.Status {
	if s++; s == statusHero {
		s++
	}
	return s
}

// fulfils says whether an account meets the requirements of a status. sure is false when it depends on people that far
// away that nobody is told about them.
func (t *refTree) fulfils(b string, st referral.Status) (yes, sure bool) {
	if st <= referral.STATUS_LUCKY {
		return true, true
	}
	var network int64
	for l := 0; l <= linesOpened(prevStatus(st)); l++ {
		network += t.delegated[b][l]
	}
	if network/1_000000 < statusCoins[st] {
		return false, true
	}
	var kids []string
	for _, k := range t.kids[b] {
		if t.s.Ref[k].Active {
			kids = append(kids, k)
		}
	}
	each := func(f func(k string) bool) (n int) {
		for _, k := range kids {
			if f(k) {
				n++
			}
		}
		return
	}
	withKids := func(n uint64) int { return each(func(k string) bool { return t.active[k][1] >= n }) }
	switch st {
	case referral.STATUS_LEADER:
		return withKids(2) >= 2, true
	case referral.STATUS_MASTER:
		return withKids(3) >= 3, true
	}
	team := func(depth int) int {
		return each(func(k string) bool {
			var n uint64
			for _, x := range t.active[k][:depth+1] {
				n += x
			}
			return n >= statusTeam[st]
		})
	}
	far, near := team(10) >= 3, team(9) >= 3
	return far && withKids(3) >= 3, far == near
}

type monRef struct {
	judge
	pending map[string]time.Time // requested transitions
	tree    *refTree
}

func month(s *Snap) time.Duration { return 30 * s.day() }

// closed says that nobody can become this account's referral.
func closed(s *Snap, b string, now time.Time) bool {
	r := s.Ref[b]
	return r.Referrer != "" && (r.Banished || !r.Active && (r.CompressionAt == nil || now.After(r.CompressionAt.Add(-month(s)))))
}

// home is where a banished account returns to.
func home(s *Snap, b string, now time.Time) string {
	up := s.Ref[b].Referrer
	for up != "" && closed(s, up, now) {
		up = s.Ref[up].Referrer
	}
	return up
}

func hasTask(s *Snap, handler, data string, at time.Time) bool {
	for _, t := range s.tasks(handler, []byte(data)) {
		if t.Equal(at) {
			return true
		}
	}
	return false
}

// dueTasks counts the tasks that are performed in a block.
func dueTasks(pre *Snap, now time.Time) (n int) {
	for _, t := range pre.Tasks {
		if !t.Time.After(now) {
			n++
		}
	}
	return
}

func sameTime(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equal(*b)
}

func sortedCopy(l []string) []string {
	r := append([]string(nil), l...)
	sort.Strings(r)
	return r
}

func (m *monRef) Start(w *World) {
	m.pending = map[string]time.Time{}
	for b, r := range w.S.Ref {
		if r.Transition != "" {
			for _, t := range w.S.tasks("referral/transition-timeout", []byte(b)) {
				m.pending[b] = t.Add(-w.S.day())
			}
		}
	}
	m.structure(w, nil, w.S, "genesis")
}

// structure judges everything that holds at any time.
func (m *monRef) structure(w *World, pre, s *Snap, what string) {
	if pre != nil && len(pre.diff(s, "acc", "supply", "prof", "nick", "card", "del", "node", "props", "earn", "vote")) == 0 && m.tree != nil {
		m.tree.s = s
		return
	}
	t := buildTree(s)
	m.tree = t
	if m.prop == "R01" || m.prop == "R02" {
		levels := 0
		for b, r := range s.Ref {
			if r.Referrer != "" {
				if _, ok := s.Ref[r.Referrer]; !ok {
					m.bad(w, "R01", "no-referrer", "after %s: %s has a referrer %s who isn't there", what, b, r.Referrer)
				}
			}
			n := 0
			for up := r.Referrer; up != ""; up = s.Ref[up].Referrer {
				if n++; n > len(s.Ref) {
					m.bad(w, "R01", "cycle", "after %s: %s is in a cycle", what, b)
					break
				}
			}
			if n > levels {
				levels = n
			}
			if pre != nil && pre.Ref[b].Banished && !r.Banished {
				m.count(w, "R02", fmt.Sprintf("came back active=%v ten levels down=%v", r.Active, n >= 10), 1)
			}
			if !r.Banished || len(r.Referrals) > 0 {
				if got, want := sortedCopy(r.Referrals), t.kids[b]; strings.Join(got, ",") != strings.Join(want, ",") {
					m.bad(w, "R01", "referrals", "after %s: %s has referrals %v, but %v are whose referrer they are", what, b, got, want)
				}
				var act []string
				for _, k := range t.kids[b] {
					if s.Ref[k].Active {
						act = append(act, k)
					}
				}
				if got := sortedCopy(r.ActiveReferrals); strings.Join(got, ",") != strings.Join(act, ",") {
					m.bad(w, "R01", "active-referrals", "after %s: %s has active referrals %v, but %v are", what, b, got, act)
				}
			}
			at := func(l []sdk.Int, i int) int64 {
				if i < len(l) {
					return l[i].Int64()
				}
				return 0
			}
			for i := 0; i <= 10; i++ {
				if got, want := at(r.Coins, i), t.coins[b][i]; got != want {
					m.bad(w, "R02", "coins", "after %s: %s has %d coins at level %d, really %d", what, b, got, i, want)
				}
				if got, want := at(r.Delegated, i), t.delegated[b][i]; got != want {
					m.bad(w, "R02", "delegated", "after %s: %s has %d delegated at level %d, really %d", what, b, got, i, want)
				}
				var n uint64
				if i < len(r.ActiveRefCounts) {
					n = r.ActiveRefCounts[i]
				}
				if n != t.active[b][i] {
					m.bad(w, "R02", "active", "after %s: %s has %d active at level %d, really %d", what, b, n, i, t.active[b][i])
				}
			}
		}
		m.eval(w, "R01", "structure %s accounts=%d levels=%d", what, len(s.Ref)/10, levels)
		m.eval(w, "R02", "aggregates %s accounts=%d levels=%d", what, len(s.Ref)/10, levels)
		m.count(w, m.prop, "structures", 1)
		m.count(w, m.prop, "records", int64(len(s.Ref)))
		if levels > 10 {
			m.count(w, m.prop, "structures deeper than ten levels", 1)
		}
	}
	if m.prop == "R03" {
		var seen [10][2]int64
		for b, r := range s.Ref {
			if r.Banished {
				if r.Status != 0 {
					m.bad(w, "R03", "banished-status", "after %s: banished %s has status %s", what, b, r.Status)
				}
				continue
			}
			if r.Status < 1 || r.Status > 9 || r.Status == statusHero {
				m.bad(w, "R03", "no-such-status", "after %s: %s has status %d", what, b, r.Status)
				continue
			}
			yes, sure := t.fulfils(b, r.Status)
			if !sure {
				m.count(w, "R03", "unsure", 1)
				continue
			}
			if yes == (r.StatusDowngradeAt != nil) {
				m.bad(w, "R03", "downgrade-planned", "after %s: %s has status %s, meets its requirements: %v, downgrade planned: %v", what, b, r.Status, yes, r.StatusDowngradeAt)
			}
			if r.StatusDowngradeAt != nil {
				m.count(w, "R03", "downgrades pending", 1)
				if !hasTask(s, "referral/downgrade", b, *r.StatusDowngradeAt) {
					m.bad(w, "R03", "downgrade-task", "after %s: the downgrade of %s at %s isn't scheduled", what, b, r.StatusDowngradeAt)
				}
			}
			if n := nextStatus(r.Status); yes && n <= 9 {
				if up, sure := t.fulfils(b, n); up && sure {
					m.bad(w, "R03", "not-upgraded", "after %s: %s meets the requirements of %s, but has %s", what, b, n, r.Status)
				}
			}
			seen[r.Status][boolInt(yes)]++
		}
		for st, x := range seen {
			for met, n := range x {
				if n > 0 {
					m.eval(w, "R03", "status %d met=%d", st, met)
					m.count(w, "R03", fmt.Sprintf("records with status %d", st), n)
				}
			}
		}
	}
	if m.prop == "R04" {
		for b, r := range s.Ref {
			if r.Referrer == "" {
				continue
			}
			if r.CompressionAt != nil && r.CompressionAt.After(s.Time) && !hasTask(s, "referral/compression", b, *r.CompressionAt) {
				m.bad(w, "R04", "compression-task", "after %s: the compression of %s at %s isn't scheduled", what, b, r.CompressionAt)
			}
			if r.BanishmentAt != nil && r.BanishmentAt.After(s.Time) && !hasTask(s, "referral/banish", b, *r.BanishmentAt) {
				m.bad(w, "R04", "banishment-task", "after %s: the banishment of %s at %s isn't scheduled", what, b, r.BanishmentAt)
			}
			if r.Banished && (r.Active || len(r.Referrals) > 0 || r.CompressionAt != nil || r.BanishmentAt != nil) {
				m.bad(w, "R04", "banished-alive", "after %s: banished %s: %s", what, b, str(r))
			}
		}
	}
}

// moves judges what changed in one step. msgs are the messages that were executed successfully.
func (m *monRef) moves(w *World, pre, post *Snap, msgs []sdk.Msg, evs []abci.Event, begin bool, what string) {
	now := post.Time
	created := map[string]string{}
	approved := map[string]bool{}
	declined := map[string]bool{}
	requested := map[string]string{}
	for _, x := range msgs {
		switch x := x.(type) {
		case *profile.MsgCreateAccount:
			created[x.Address] = x.Referrer
		case *referral.MsgResolveTransition:
			if x.Decline {
				declined[x.Subject] = true
			} else {
				approved[x.Subject] = true
			}
		case *referral.MsgRequestTransition:
			requested[x.Subject] = x.Destination
		}
	}
	single := len(msgs) <= 1

	// who has to be compressed and banished
	compress, banish := map[string]bool{}, map[string]bool{}
	dust := pre.P.Bank.DustDelegation
	if begin {
		for b, r := range pre.Ref {
			if r.Referrer == "" || r.Banished || r.Active {
				continue
			}
			if r.CompressionAt != nil && !r.CompressionAt.After(now) {
				compress[b] = true
			}
			if r.BanishmentAt != nil && !r.BanishmentAt.After(now) && pre.bal(b, dDel) <= dust {
				banish[b] = true
			}
		}
	}

	for b, q := range post.Ref {
		p, existed := pre.Ref[b]
		if !existed {
			if ref, ok := created[b]; !ok || ref != q.Referrer {
				m.bad(w, "R01", "unexpected-account", "%s: %s appeared under %s", what, b, q.Referrer)
			} else if single && closed(pre, ref, now) {
				m.bad(w, "R01", "closed", "%s: %s was registered under %s, who must not have referrals", what, b, ref)
			}
			if !q.Active {
				if q.CompressionAt == nil || !q.CompressionAt.Equal(now.Add(2*month(post))) {
					m.bad(w, "R04", "new-compression", "%s: new account %s is to be compressed at %v, not in two months", what, b, q.CompressionAt)
				}
			}
			m.eval(w, "R01", "created")
			m.count(w, "R01", "created", 1)
			continue
		}
		back := p.Banished && !q.Banished
		// --- referrer
		want := p.Referrer
		why := "kept"
		switch {
		case back:
			want, why = home(pre, b, now), "came back"
		case approved[b]:
			want, why = p.Transition, "transition"
		default:
			for !p.Banished && compress[want] {
				want, why = pre.Ref[want].Referrer, "compression"
			}
		}
		if single && !q.Banished && q.Referrer != want {
			m.bad(w, "R01", "referrer", "%s: %s had referrer %s, got %s instead of %s (%s)", what, b, p.Referrer, q.Referrer, want, why)
		}
		if why != "kept" {
			m.eval(w, "R01", "%s moved=%v", why, q.Referrer != p.Referrer)
			m.count(w, "R01", "referrer: "+why, 1)
		}
		// --- transitions
		if p.Transition != q.Transition && !banish[b] {
			ok := false
			switch {
			case requested[b] != "":
				ok = !single || p.Transition == "" && q.Transition == requested[b]
			case approved[b] || declined[b]:
				ok = q.Transition == ""
			case begin:
				at, known := m.pending[b]
				ok = q.Transition == "" && known && !at.Add(pre.day()).After(now)
				if ok {
					m.eval(w, "R05", "timeout exact=%v", at.Add(pre.day()).Equal(now))
					m.count(w, "R05", "timeouts", 1)
				}
			}
			if !ok {
				m.bad(w, "R05", "transition-changed", "%s: the wanted referrer of %s changed from %q to %q; requested at %v", what, b, p.Transition, q.Transition, m.pending[b])
			}
		}
		if q.Transition == "" {
			delete(m.pending, b)
		} else if p.Transition == "" || requested[b] != "" {
			m.pending[b] = now
		}
		if at, ok := m.pending[b]; ok && !q.Banished && !at.Add(post.day()).After(now) {
			m.bad(w, "R05", "no-timeout", "%s: the transition of %s requested at %s is still pending", what, b, at)
		}
		// --- status
		if p.Status != q.Status || banish[b] || compress[b] || back {
			m.statusMove(w, pre, post, b, p, q, compress[b], banish[b], back, begin, what)
		}
		// --- compression and banishment
		if single {
			m.lifecycle(w, pre, post, b, p, q, compress[b], banish[b], back, begin, what)
		}
	}
	for b := range pre.Ref {
		if _, ok := post.Ref[b]; !ok {
			m.bad(w, "R01", "lost-account", "%s: %s disappeared from the structure", what, b)
		}
	}
	// --- events
	ids := func(name string) (r []string) {
		for _, e := range events(evs, name) {
			r = append(r, strings.Trim(e.A["address"], `"`))
		}
		sort.Strings(r)
		return
	}
	if begin {
		if got, want := ids("compression"), sortedKeys(compress); fmt.Sprint(got) != fmt.Sprint(want) {
			m.bad(w, "R04", "compression-events", "%s: compressions of %v were announced, %v was due", what, got, want)
		}
		if got, want := ids("acc_banished"), sortedKeys(banish); fmt.Sprint(got) != fmt.Sprint(want) {
			m.bad(w, "R04", "banishment-events", "%s: banishments of %v were announced, %v was due", what, got, want)
		}
	}
	for _, x := range []string{"transition_requested", "transition_performed"} {
		n := len(requested)
		if x == "transition_performed" {
			n = len(approved)
		}
		if got := ids(x); single && len(got) != n {
			m.bad(w, "R05", "transition-events", "%s: %s for %v", what, x, got)
		}
	}
}

func (m *monRef) statusMove(w *World, pre, post *Snap, b string, p, q referral.Info, compressed, banished, back, begin bool, what string) {
	t := m.tree // already the state after the step
	switch {
	case banished:
		if q.Status != 0 {
			m.bad(w, "R03", "status-banished", "%s: banished %s has status %s", what, b, q.Status)
		}
		return
	case compressed:
		if q.Status != referral.STATUS_LUCKY || q.StatusDowngradeAt != nil {
			m.bad(w, "R03", "status-compressed", "%s: compressed %s has status %s, downgrade at %v", what, b, q.Status, q.StatusDowngradeAt)
		}
	case back, q.Status > p.Status:
		for st := q.Status; st > p.Status && st > 1; st = prevStatus(st) {
			if yes, sure := t.fulfils(b, st); !yes && sure && !(begin && dueTasks(pre, post.Time) > 1) {
				m.bad(w, "R03", "undeserved", "%s: %s was upgraded from %s to %s without meeting the requirements of %s", what, b, p.Status, q.Status, st)
				break
			}
		}
		m.count(w, "R03", "upgrades", 1)
		m.eval(w, "R03", "upgrade %d->%d", p.Status, q.Status)
	case q.Status < p.Status:
		if !begin || p.StatusDowngradeAt == nil || p.StatusDowngradeAt.After(post.Time) || q.Status != prevStatus(p.Status) {
			m.bad(w, "R03", "downgrade", "%s: %s was downgraded from %s to %s, planned at %v", what, b, p.Status, q.Status, p.StatusDowngradeAt)
		}
		m.count(w, "R03", "downgrades", 1)
		m.eval(w, "R03", "downgrade %d->%d exact=%v", p.Status, q.Status, p.StatusDowngradeAt != nil && p.StatusDowngradeAt.Equal(post.Time))
	}
}

func (m *monRef) lifecycle(w *World, pre, post *Snap, b string, p, q referral.Info, compressed, banished, back, begin bool, what string) {
	now := post.Time
	dust := post.P.Bank.DustDelegation
	d0, d1 := pre.bal(b, dDel), post.bal(b, dDel)
	if q.Banished != (banished || p.Banished && !back) {
		m.bad(w, "R04", "banished", "%s: %s banished %v -> %v, delegated %d -> %d, dust %d, banishment was planned at %v", what, b, p.Banished, q.Banished, d0, d1, dust, p.BanishmentAt)
	}
	if back {
		if !q.Active && d1 <= dust {
			m.bad(w, "R04", "undeserved-return", "%s: %s came back neither paying nor delegating (%d, dust %d)", what, b, d1, dust)
		}
		m.count(w, "R04", "returns", 1)
		m.eval(w, "R04", "return active=%v moved=%v", q.Active, p.Referrer != q.Referrer)
	}
	if p.Banished && q.Banished && (q.Active || d1 > dust && d1 != d0) {
		m.bad(w, "R04", "no-return", "%s: %s stays banished, active %v, delegated %d, dust %d", what, b, q.Active, d1, dust)
	}
	// time of compression
	var want *time.Time
	switch {
	case q.Active && p.Active, !q.Active && !p.Active && !compressed && !banished && !back:
		want = p.CompressionAt
	case p.Active && !q.Active:
		x := now.Add(2 * month(post))
		want = &x
		m.count(w, "R04", "deactivated", 1)
		m.eval(w, "R04", "deactivated top=%v referrals=%v", q.Referrer == "", len(q.Referrals) > 0)
	}
	if !sameTime(q.CompressionAt, want) {
		m.bad(w, "R04", "compression-time", "%s: %s is to be compressed at %v instead of %v (active %v -> %v, compressed now: %v)", what, b, q.CompressionAt, want, p.Active, q.Active, compressed)
	}
	if compressed {
		if len(q.Referrals) != 0 {
			m.bad(w, "R04", "not-compressed", "%s: compressed %s still has referrals %v", what, b, q.Referrals)
		}
		m.count(w, "R04", "compressions", 1)
		m.eval(w, "R04", "compression referrals=%d exact=%v rich=%v", min(len(p.Referrals), 4), p.CompressionAt.Equal(now), d1 > dust)
		if len(p.Referrals) > 0 {
			m.count(w, "R04", "compressions of networks", 1)
		}
	}
	if banished {
		m.count(w, "R04", "banishments", 1)
		m.eval(w, "R04", "banishment exact=%v delegated=%v", p.BanishmentAt.Equal(now), d0 > 0)
	}
	// time of banishment
	dd := d0 != d1
	x := now.Add(month(post))
	want = p.BanishmentAt
	switch {
	case q.Active || q.Banished || q.Referrer == "":
		want = nil
	case compressed || dd || back:
		switch {
		case d1 > dust:
			want = nil
		case compressed || want == nil && q.CompressionAt == nil:
			want = &x
		}
	}
	if !sameTime(q.BanishmentAt, want) {
		m.bad(w, "R04", "banishment-time", "%s: %s is to be banished at %v instead of %v (delegated %d -> %d, dust %d, active %v -> %v, compressed now: %v)", what, b, q.BanishmentAt, want, d0, d1, dust, p.Active, q.Active, compressed)
	}
	if want != nil && p.BanishmentAt == nil {
		m.count(w, "R04", "banishments planned", 1)
		m.eval(w, "R04", "banishment planned compressed=%v", compressed)
	}
	if want == nil && p.BanishmentAt != nil && !q.Banished {
		m.count(w, "R04", "banishments cancelled", 1)
		m.eval(w, "R04", "banishment cancelled active=%v", q.Active)
	}
}

func (m *monRef) Tx(w *World, pre, post *Snap, tx *TxRec) {
	var msgs []sdk.Msg
	if tx.ok() {
		msgs = tx.Msgs
	}
	what := "transaction " + tx.Kind
	m.structure(w, pre, post, what)
	m.moves(w, pre, post, msgs, tx.Res.Events, false, what)
	if len(tx.Msgs) == 1 && tx.Hostile == "" {
		m.verdict(w, pre, post, tx)
	}
}

func (m *monRef) verdict(w *World, pre, post *Snap, tx *TxRec) {
	now := tx.Time
	under := func(b, top string) bool {
		for ; b != ""; b = pre.Ref[b].Referrer {
			if b == top {
				return true
			}
		}
		return false
	}
	allowed := func(subject, dest string) string {
		s, ok1 := pre.Ref[subject]
		_, ok2 := pre.Ref[dest]
		switch {
		case !ok1 || !ok2:
			return "unknown account"
		case s.Referrer == dest:
			return "already there"
		case under(dest, subject):
			return "cycle"
		case closed(pre, dest, now):
			return "closed"
		}
		return ""
	}
	switch x := tx.Msgs[0].(type) {
	case *referral.MsgRequestTransition:
		why := allowed(x.Subject, x.Destination)
		price := int64(pre.P.Ref.TransitionPrice)
		if why == "" && pre.Ref[x.Subject].Transition != "" {
			why = "pending"
		}
		if why == "" && pre.main(x.Subject) < price {
			why = "can't pay"
		}
		if pre.Ref[x.Subject].Banished {
			m.count(w, "R05", "requests by banished", 1)
		} else if (why == "") != tx.ok() {
			m.bad(w, "R05", "request-verdict", "request of %s to move to %s: expected %q, got code %d %s", x.Subject, x.Destination, why, tx.Res.Code, tx.Res.Log)
		}
		m.eval(w, "R05", "request %s", why)
		m.count(w, "R05", fmt.Sprintf("request:%v", tx.ok()), 1)
		if tx.ok() {
			md := Model{}
			md.add(x.Subject, dMain, -price)
			md.add(feeAddr, dMain, price)
			for _, l := range md.mismatch(pre, post) {
				m.bad(w, "R05", "request-price", "request of %s: %s", x.Subject, l)
			}
			if !hasTask(post, "referral/transition-timeout", x.Subject, now.Add(post.day())) {
				m.bad(w, "R05", "request-timeout", "the timeout of the request of %s isn't scheduled", x.Subject)
			}
		}
	case *referral.MsgResolveTransition:
		s := pre.Ref[x.Subject]
		why := ""
		switch {
		case x.Signer != s.Referrer || s.Referrer == "":
			why = "not the referrer"
		case !x.Decline && s.Transition == "":
			why = "nothing pending"
		case !x.Decline:
			why = allowed(x.Subject, s.Transition)
		}
		if x.Decline && s.Transition == "" && why == "" || s.Banished {
			m.count(w, "R05", "pointless resolutions", 1)
			return
		}
		if (why == "") != tx.ok() {
			m.bad(w, "R05", "resolve-verdict", "resolution of %s's transition to %q by %s (decline: %v): expected %q, got code %d %s", x.Subject, s.Transition, x.Signer, x.Decline, why, tx.Res.Code, tx.Res.Log)
		}
		m.eval(w, "R05", "resolve decline=%v %s", x.Decline, why)
		m.count(w, "R05", fmt.Sprintf("resolve decline=%v:%v", x.Decline, tx.ok()), 1)
		if tx.ok() {
			if d := pre.diff(post, "acc", "ref", "task", "node"); len(d) > 0 {
				m.bad(w, "R05", "resolve-touches", "resolution of %s's transition changed %v", x.Subject, first(d, 5))
			}
			if !x.Decline && len(s.Referrals) > 0 {
				m.count(w, "R05", "moved networks", 1)
			}
		}
	}
}

func (m *monRef) BeginBlock(w *World, pre, post *Snap, _ *BlockRec, res abci.ResponseBeginBlock) {
	m.structure(w, pre, post, "start of block")
	m.moves(w, pre, post, nil, res.Events, true, "start of block")
}

func (m *monRef) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.structure(w, pre, post, "end of block")
	m.moves(w, pre, post, nil, res.Events, false, "end of block")
}

// Commit compares the index of statuses, which nothing but a query can see.
func (m *monRef) Commit(w *World, s *Snap) {
	if m.prop != "R03" {
		return
	}
	for st := referral.STATUS_BUSINESSMAN; st <= referral.STATUS_ABSOLUTE_CHAMPION; st = nextStatus(st) {
		var want []string
		for b, r := range s.Ref {
			if r.Status == st {
				want = append(want, b)
			}
		}
		sort.Strings(want)
		var resp referral.AllWithStatusResponse
		r := query(w, "/artery.referral.v1beta1.Query/AllWithStatus", &referral.AllWithStatusRequest{Status: st})
		if !isSDKOk(r) || resp.Unmarshal(r.Value) != nil {
			m.bad(w, "R03", "index-query", "cannot list accounts with status %s: %s", st, r.Log)
			continue
		}
		if got := sortedCopy(resp.Accounts); strings.Join(got, ",") != strings.Join(want, ",") {
			m.bad(w, "R03", "index", "accounts listed with status %s: %v, really %v", st, got, want)
		}
		if len(want) > 0 {
			m.count(w, "R03", "nonempty lists by status", 1)
		}
	}
}
