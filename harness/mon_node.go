//go:build testing
// +build testing

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	noding "github.com/arterynetwork/artr/x/noding/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// monNode follows validators: who is in the consensus engine's set with what power, who is jailed and banned, who may be
// switched on.
type monNode struct {
	judge
	op     map[string]string // node operators by consensus address: whoever had the node on last
	set    map[string]int64  // the validator set the consensus engine has: powers by public key
	queue  []string          // lottery queue
	height int64
	paid   map[int64]string // operators rewarded for each block
	stale  map[string]string
}

func consKey(pk string) string { return string(consAddrOf(pk)) }

func nodeActive(n noding.Info) bool { return n.Status && !n.Jailed && !n.BannedForLife }

// ofNetwork is how much an account and the network it can see have delegated, from nothing but balances and referrers.
func (t *refTree) ofNetwork(b string) (sum int64) {
	d := t.delegated[b]
	if d == nil {
		return 0
	}
	for l := 0; l <= linesOpened(t.s.Ref[b].Status); l++ {
		sum += d[l]
	}
	return
}

// unqualified says why an account may not be a validator: "" if it may.
func (t *refTree) unqualified(b string) string {
	s := t.s
	c := s.P.Node.MinCriteria
	switch {
	case s.Node[b].Staff:
		return ""
	case s.Ref[b].Status < c.Status:
		return "REASON_NOT_ENOUGH_STATUS"
	case uint64(s.bal(b, dDel)) < c.SelfStake:
		return "REASON_NOT_ENOUGH_SELF_STAKE"
	case uint64(t.ofNetwork(b)) < c.TotalStake:
		return "REASON_NOT_ENOUGH_TOTAL_STAKE"
	}
	return ""
}

func wantScore(n noding.Info, stake int64) int64 {
	if stake < 1 {
		stake = 1
	}
	return int64(math.Log(float64(stake))) - n.Strokes + n.OkBlocksInRow/100
}

func sortedNodes(s *Snap) []string {
	r := make([]string, 0, len(s.Node))
	for b := range s.Node {
		r = append(r, b)
	}
	sort.Strings(r)
	return r
}

func (m *monNode) Start(w *World) {
	m.op, m.set, m.paid, m.stale = map[string]string{}, map[string]int64{}, map[int64]string{}, map[string]string{}
	for b, n := range w.S.Node {
		if nodeActive(n) {
			m.op[consKey(n.PubKey)] = b
		}
	}
	m.updates(w, w.S, w.S, w.Init.Validators, "genesis")
	m.qualified(w, w.S, w.S, "genesis")
}

func (m *monNode) unqueue(b string) bool {
	for i, x := range m.queue {
		if x == b {
			m.queue = append(m.queue[:i:i], m.queue[i+1:]...)
			return true
		}
	}
	return false
}

func (m *monNode) downshift(b string) {
	if m.unqueue(b) {
		m.queue = append(m.queue, b)
	}
}

// leftQueue forgets those who aren't active any longer.
func (m *monNode) leftQueue(s *Snap) {
	for _, b := range append([]string(nil), m.queue...) {
		if !nodeActive(s.Node[b]) {
			m.unqueue(b)
		}
	}
}

func queueOf(s *Snap) []string {
	var r []string
	for b, n := range s.Node {
		if n.LotteryNo != 0 {
			r = append(r, b)
		}
	}
	sort.Slice(r, func(i, j int) bool { return s.Node[r[i]].LotteryNo < s.Node[r[j]].LotteryNo })
	return r
}

// updates judges the validator updates of one block: pre is the state they are computed from.
func (m *monNode) updates(w *World, pre, post *Snap, us []abci.ValidatorUpdate, what string) {
	seen := map[string]bool{}
	next := map[string]int64{}
	for k, p := range m.set {
		next[k] = p
	}
	for _, u := range us {
		k := updKey(u)
		if seen[k] {
			m.bad(w, "N01", "duplicate", "%s: %s is updated twice", what, k)
		}
		seen[k] = true
		switch {
		case u.Power < 0:
			m.bad(w, "N01", "negative", "%s: power %d", what, u.Power)
		case u.Power == 0:
			if _, ok := m.set[k]; !ok {
				m.bad(w, "N01", "removes-unknown", "%s: %s is removed from the validator set without being in it", what, k)
			}
			delete(next, k)
			m.count(w, "N01", "removals", 1)
		default:
			if _, ok := m.set[k]; !ok {
				m.count(w, "N01", "additions", 1)
			} else {
				m.count(w, "N01", "power changes", 1)
			}
			next[k] = u.Power
		}
	}
	// what it has to be
	par := pre.P.Node
	var active []string
	for _, b := range sortedNodes(pre) {
		if nodeActive(pre.Node[b]) {
			active = append(active, b)
		}
	}
	rank := func(b string) [2]int64 { return [2]int64{pre.Node[b].Score, pre.Node[b].OkBlocksInRow} }
	sort.SliceStable(active, func(i, j int) bool {
		x, y := rank(active[i]), rank(active[j])
		return x[0] > y[0] || x[0] == y[0] && x[1] > y[1]
	})
	n1 := min(len(active), int(par.MaxValidators))
	n2 := min(len(active)-n1, int(par.LotteryValidators))
	keyOf := func(b string) string { return fmt.Sprintf("%X", consPubOf(pre.Node[b].PubKey)) }
	// powers of the top by position
	powers := make([]int64, n1)
	sl, acc := 0, rat(par.VotingPower.Slices[0].Part)
	for i := range powers {
		if i > 0 && pre.Node[active[i]].Score != pre.Node[active[i-1]].Score {
			if x := ratI(int64(i + 1)); x.Quo(x, ratI(int64(par.MaxValidators))).Cmp(acc) > 0 {
				sl++
				acc.Add(acc, rat(par.VotingPower.Slices[sl].Part))
			}
		}
		powers[i] = par.VotingPower.Slices[sl].VotingPower
	}
	// those equal to the last of the top could have been taken instead of it
	lo, hi := n1, n1
	if n1 > 0 && n1 < len(active) && rank(active[n1]) == rank(active[n1-1]) {
		for lo > 0 && rank(active[lo-1]) == rank(active[n1]) {
			lo--
		}
		for hi < len(active) && rank(active[hi]) == rank(active[n1]) {
			hi++
		}
		var in, out []string
		for _, b := range active[lo:hi] {
			// it's in the top unless it's in the queue
			if post.Node[b].LotteryNo == 0 {
				in = append(in, b)
			} else {
				out = append(out, b)
			}
		}
		if len(in) != n1-lo {
			m.bad(w, "N01", "top-size", "%s: %d of those ranking the same are at the top, %d expected", what, len(in), n1-lo)
		}
		active = append(append(append(append([]string(nil), active[:lo]...), in...), out...), active[hi:]...)
	}
	want := map[string]int64{}
	who := map[string]string{}
	owner := map[string]string{}
	for _, b := range active {
		if o, ok := owner[keyOf(b)]; ok {
			m.bad(w, "N01", "same-key", "%s: %s and %s are both active with the same key", what, o, b)
		}
		owner[keyOf(b)] = b
	}
	top := map[string]bool{}
	for i := 0; i < n1; i++ {
		want[keyOf(active[i])], who[keyOf(active[i])] = powers[i], "top"
		top[active[i]] = true
		m.unqueue(active[i])
	}
	m.leftQueue(pre)
	lucky := map[string]bool{}
	for i := 0; i < n2 && i < len(m.queue); i++ {
		want[keyOf(m.queue[i])], who[keyOf(m.queue[i])] = par.VotingPower.LuckiesVotingPower, "lucky"
		lucky[m.queue[i]] = true
	}
	var fresh []string
	for _, b := range active {
		if !top[b] && !contains(m.queue, b) {
			fresh = append(fresh, b)
		}
	}
	// newcomers line up in whatever order they have
	sort.SliceStable(fresh, func(i, j int) bool { return post.Node[fresh[i]].LotteryNo < post.Node[fresh[j]].LotteryNo })
	m.queue = append(m.queue, fresh...)
	if what != "genesis" || len(m.queue) == 0 {
		if got := queueOf(post); strings.Join(got, ",") != strings.Join(m.queue, ",") {
			m.bad(w, "N01", "queue", "%s: lottery queue is %v, expected %v", what, got, m.queue)
		}
	}
	for k := range unionInt(next, want) {
		if next[k] != want[k] {
			m.bad(w, "N01", "power:"+who[k], "%s: power of %s (%s) is %d, expected %d; %d active, at most %d, %d lucky", what, k, owner[k], next[k], want[k], len(active), par.MaxValidators, par.LotteryValidators)
		}
	}
	for _, b := range sortedNodes(post) {
		n := post.Node[b]
		st := noding.VALIDATOR_STATE_OFF
		switch {
		case n.BannedForLife:
			st = noding.VALIDATOR_STATE_BAN
		case n.Jailed:
			st = noding.VALIDATOR_STATE_JAIL
		case top[b]:
			st = noding.VALIDATOR_STATE_TOP
		case lucky[b]:
			st = noding.VALIDATOR_STATE_LUCKY
		case n.Status:
			st = noding.VALIDATOR_STATE_SPARE
		}
		if got := w.C.App.GetNodingKeeper().GetValidatorState(w.C.Ctx(), w.acc(b).Addr); got != st {
			m.bad(w, "N01", "state", "%s: state of %s is %s instead of %s", what, b, got, st)
		}
		m.count(w, "N01", "state "+st.String(), 1)
	}
	m.set = next
	for b := range post.Node {
		if n := post.Node[b]; nodeActive(n) {
			m.op[consKey(n.PubKey)] = b
		}
	}
	if len(next) == 0 {
		if len(active) > 0 && n1 > 0 {
			m.bad(w, "N01", "empty", "%s: the validator set is empty, although there are %d active validators", what, len(active))
		}
		w.Halted = true // the consensus engine doesn't go on without validators
		m.count(w, "N01", "nobody left", 1)
	}
	m.eval(w, "N01", "active=%d max=%d lucky=%d queue=%d updates=%d tie=%v", min(len(active), 15), min(int(par.MaxValidators), 15), par.LotteryValidators, min(len(m.queue), 8), min(len(us), 6), hi > lo)
	if n2 > 0 {
		m.count(w, "N01", "with lucky ones", 1)
	}
	if hi > lo {
		m.count(w, "N01", "ties for the top", 1)
	}
}

func unionInt(a, b map[string]int64) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// qualified judges that those active are qualified, and that nobody's score is out of date.
func (m *monNode) qualified(w *World, pre, s *Snap, what string) {
	var t *refTree
	if m.prop != "N03" {
		return
	}
	if pre != s && len(pre.diff(s, "acc", "supply", "prof", "nick", "card", "del", "props", "earn", "vote", "task")) == 0 {
		return
	}
	t = buildTree(s)
	changed := pre.P.Node.MinCriteria != s.P.Node.MinCriteria
	for _, b := range sortedNodes(s) {
		n := s.Node[b]
		why := t.unqualified(b)
		st := fmt.Sprintf("%d %d %d", s.Ref[b].Status, s.bal(b, dDel), t.ofNetwork(b))
		if nodeActive(n) {
			switch {
			case why == "":
				delete(m.stale, b)
			case changed, pre == s: // new rules apply from the next change on
				m.stale[b] = st
				m.count(w, "N03", "left with old criteria", 1)
			case m.stale[b] == st:
			default:
				m.bad(w, "N03", "active-unqualified:"+strings.TrimPrefix(why, "REASON_"), "%s: validator %s is active, although %s (status %d, own %d, network %d; required %+v)", what, b, why, s.Ref[b].Status, s.bal(b, dDel), t.ofNetwork(b), s.P.Node.MinCriteria)
			}
			if want := wantScore(n, t.ofNetwork(b)); n.Score != want && m.stale[b] == "" {
				m.bad(w, "N03", "score", "%s: score of %s is %d instead of %d (network %d, strokes %d, signed in a row %d)", what, b, n.Score, want, t.ofNetwork(b), n.Strokes, n.OkBlocksInRow)
			}
			m.eval(w, "N03", "active own=%d network=%d status=%d staff=%v", magnitude(s.bal(b, dDel)), magnitude(t.ofNetwork(b)), s.Ref[b].Status, n.Staff)
			m.count(w, "N03", "active records", 1)
			if n.Staff {
				m.count(w, "N03", "staff records", 1)
			}
		} else {
			delete(m.stale, b)
		}
	}
}

// switchedOff judges those who were switched off without asking for it.
func (m *monNode) switchedOff(w *World, pre, post *Snap, evs []abci.Event, asked map[string]bool, what string) {
	told := map[string]string{}
	for _, e := range events(evs, "validator_banished") {
		told[strings.Trim(e.A["address"], `"`)] = strings.Trim(e.A["reason"], `"`)
	}
	t := buildTree(post)
	for _, b := range sortedNodes(pre) {
		p, q := pre.Node[b], post.Node[b]
		off := p.Status && !q.Status && !q.BannedForLife && !asked[b]
		if off {
			why := t.unqualified(b)
			m.count(w, "N03", "switched off: "+why, 1)
			m.eval(w, "N03", "switched off %s %s", what, why)
			if why == "" && !m.several(pre, post) {
				m.bad(w, "N03", "switched-off-qualified", "%s: %s was switched off, although it meets the criteria", what, b)
			}
			if _, ok := told[b]; !ok {
				m.bad(w, "N03", "not-told", "%s: no event says that %s was switched off", what, b)
			}
			if why != "" && told[b] != why && !m.several(pre, post) {
				m.bad(w, "N03", "reason", "%s: %s was switched off because of %s, the event says %s", what, b, why, told[b])
			}
		} else if _, ok := told[b]; ok && !asked[b] {
			m.bad(w, "N03", "false-event", "%s: an event says that %s was switched off", what, b)
		}
		if !p.Status && q.Status && !asked[b] {
			m.bad(w, "N03", "switched-on", "%s: %s got switched on without asking", what, b)
		}
	}
}

// several says that so many things happened between two states that those in between matter.
func (m *monNode) several(pre, post *Snap) bool {
	n := 0
	for _, t := range pre.Tasks {
		if !t.Time.After(post.Time) {
			n++
		}
	}
	return n > 1 && post.Time != pre.Time
}

func (m *monNode) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.height = b.Height
	par := pre.P.Node
	want := map[string]noding.Info{}
	for k, n := range pre.Node {
		want[k] = n
	}
	jailed := map[string]bool{}
	byz := map[string]bool{}
	find := func(addr []byte) (string, bool) {
		o, ok := m.op[string(addr)]
		if !ok {
			m.bad(w, "N02", "no-operator", "start of block: nobody operates node %X", addr)
		}
		return o, ok
	}
	if o, ok := find(b.Proposer); ok && len(b.Proposer) > 0 {
		n := want[o]
		n.ProposedCount++
		want[o] = n
		m.downshift(o)
		m.paid[b.Height-1] = o
		m.count(w, "N04", "proposers", 1)
		m.eval(w, "N04", "proposer switched on=%v jailed=%v banned=%v", n.Status, n.Jailed, n.BannedForLife)
	}
	for _, v := range b.Votes {
		o, ok := find(v.Validator.Address)
		if !ok {
			continue
		}
		n := want[o]
		if v.SignedLastBlock {
			n.MissedBlocksInRow = 0
			n.OkBlocksInRow++
			m.count(w, "N02", "signed", 1)
		} else {
			m.count(w, "N02", "missed", 1)
			if !n.Jailed {
				n.Strokes++
				n.OkBlocksInRow = 0
				n.MissedBlocksInRow++
				if n.MissedBlocksInRow >= int64(par.JailAfter) {
					n.Jailed, n.UnjailAt, n.MissedBlocksInRow = true, b.Height+int64(par.UnjailAfter), 0
					n.JailCount++
					jailed[o] = true
					m.count(w, "N02", "jailed", 1)
					m.unqueue(o)
				} else {
					m.downshift(o)
				}
			}
			m.eval(w, "N02", "missed jailed=%v row=%d on=%v", n.Jailed, n.MissedBlocksInRow, n.Status)
		}
		want[o] = n
	}
	for _, e := range b.Evidence {
		o, ok := find(e.Validator.Address)
		if !ok {
			continue
		}
		n := want[o]
		n.Infractions = append(append([]abci.Evidence(nil), n.Infractions...), e)
		byz[o] = true
		if len(n.Infractions) > 1 {
			n.BannedForLife, n.Status = true, false
			m.count(w, "N02", "banned", 1)
			m.unqueue(o)
		} else {
			m.downshift(o)
			m.count(w, "N02", "first offence", 1)
		}
		m.eval(w, "N02", "evidence %d jailed=%v on=%v", len(n.Infractions), n.Jailed, pre.Node[o].Status)
		want[o] = n
	}
	m.leftQueue(post)
	amnesty := amnestied(pre, post, res.Events)
	m.records(w, want, post, amnesty, "start of block")
	told := map[string]bool{}
	for _, e := range events(res.Events, "validator_jailed") {
		told[strings.Trim(e.A["address"], `"`)] = true
	}
	for o := range jailed {
		if !told[o] {
			m.bad(w, "N02", "jail-event", "no event says that %s was jailed", o)
		}
	}
	for o := range told {
		if !jailed[o] {
			m.bad(w, "N02", "false-jail-event", "an event says that %s was jailed", o)
		}
	}
	nb := 0
	for _, e := range events(res.Events, "byzantine") {
		nb++
		if o := strings.Trim(e.A["address"], `"`); !byz[o] {
			m.bad(w, "N02", "false-byzantine-event", "an event says that %s offended", o)
		}
	}
	if nb != len(b.Evidence) {
		m.bad(w, "N02", "byzantine-events", "%d events about %d pieces of evidence", nb, len(b.Evidence))
	}
	if m.prop == "N03" {
		m.switchedOff(w, pre, post, res.Events, nil, "start of block")
		m.qualified(w, pre, post, "start of block")
	}
	if m.prop == "N04" {
		m.proposers(w, pre, post)
	}
}

// amnestied tells whether a general amnesty has been granted: a proposal of one is over and announced as accepted.
func amnestied(pre, post *Snap, evs []abci.Event) bool {
	for i := len(pre.Hist); i < len(post.Hist); i++ {
		if p := post.Hist[i].Proposal; p.Type == voting.PROPOSAL_TYPE_GENERAL_AMNESTY {
			for _, e := range events(evs, "voting_finished") {
				if e.A["name"] == p.Name && e.A["agreed"] == "true" {
					return true
				}
			}
		}
	}
	return false
}

// records compares what is known about signing, jail and bans.
func (m *monNode) records(w *World, want map[string]noding.Info, post *Snap, amnesty bool, what string) {
	if m.prop != "N02" {
		return
	}
	f := func(n noding.Info) string {
		inf := ""
		for _, e := range n.Infractions {
			inf += fmt.Sprintf(" %s/%d/%X", e.Type, e.Height, e.Validator.Address)
		}
		return fmt.Sprintf("signed in a row %d, missed in a row %d, jailed %v until %d, offences [%s], banned %v, proposed %d", n.OkBlocksInRow, n.MissedBlocksInRow, n.Jailed, n.UnjailAt, inf, n.BannedForLife, n.ProposedCount)
	}
	for _, b := range sortedNodes(post) {
		n, q := want[b], post.Node[b]
		if x, y := f(n), f(q); x != y {
			m.bad(w, "N02", "record", "%s: %s: %s; expected: %s", what, b, y, x)
		}
		strokes, jails := n.Strokes, n.JailCount
		if amnesty {
			strokes, jails = 0, 0
			m.count(w, "N02", fmt.Sprintf("amnestied strokes=%v jailed=%v", n.Strokes > 0, n.JailCount > 0), 1)
		}
		if strokes != q.Strokes || jails != q.JailCount {
			m.bad(w, "N02", "strokes", "%s (amnesty %v): %s has missed %d blocks and been jailed %d times; expected: %d and %d", what, amnesty, b, q.Strokes, q.JailCount, strokes, jails)
		}
		if q.BannedForLife && q.Status {
			m.bad(w, "N02", "banned-on", "%s: %s is banned, but switched on", what, b)
		}
		if !n.Status && q.Status {
			m.bad(w, "N02", "switched-on", "%s: %s got switched on", what, b)
		}
	}
	for b := range want {
		if _, ok := post.Node[b]; !ok {
			m.bad(w, "N02", "record-lost", "%s: nothing is known about %s any longer", what, b)
		}
	}
}

func (m *monNode) proposers(w *World, pre, post *Snap) {
	total := 0
	for b, hs := range post.Props {
		for _, h := range hs {
			total++
			if m.paid[int64(h)] != b {
				m.bad(w, "N04", "proposer", "block %d is recorded for %s instead of %s", h, b, m.paid[int64(h)])
			}
		}
		if int64(len(hs)) != post.Node[b].ProposedCount {
			m.bad(w, "N04", "proposed-count", "%s: %d blocks recorded, the counter says %d", b, len(hs), post.Node[b].ProposedCount)
		}
	}
	if total != len(m.paid) {
		m.bad(w, "N04", "proposed-total", "%d blocks recorded, %d expected", total, len(m.paid))
	}
	for h, o := range m.paid {
		got, err := w.C.App.GetNodingKeeper().GetBlockProposer(w.C.Ctx(), h)
		if err != nil || got.String() != o {
			m.bad(w, "N04", "query", "proposer of block %d: %s (%v) instead of %s", h, got, err, o)
		}
	}
	m.count(w, "N04", "blocks looked up", int64(len(m.paid)))
}

func (m *monNode) Tx(w *World, pre, post *Snap, tx *TxRec) {
	what := "transaction " + tx.Kind
	want := map[string]noding.Info{}
	for k, n := range pre.Node {
		want[k] = n
	}
	asked := map[string]bool{}
	amnesty := false
	if tx.Hostile == "" && len(tx.Msgs) == 1 {
		exp, kind := "", ""
		var t *refTree
		tree := func() *refTree {
			if t == nil {
				t = buildTree(pre)
			}
			return t
		}
		prop := "N02"
		switch x := tx.Msgs[0].(type) {
		case *noding.MsgOn:
			prop, kind = "N03", "on"
			n, has := pre.Node[x.Account]
			busy := false
			for b, o := range pre.Node {
				busy = busy || b != x.Account && nodeActive(o) && o.PubKey == x.PubKey
			}
			_, known := pre.Ref[x.Account]
			switch {
			case n.BannedForLife:
				exp = "banned"
			case has && n.Status:
				exp = "already on"
			case busy:
				exp = "key busy"
			case !known || tree().unqualified(x.Account) != "":
				exp = "not qualified"
			}
			if tx.ok() {
				asked[x.Account] = true
				n.Status, n.PubKey = true, x.PubKey
				want[x.Account] = n
				m.op[consKey(x.PubKey)] = x.Account
				if q := post.Node[x.Account]; !q.Status || q.PubKey != x.PubKey {
					m.bad(w, "N03", "not-on", "%s: %+v", what, q)
				}
			}
		case *noding.MsgOff:
			kind = "off"
			n, has := pre.Node[x.Account]
			prop = "N03"
			if !has {
				exp = "no such validator"
			}
			if tx.ok() {
				asked[x.Account] = true
				n.Status = false
				want[x.Account] = n
				if post.Node[x.Account].Status {
					m.bad(w, "N03", "not-off", "%s: %s is still on", what, x.Account)
				}
			}
		case *noding.MsgUnjail:
			kind = "unjail"
			n := pre.Node[x.Account]
			busy := false
			for b, o := range pre.Node {
				busy = busy || b != x.Account && n.Status && nodeActive(o) && o.PubKey == n.PubKey
			}
			switch {
			case !n.Jailed:
				exp = "not jailed"
			case tx.Height < n.UnjailAt:
				exp = "not yet"
			case busy:
				exp = "key busy"
			}
			if tx.ok() {
				n.Jailed = false
				want[x.Account] = n
				if d := tx.Height - n.UnjailAt; d == 0 {
					m.count(w, "N02", "unjailed at the first opportunity", 1)
				}
				if unq := tree().unqualified(x.Account); unq != "" {
					if post.Node[x.Account].Status {
						m.bad(w, "N03", "unjailed-unqualified", "%s: %s stays on, although %s", what, x.Account, unq)
					}
					if !n.Status {
						asked[x.Account] = true
					}
				}
			} else if exp == "not yet" && tx.Height == n.UnjailAt-1 {
				m.count(w, "N02", "unjail one block early", 1)
			}
		case *voting.MsgVote, *voting.MsgPropose:
			amnesty = amnestied(pre, post, tx.Res.Events)
		}
		if kind != "" {
			if (exp == "") != tx.ok() {
				m.bad(w, prop, "verdict:"+kind+":"+exp, "%s: code %d (%s), expected reason to fail: %q; record %+v", what, tx.Res.Code, tx.Res.Log, exp, pre.Node[tx.Signers[0].B])
			}
			m.count(w, prop, kind+":"+exp, 1)
			m.eval(w, prop, "%s %s on=%v jailed=%v", kind, exp, pre.Node[tx.Signers[0].B].Status, pre.Node[tx.Signers[0].B].Jailed)
		}
	} else if len(tx.Msgs) != 1 {
		panic("one message per transaction, please")
	}
	m.leftQueue(post)
	for b, n := range post.Node { // staff members
		if _, ok := want[b]; !ok && n.Staff {
			want[b] = noding.Info{}
		}
	}
	m.records(w, want, post, amnesty, what)
	if m.prop == "N03" {
		m.switchedOff(w, pre, post, tx.Res.Events, asked, what)
		m.qualified(w, pre, post, what)
	}
	if m.prop == "N04" && fmt.Sprint(pre.Props) != fmt.Sprint(post.Props) {
		m.bad(w, "N04", "changed", "%s changed the record of proposers", what)
	}
}

func (m *monNode) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.updates(w, pre, post, res.ValidatorUpdates, "end of block")
	want := map[string]noding.Info{}
	for k, n := range pre.Node {
		want[k] = n
	}
	m.records(w, want, post, false, "end of block")
	if d := pre.diff(post, "node"); len(d) > 0 {
		m.bad(w, "N01", "side-effect", "end of block changes %v", first(d, 3))
	}
}

func consPubOf(bech string) []byte {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, bech)
	if err != nil {
		return nil
	}
	return pk.Bytes()
}
