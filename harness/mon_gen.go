//go:build testing
// +build testing

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/arterynetwork/artr/app"
	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// ---- A03: export and restart from a genesis ---------------------------------------------------------------------------

// monTwin exports the state now and then, starts another chain from it at the next height, and keeps feeding that chain
// with what the original one gets. Whatever is observable has to be the same on both.
type monTwin struct {
	NopMonitor
	r    *Rng
	life int
	twin *Chain
	age  int
	out  blockOut
}

func (m *monTwin) Start(w *World) {
	m.r, m.twin = newRng(w.WL.Seed+31), nil
	if m.life == 0 {
		m.life = 14
	}
}

// export writes the state down the way `artrd export` does.
func (c *Chain) export() (res json.RawMessage, height int64, err error) {
	defer guardApp("ExportGenesis")
	x, err := c.App.ExportAppStateAndValidators(false, nil)
	return x.AppState, x.Height, err
}

// NewChainAt starts a chain from an exported state.
func NewChainAt(genesis json.RawMessage, from *Chain) (*Chain, abci.ResponseInitChain) {
	defer guardApp("InitChain")
	db := dbm.NewMemDB()
	a, ec := openApp(db)
	c := &Chain{App: a, EC: ec, DB: db, Height: from.Height, Time: from.Time, ValSet: map[string]ValEntry{}, Keys: map[string]*Acc{}, setHist: map[int64]map[string]ValEntry{}}
	res := a.InitChain(abci.RequestInitChain{
		Time: from.Time, ChainId: chainID, ConsensusParams: consensusParams(), AppStateBytes: genesis, InitialHeight: from.Height + 1,
	})
	c.applyUpdates(res.Validators)
	c.inBlock = true
	return c, res
}

func setString(m map[string]ValEntry) string {
	var b strings.Builder
	for _, v := range sortedSet(m) {
		fmt.Fprintf(&b, "%s:%d ", v.Key[:12], v.Power)
	}
	return b.String()
}

// try runs f and returns what it panicked with.
func try(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

func (m *monTwin) fork(w *World) {
	m.twin, m.age = nil, 0
	if len(w.C.ValSet) == 0 {
		return // nobody to go on with
	}
	for _, t := range w.S.Tasks {
		if !t.Time.After(w.C.Time) {
			return // in the middle of making up for a standstill
		}
	}
	var gen json.RawMessage
	var height int64
	if e := try(func() {
		var err error
		gen, height, err = w.C.export()
		must(err)
	}); e != nil {
		w.Rep.Violate(w, "export-fails", "the state cannot be exported: %v", e)
		return
	}
	if height != w.C.Height+1 {
		w.Rep.Violate(w, "export-height", "exported for height %d after block %d", height, w.C.Height)
	}
	w.Rep.Count("exports", 1)
	if p := w.S.Poll; p != nil {
		tree := buildTree(w.S)
		for b := range w.S.Ans {
			lost := false
			switch r := p.Requirements.(type) {
			case *voting.Poll_MinStatus:
				lost = w.S.Ref[b].Status < r.MinStatus
			case *voting.Poll_CanValidate:
				lost = tree.unqualified(b) != ""
			}
			if lost {
				w.Rep.Count("answers of those who couldn't answer now", 1)
			}
		}
	}
	if e := try(func() {
		var raw map[string]json.RawMessage
		must(json.Unmarshal(gen, &raw))
		ec := w.C.EC
		must(app.ModuleBasics.ValidateGenesis(ec.Marshaler, ec.TxConfig, raw))
	}); e != nil {
		w.Rep.Violate(w, "invalid-genesis", "the exported state is not a valid genesis: %v", e)
	}
	var c *Chain
	if e := try(func() { c, _ = NewChainAt(gen, w.C) }); e != nil {
		w.Rep.Violate(w, "import-fails", "no chain can be started from the exported state: %v", clip(fmt.Sprint(e), 4000))
		return
	}
	if lucky := m.lottery(w, c); lucky {
		return // what follows depends on the queue
	}
	if x, y := setString(w.C.ValSet), setString(c.ValSet); x != y {
		w.Rep.Violate(w, "validators", "the validator set is %s; after a restart from the exported state it is %s", x, y)
		return
	}
	w.Rep.Count("imports", 1)
	m.twin = c
	var s *Snap
	if e := try(func() { s = takeSnap(c) }); e != nil {
		w.Rep.Violate(w, "imported-unreadable", "%v", e)
		m.twin = nil
		return
	}
	if m.dust(w, s) {
		m.twin = nil
		return
	}
	if !m.cmp(w, "import", s) {
		return
	}
	// the restarted network has got nobody to remember but the current validators
	w.C.setHist[w.C.Height] = copySet(w.C.ValSet)
	w.C.setHist[w.C.Height+1] = copySet(w.C.ValSet)
	w.C.setHist[w.C.Height+2] = copySet(w.C.ValSet)
	w.once = copySet(w.C.ValSet)
	w.Rep.Eval("import/%d/%d/%d/%v/%v", len(w.S.Tasks)/8, len(w.S.Node), bucket(int64(len(w.S.Prof))), w.S.Prop != nil, w.S.Poll != nil)
}

// dust looks for those who had been banished with a delegation that was considered dust then but isn't any more,
// and for those whose delegation has come to be considered dust.
func (m *monTwin) dust(w *World, s *Snap) (found bool) {
	for _, b := range w.S.addrs() {
		x, ok := w.S.Ref[b]
		y := s.Ref[b]
		if !ok {
			continue
		}
		if x.Banished && !y.Banished && x.Delegated[0].Int64() > w.S.P.Bank.DustDelegation {
			w.Rep.Violate(w, "banished-dust", "%s, banished with %s uARTRD delegated while that was dust, is not banished after a restart from the exported state", b, x.Delegated[0])
			found = true
		}
		if !x.Banished && x.BanishmentAt != nil && !y.Banished && y.BanishmentAt == nil && x.Delegated[0].Int64() > w.S.P.Bank.DustDelegation {
			w.Rep.Violate(w, "dust-lowered", "%s, with %s uARTRD delegated that was dust when a banishment was planned but isn't any more, isn't going to be banished after a restart from the exported state", b, x.Delegated[0])
			found = true
		}
		if !x.Banished && !x.Active && x.BanishmentAt == nil && x.CompressionAt == nil && x.Referrer != "" && y.BanishmentAt != nil && x.Delegated[0].Int64() <= w.S.P.Bank.DustDelegation {
			w.Rep.Violate(w, "dust-raised", "%s, with %s uARTRD delegated that has come to be considered dust, is going to be banished after a restart from the exported state", b, x.Delegated[0])
			found = true
		}
	}
	return
}

// lottery compares the queues for lucky places, and tells if there are any.
func (m *monTwin) lottery(w *World, c *Chain) bool {
	s := takeSnap(c)
	x, y := queue(w.S), queue(s)
	if len(x) == 0 && len(y) == 0 {
		return false
	}
	w.Rep.Count("queues", 1)
	w.Rep.Eval("queue/%d", len(x))
	if fmt.Sprint(x) != fmt.Sprint(y) || setString(w.C.ValSet) != setString(c.ValSet) {
		w.Rep.Violate(w, "lottery-queue", "the queue for lucky places is %v and the validator set is %s; after a restart from the exported state they are %v and %s", x, setString(w.C.ValSet), y, setString(c.ValSet))
	}
	if m.dust(w, s) {
		return true
	}
	// nothing but the queue may differ
	a, b := *w.S, *s
	a.Node, b.Node = noLottery(w.S.Node), noLottery(s.Node)
	for _, d := range canon(&a).diff(canon(&b)) {
		w.Rep.Violate(w, "import:"+d[:strings.Index(d, "/")], "import: %s", clip(shortDiff(d), 900))
	}
	return true
}

func noLottery(ns map[string]noding.Info) map[string]noding.Info {
	r := map[string]noding.Info{}
	for b, n := range ns {
		if n.LotteryNo != 0 {
			n.LotteryNo, n.LastPower, n.LastPubKey = 0, 0, ""
		}
		r[b] = n
	}
	return r
}

func queue(s *Snap) []string {
	var r []string
	for b, n := range s.Node {
		if n.LotteryNo != 0 {
			r = append(r, b)
		}
	}
	sort.Slice(r, func(i, j int) bool { return s.Node[r[i]].LotteryNo < s.Node[r[j]].LotteryNo })
	return r
}

// canon orders what has got no order.
func canon(s *Snap) *Snap {
	c := *s
	c.Ref = map[string]referral.Info{}
	for b, x := range s.Ref {
		x.ActiveReferrals = append([]string(nil), x.ActiveReferrals...)
		sort.Strings(x.ActiveReferrals)
		c.Ref[b] = x
	}
	c.Node = map[string]noding.Info{}
	for b, n := range s.Node {
		if n.PubKey == "" {
			n.Score = 0 // has never had a node
		}
		c.Node[b] = n
	}
	return &c
}

// shortDiff leaves out what is equal at both ends of "x -> y".
func shortDiff(d string) string {
	i := strings.Index(d, " -> ")
	j := strings.Index(d, ": ")
	if i < 0 || j < 0 || j > i {
		return d
	}
	head, x, y := d[:j], d[j+2:i], d[i+4:]
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	if n > 60 {
		x, y = "…"+x[n-60:], "…"+y[n-60:]
	}
	return head + ": " + clip(x, 350) + " -> " + clip(y, 350)
}

// cmp compares the twin's state with the original one.
func (m *monTwin) cmp(w *World, when string, s *Snap) bool {
	ds := canon(w.S).diff(canon(s))
	for _, d := range ds {
		w.Rep.Violate(w, when+":"+d[:strings.Index(d, "/")], "%s: %s", when, clip(shortDiff(d), 900))
	}
	if len(ds) != 0 {
		m.twin = nil
	}
	return len(ds) == 0
}

// step runs f on the twin; a panic of the twin only is a difference.
func (m *monTwin) step(w *World, what string, f func()) {
	if m.twin == nil {
		return
	}
	if e := try(f); e != nil {
		w.Rep.Violate(w, "twin-panics:"+what, "%s fails after a restart from an exported state: %v", what, clip(fmt.Sprint(e), 500))
		m.twin = nil
	}
}

func (m *monTwin) BeginBlock(w *World, _, _ *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.step(w, "BeginBlock", func() {
		r := m.twin.Begin(b.Time, b.Proposer, b.Votes, b.Evidence)
		m.events(w, "BeginBlock", res.Events, r.Events)
	})
}

func (m *monTwin) events(w *World, what string, x, y []abci.Event) {
	a, b := evString(x), evString(y)
	if a != b {
		w.Rep.Violate(w, "continue-events:"+what, "%s: events are\n%s, after a restart they are\n%s", what, clip(a, 500), clip(b, 500))
	}
}

func (m *monTwin) Tx(w *World, _, _ *Snap, tx *TxRec) {
	m.step(w, "DeliverTx", func() {
		r := m.twin.Deliver(tx.Raw)
		if r.Code != tx.Res.Code || r.Codespace != tx.Res.Codespace {
			w.Rep.Violate(w, "continue-tx:"+tx.Kind, "a transaction (%s): %s/%d %s, after a restart from an exported state %s/%d %s", tx.Kind, tx.Res.Codespace, tx.Res.Code, clip(tx.Res.Log, 200), r.Codespace, r.Code, clip(r.Log, 200))
		} else if r.Code == 0 {
			m.events(w, "DeliverTx", tx.Res.Events, r.Events)
		}
		w.Rep.Count("twin-transactions", 1)
	})
}

func (m *monTwin) EndBlock(w *World, _, _ *Snap, res abci.ResponseEndBlock) {
	m.step(w, "EndBlock", func() {
		m.twin.End()
		if x, y := setString(w.C.ValSet), setString(m.twin.ValSet); x != y {
			w.Rep.Violate(w, "continue-validators", "the validator set is %s; after a restart from the exported state it is %s", x, y)
			m.twin = nil
			return
		}
		m.twin.Commit()
		s := takeSnap(m.twin)
		if m.cmp(w, "continue", s) {
			w.Rep.Eval("continue/%d/%s", m.age, rawHash(rawDump(m.twin.App, m.twin.Ctx())))
		}
		w.Rep.Count("twin-blocks", 1)
	})
}

func (m *monTwin) Commit(w *World, _ *Snap) {
	m.age++
	if m.twin == nil && m.r.chance(0.2) || m.age >= m.life {
		m.fork(w)
	}
}
