//go:build testing
// +build testing

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/store"
	storetypes "github.com/cosmos/cosmos-sdk/store/types"
)

// ---- A01: atomicity -------------------------------------------------------------------------------------------------

// monAtomic compares the whole persisted state around every transaction.
type monAtomic struct {
	NopMonitor
	pre map[string][]byte
}

func (m *monAtomic) Start(w *World) { m.pre = nil }

func (m *monAtomic) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.pre = rawDump(w.C.App, w.C.Ctx())
}

func (m *monAtomic) Tx(w *World, _, _ *Snap, tx *TxRec) {
	pre, post := m.pre, rawDump(w.C.App, w.C.Ctx())
	m.pre = post
	own := map[string]bool{}
	for _, s := range tx.Signers {
		own["acc|\x01"+string(s.Addr)] = true
	}
	touched, foreign := 0, []string{}
	for k, v := range post {
		if u, ok := pre[k]; !ok || !bytes.Equal(u, v) {
			if own[k] {
				touched++
			} else {
				foreign = append(foreign, fmt.Sprintf("%q", k))
			}
		}
	}
	for k := range pre {
		if _, ok := post[k]; !ok {
			foreign = append(foreign, fmt.Sprintf("%q removed", k))
		}
	}
	w.Rep.Eval("tx/%s/%s/%d/%s/%d/%v", tx.Kind, tx.Hostile, tx.Res.Code, tx.Res.Codespace, len(tx.Msgs), touched > 0)
	if tx.ok() {
		w.Rep.Count("succeeded", 1)
		if touched != len(tx.Signers) {
			w.Rep.Violate(w, "sequence-not-advanced", "a successful transaction (%s) of %d signers advanced %d account records", tx.Kind, len(tx.Signers), touched)
		}
		if tx.Hostile != "" && tx.Hostile != "lowgas" {
			w.Rep.Violate(w, "forged-accepted:"+tx.Hostile, "a transaction with a bad signature (%s) was executed: %v", tx.Hostile, tx.Msgs)
		}
		return
	}
	w.Rep.Count("failed", 1)
	if tx.Res.Codespace == "sdk" && tx.Res.Code == 11 {
		w.Rep.Count("out-of-gas", 1)
	}
	if strings.Contains(tx.Res.Log, "panic") {
		w.Rep.Count("panicked", 1)
	}
	if len(foreign) > 0 {
		w.Rep.Violate(w, "failed-tx-effect", "a failed transaction (%s, %s) left effects: %v", tx.Kind, clip(tx.Res.Log, 120), first(foreign, 6))
	}
	if touched != 0 && touched != len(tx.Signers) {
		w.Rep.Violate(w, "partial-ante", "a failed transaction advanced %d of %d signers", touched, len(tx.Signers))
	}
	if tx.Hostile != "" && tx.Hostile != "lowgas" {
		w.Rep.Count("forged", 1)
		if touched != 0 {
			w.Rep.Violate(w, "forged-advances-sequence", "a transaction with a bad signature (%s) advanced a sequence number", tx.Hostile)
		}
	}
	if len(tx.Msgs) > 1 {
		w.Rep.Count("failed-multi", 1)
		w.Rep.Sample(map[string]interface{}{"where": w.where(), "kind": tx.Kind, "msgs": len(tx.Msgs), "log": clip(tx.Res.Log, 100), "keys_compared": len(pre)})
	}
}

// probe runs everything that must not change the state: CheckTx, simulation and queries.
type monProbe struct {
	NopMonitor
	txs [][]byte
}

func (m *monProbe) Tx(w *World, _, _ *Snap, tx *TxRec) {
	m.txs = append(m.txs, tx.Raw)
	if len(m.txs) > 20 {
		m.txs = m.txs[1:]
	}
	if !w.R.chance(0.2) {
		return
	}
	pre := rawHash(rawDump(w.C.App, w.C.Ctx()))
	n := 0
	func() {
		defer guardApp("CheckTx/Query")
		for i := 0; i < 3; i++ {
			raw := m.txs[w.R.Intn(len(m.txs))]
			w.C.App.CheckTx(abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_New})
			w.C.App.CheckTx(abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_Recheck})
			_, _, _ = w.C.App.Simulate(raw)
			n += 3
		}
		if nt := w.makeTx(); nt != nil {
			w.C.App.CheckTx(abci.RequestCheckTx{Tx: nt.Raw, Type: abci.CheckTxType_New})
			_, _, _ = w.C.App.Simulate(nt.Raw)
			n += 2
		}
		for _, q := range someQueries(w, 6) {
			w.C.App.Query(q)
			n++
		}
	}()
	if post := rawHash(rawDump(w.C.App, w.C.Ctx())); pre != post {
		w.Rep.Violate(w, "probe-effect", "checking, simulating or querying changed the state being built")
	}
	w.Rep.Count("probes", int64(n))
	w.Rep.Eval("probe/%s/%d", tx.Kind, len(m.txs))
}

// ---- A02: determinism -----------------------------------------------------------------------------------------------

// blockOut is everything a node reports about a block.
type blockOut struct {
	Begin abci.ResponseBeginBlock
	Txs   []abci.ResponseDeliverTx
	End   abci.ResponseEndBlock
	Hash  []byte
}

type monRecord struct {
	NopMonitor
	outs []blockOut
	cur  blockOut
}

func (m *monRecord) BeginBlock(_ *World, _, _ *Snap, _ *BlockRec, res abci.ResponseBeginBlock) {
	m.cur = blockOut{Begin: res}
}
func (m *monRecord) Tx(_ *World, _, _ *Snap, tx *TxRec)                       { m.cur.Txs = append(m.cur.Txs, tx.Res) }
func (m *monRecord) EndBlock(_ *World, _, _ *Snap, res abci.ResponseEndBlock) { m.cur.End = res }
func (m *monRecord) Commit(w *World, _ *Snap) {
	m.cur.Hash = w.C.App.LastCommitID().Hash
	m.outs = append(m.outs, m.cur)
}

func evString(evs []abci.Event) string {
	var b strings.Builder
	for _, e := range evs {
		b.WriteString(e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(&b, "|%s=%s", a.Key, a.Value)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func updString(u []abci.ValidatorUpdate) string {
	var b strings.Builder
	for _, x := range u {
		fmt.Fprintf(&b, "%X:%d ", x.PubKey.GetEd25519(), x.Power)
	}
	return b.String()
}

func cmpOut(w *World, how string, h int64, a, b blockOut) {
	rep := w.Rep
	if !bytes.Equal(a.Hash, b.Hash) {
		rep.Violate(w, "app-hash:"+how, "block %d: application hash %s on one node, %s on the other (%s)", h, hex.EncodeToString(a.Hash), hex.EncodeToString(b.Hash), how)
	}
	if x, y := evString(a.Begin.Events), evString(b.Begin.Events); x != y {
		rep.Violate(w, "begin-events:"+how, "block %d: BeginBlock events differ (%s):\n%s\n---\n%s", h, how, clip(x, 600), clip(y, 600))
	}
	for i := range a.Txs {
		x, y := a.Txs[i], b.Txs[i]
		if x.Code != y.Code || x.Codespace != y.Codespace || !bytes.Equal(x.Data, y.Data) || x.GasUsed != y.GasUsed || x.GasWanted != y.GasWanted {
			rep.Violate(w, "tx-result:"+how, "block %d, transaction %d (%s): code %d/%d gas %d/%d", h, i, how, x.Code, y.Code, x.GasUsed, y.GasUsed)
		}
		if p, q := evString(x.Events), evString(y.Events); p != q {
			rep.Violate(w, "tx-events:"+how, "block %d, transaction %d: events differ (%s):\n%s\n---\n%s", h, i, how, clip(p, 600), clip(q, 600))
		}
	}
	if x, y := updString(a.End.ValidatorUpdates), updString(b.End.ValidatorUpdates); x != y {
		rep.Violate(w, "validator-updates:"+how, "block %d: %s against %s (%s)", h, x, y, how)
	}
	if x, y := evString(a.End.Events), evString(b.End.Events); x != y {
		rep.Violate(w, "end-events:"+how, "block %d: EndBlock events differ (%s)", h, how)
	}
}

// settings makes up what operators may set up differently on their nodes.
func settings(w *World, r *Rng) (opts []func(*baseapp.BaseApp)) {
	what := ""
	if r.Intn(2) == 0 {
		what += " cache"
		opts = append(opts, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
	}
	p := []string{"default", "nothing", "everything", "custom"}[r.Intn(4)]
	po := storetypes.NewPruningOptionsFromString(p)
	if p == "custom" {
		po = storetypes.NewPruningOptions(uint64(r.Intn(5)), uint64(r.Intn(3)*10), uint64(1+r.Intn(7)))
	}
	what += " pruning " + p
	opts = append(opts, baseapp.SetPruning(po))
	if r.Intn(2) == 0 {
		what += " prices"
		opts = append(opts, baseapp.SetMinGasPrices("5uartr"))
	}
	w.Rep.Count("settings:"+what, 1)
	return
}

// replay executes the recorded blocks on a node of its own.
func replay(w *World, how string, outs []blockOut, r *Rng) {
	db := dbm.NewMemDB()
	var opts []func(*baseapp.BaseApp)
	if how == "settings" {
		opts = settings(w, r)
	}
	mortal := &mortalDB{DB: db}
	c, init := NewChainOn(mortal, w.G.JSON, w.G.Time, opts...)
	if x, y := updString(init.Validators), updString(w.Init.Validators); x != y {
		w.Rep.Violate(w, "validator-updates:"+how, "genesis: %s against %s", y, x)
	}
	restarts, crashes, asked := 0, 0, 0
	var known [][]byte
	// ask asks the node all kinds of things it must not be influenced by
	ask := func() {
		if how != "asked" || !r.chance(0.5) {
			return
		}
		defer guardApp("CheckTx/Query")
		for k := 0; k < 3 && len(known) > 0; k++ {
			raw := known[len(known)-1-r.Intn(min(len(known), 20))]
			switch r.Intn(3) {
			case 0:
				c.App.CheckTx(abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_New})
			case 1:
				c.App.CheckTx(abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_Recheck})
			default:
				_, _, _ = c.App.Simulate(raw)
			}
		}
		for _, q := range someQueries(w, 4) {
			q.Height = []int64{0, 0, c.App.LastBlockHeight(), c.App.LastBlockHeight() - r.Int63n(10)}[r.Intn(4)]
			c.App.Query(q)
		}
		p := legacyPairs(w, w.anyAcc().B, w.anyAcc().B, w.S)
		x := p[r.Intn(len(p))]
		var data []byte
		if x.data != nil {
			data = legacyCdc.MustMarshalJSON(x.data)
		}
		c.App.Query(abci.RequestQuery{Path: "custom/" + x.path, Data: data})
		asked++
	}
	for i, b := range w.C.Blocks {
		var out blockOut
		run := func() {
			out = blockOut{}
			ask()
			out.Begin = c.Begin(b.Time, b.Proposer, b.Votes, b.Evidence)
			for _, tx := range b.Txs {
				known = append(known, tx)
				ask()
				if how != "plain" && r.chance(0.3) {
					c.App.CheckTx(abci.RequestCheckTx{Tx: tx})
				}
				out.Txs = append(out.Txs, c.Deliver(tx))
			}
			ask()
			out.End = c.End()
			ask()
		}
		if how == "crash" && i > 0 && r.chance(0.3) {
			// the node dies somewhere within the block and starts over from what it has committed
			crashes++
			switch stop := r.Intn(len(b.Txs) + 2); {
			case stop > len(b.Txs):
				run()
			default:
				c.Begin(b.Time, b.Proposer, b.Votes, b.Evidence)
				for _, tx := range b.Txs[:stop] {
					c.Deliver(tx)
				}
			}
			c = c.reopen(b.Height-1, settings(w, r)...)
		}
		run()
		if how == "commit" && i > 0 && r.chance(0.4) {
			// the node dies while it's storing the block, some of it being stored already
			first := out
			if mortal.dies(r.Intn(16), func() { c.Commit() }) {
				w.Rep.Count("crashes-in-commit", 1)
				w.Rep.Eval("commit/%d", mortal.wrote)
				cmpOut(w, how, b.Height, outs[i], blockOut{Begin: first.Begin, Txs: first.Txs, End: first.End, Hash: outs[i].Hash})
				n, ec := openApp(c.DB, []func(*baseapp.BaseApp){baseapp.SetPruning(storetypes.PruneDefault)}[:r.Intn(2)]...)
				if got := n.LastBlockHeight(); got == b.Height-1 {
					again := *c
					again.App, again.EC, again.inBlock, again.Height = n, ec, false, b.Height-1
					c = &again
					run()
					c.Commit()
				} else if got == b.Height {
					again := *c
					again.App, again.EC, again.inBlock, again.Height = n, ec, false, b.Height
					c = &again
				} else {
					w.Rep.Violate(w, "height:"+how, "block %d: a node that died storing it is back at block %d", b.Height, got)
					return
				}
			}
		} else {
			c.Commit()
		}
		out.Hash = c.App.LastCommitID().Hash
		if (how == "restart" || how == "crash") && r.chance(0.3) {
			restarts++
			c = c.reopen(b.Height, settings(w, r)...)
		}
		cmpOut(w, how, b.Height, outs[i], out)
		w.Rep.Eval("replay/%s/%s", how, hex.EncodeToString(out.Hash))
		w.Rep.Count("blocks-replayed", 1)
		w.Rep.Count("txs-replayed", int64(len(b.Txs)))
		if w.Rep.Full() {
			break
		}
	}
	w.Rep.Count("restarts", int64(restarts))
	w.Rep.Count("asked-between", int64(asked))
	w.Rep.Count("crashes", int64(crashes))
	if how == "crash" {
		w.Rep.Sample(map[string]interface{}{"world": w.where(), "blocks": len(w.C.Blocks), "restarts": restarts, "crashes": crashes, "final_hash": hex.EncodeToString(c.App.LastCommitID().Hash)})
	}
}

// reopen throws the running application away and starts a new one over the same database.
func (c *Chain) reopen(height int64, opts ...func(*baseapp.BaseApp)) *Chain {
	defer guardApp("restart")
	n := *c
	n.App, n.EC = openApp(c.DB, opts...)
	n.inBlock = false
	if n.App.LastBlockHeight() != height {
		panic(fmt.Sprintf("after a restart the last height is %d instead of %d", n.App.LastBlockHeight(), height))
	}
	n.Height = height
	return &n
}
