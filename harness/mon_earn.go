//go:build testing
// +build testing

package main

import (
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	earning "github.com/arterynetwork/artr/x/earning/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// monEarn follows who is known to earn with VPN and storage.
type monEarn struct {
	judge
}

// kept judges what becomes of the records by themselves: they're kept until their time is up.
func (m *monEarn) kept(w *World, what string, want map[string]earning.Earner, post *Snap, expires bool) {
	window := 2 * post.day()
	keys := map[string]bool{}
	for b := range want {
		keys[b] = true
	}
	for b := range post.Earn {
		keys[b] = true
	}
	for _, b := range sortedKeys(keys) {
		x, y := want[b], post.Earn[b]
		for i, p := range [2][2]*time.Time{{x.Vpn, y.Vpn}, {x.Storage, y.Storage}} {
			kind := []string{"VPN", "storage"}[i]
			if sameTime(p[0], p[1]) {
				if p[0] != nil {
					m.count(w, "E01", "kept", 1)
				}
				continue
			}
			if expires && p[0] != nil && p[1] == nil && !p[0].Add(window).After(post.Time) {
				m.count(w, "E01", "expired", 1)
				m.eval(w, "E01", "expired %s", kind)
				continue
			}
			m.bad(w, "E01", "record", "%s: %s of %s is recorded at %v instead of %v", what, kind, b, p[1], p[0])
		}
	}
}

func (m *monEarn) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.kept(w, "start of block", pre.Earn, post, true)
}

func (m *monEarn) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.kept(w, "end of block", pre.Earn, post, false)
}

func (m *monEarn) Tx(w *World, pre, post *Snap, tx *TxRec) {
	what := "transaction " + tx.Kind
	if tx.Hostile != "" || len(tx.Msgs) != 1 {
		panic("one honest message per transaction, please")
	}
	var earners []earning.Earner
	signer := ""
	switch x := tx.Msgs[0].(type) {
	case *earning.MsgSet:
		earners, signer = []earning.Earner{x.Earner}, x.Signer
	case *earning.MsgSetMultiple:
		earners, signer = x.Earners, x.Signer
	case *profile.MsgSetRate, *profile.MsgSetStorageCurrent, *profile.MsgSetVpnCurrent, *voting.MsgPropose, *voting.MsgVote:
		m.kept(w, what, pre.Earn, post, false)
		return
	default: // may have an accrual as a consequence
		m.kept(w, what, pre.Earn, post, true)
		return
	}
	_, exists := pre.Accs[signer]
	exp := exists && contains(pre.P.Earn.Signers, signer)
	if exp != tx.ok() {
		m.bad(w, "E01", "verdict:"+tx.Kind, "%s by %s: code %d (%s), signers %v", what, signer, tx.Res.Code, tx.Res.Log, pre.P.Earn.Signers)
	}
	m.count(w, "E01", tx.Kind+" allowed="+map[bool]string{true: "yes", false: "no"}[exp], 1)
	want := map[string]earning.Earner{}
	for b, e := range pre.Earn {
		want[b] = e
	}
	if exp {
		for _, e := range earners {
			if e.Vpn == nil && e.Storage == nil {
				delete(want, e.Account)
			} else {
				want[e.Account] = e
			}
			m.eval(w, "E01", "%s of %d vpn=%v storage=%v", tx.Kind, len(earners), e.Vpn != nil, e.Storage != nil)
		}
	} else {
		m.eval(w, "E01", "%s refused", tx.Kind)
	}
	m.kept(w, what, want, post, false)
	if d := pre.diff(post, "acc", "earn"); len(d) > 0 {
		m.bad(w, "E01", "frame", "%s: also changes %v", what, first(d, 3))
	}
}
