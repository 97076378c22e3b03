//go:build testing
// +build testing

package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// authority tells on whose behalf a message acts. It's what the documentation says, not what the message tells itself.
func authority(m sdk.Msg) string {
	return strings.ToLower(sender(m)) // upper case means the same address
}

// sender is the same just as it's written.
func sender(m sdk.Msg) string {
	switch x := m.(type) {
	case *bank.MsgSend:
		return x.FromAddress
	case *bank.MsgBurn:
		return x.Account
	case *delegating.MsgDelegate:
		return x.Address
	case *delegating.MsgRevoke:
		return x.Address
	case *delegating.MsgExpressRevoke:
		return x.Address
	case *earning.MsgSet:
		return x.Signer
	case *earning.MsgSetMultiple:
		return x.Signer
	case *noding.MsgOn:
		return x.Account
	case *noding.MsgOff:
		return x.Account
	case *noding.MsgUnjail:
		return x.Account
	case *profile.MsgCreateAccount:
		return x.Creator
	case *profile.MsgUpdateProfile:
		return x.Address
	case *profile.MsgSetStorageCurrent:
		return x.Sender
	case *profile.MsgSetVpnCurrent:
		return x.Sender
	case *profile.MsgPayTariff:
		return x.Address
	case *profile.MsgBuyStorage:
		return x.Address
	case *profile.MsgGiveStorageUp:
		return x.Address
	case *profile.MsgBuyVpn:
		return x.Address
	case *profile.MsgSetRate:
		return x.Sender
	case *profile.MsgBuyImExtraStorage:
		return x.Address
	case *profile.MsgGiveUpImExtra:
		return x.Address
	case *profile.MsgProlongImExtra:
		return x.Address
	case *referral.MsgRequestTransition:
		return x.Subject
	case *referral.MsgResolveTransition:
		return x.Signer
	case *voting.MsgPropose:
		return x.Proposal.Author
	case *voting.MsgVote:
		return x.Voter
	case *voting.MsgStartPoll:
		return x.Poll.Author
	case *voting.MsgAnswerPoll:
		return x.Respondent
	}
	panic(fmt.Sprintf("unknown message %T", m))
}

// messages are all the messages there are.
var messages = []sdk.Msg{
	&bank.MsgSend{}, &bank.MsgBurn{}, &delegating.MsgDelegate{}, &delegating.MsgRevoke{}, &delegating.MsgExpressRevoke{}, &earning.MsgSet{}, &earning.MsgSetMultiple{}, &noding.MsgOn{}, &noding.MsgOff{}, &noding.MsgUnjail{},
	&profile.MsgCreateAccount{}, &profile.MsgUpdateProfile{}, &profile.MsgSetStorageCurrent{}, &profile.MsgSetVpnCurrent{}, &profile.MsgPayTariff{}, &profile.MsgBuyStorage{}, &profile.MsgGiveStorageUp{}, &profile.MsgBuyVpn{}, &profile.MsgSetRate{},
	&profile.MsgBuyImExtraStorage{}, &profile.MsgGiveUpImExtra{}, &profile.MsgProlongImExtra{}, &referral.MsgRequestTransition{}, &referral.MsgResolveTransition{}, &voting.MsgPropose{}, &voting.MsgVote{}, &voting.MsgStartPoll{}, &voting.MsgAnswerPoll{},
}

// forge is a transaction about to be made.
type forge struct {
	chain   string
	signers []*Acc
	keys    []*Acc // whose keys the signatures are made with
	nums    []uint64
	seqs    []uint64
	gas     uint64
	memo    string
	timeout uint64
	fee     sdk.Coins
	amino   bool
	msgs    []sdk.Msg
	after   func(*txtypes.Tx) // changes made after signing
}

func (c *Chain) forge(signers []*Acc, msgs ...sdk.Msg) *forge {
	f := &forge{chain: chainID, signers: signers, keys: append([]*Acc(nil), signers...), gas: 100_000_000, msgs: msgs}
	ctx := c.Ctx()
	ak := c.App.GetAccountKeeper()
	for _, s := range signers {
		var n, q uint64
		if a := ak.GetAccount(ctx, s.Addr); a != nil {
			n, q = a.GetAccountNumber(), a.GetSequence()
		}
		f.nums, f.seqs = append(f.nums, n), append(f.seqs, q)
	}
	return f
}

func (c *Chain) bytes(f *forge) []byte {
	cfg := c.EC.TxConfig
	b := cfg.NewTxBuilder()
	must(b.SetMsgs(f.msgs...))
	b.SetGasLimit(f.gas)
	b.SetMemo(f.memo)
	b.SetTimeoutHeight(f.timeout)
	b.SetFeeAmount(f.fee)
	mode := signing.SignMode_SIGN_MODE_DIRECT
	if f.amino {
		mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	}
	sigs := make([]signing.SignatureV2, len(f.signers))
	for i, s := range f.signers {
		sigs[i] = signing.SignatureV2{PubKey: s.Priv.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: f.seqs[i]}
	}
	must(b.SetSignatures(sigs...))
	for i := range f.signers {
		bz, err := cfg.SignModeHandler().GetSignBytes(mode, authsign.SignerData{ChainID: f.chain, AccountNumber: f.nums[i], Sequence: f.seqs[i]}, b.GetTx())
		must(err)
		sig, err := f.keys[i].Priv.Sign(bz)
		must(err)
		sigs[i].Data.(*signing.SingleSignatureData).Signature = sig
	}
	must(b.SetSignatures(sigs...))
	bz, err := cfg.TxEncoder()(b.GetTx())
	must(err)
	if f.after == nil {
		return bz
	}
	var raw txtypes.TxRaw
	must(raw.Unmarshal(bz))
	tx := &txtypes.Tx{Body: &txtypes.TxBody{}, AuthInfo: &txtypes.AuthInfo{}, Signatures: raw.Signatures}
	must(tx.Body.Unmarshal(raw.BodyBytes))
	must(tx.AuthInfo.Unmarshal(raw.AuthInfoBytes))
	f.after(tx)
	raw.Signatures = tx.Signatures
	raw.BodyBytes, err = tx.Body.Marshal()
	must(err)
	raw.AuthInfoBytes, err = tx.AuthInfo.Marshal()
	must(err)
	bz, err = raw.Marshal()
	must(err)
	return bz
}

// ---- A05: who may do what ---------------------------------------------------------------------------------------------

type monAuth struct {
	NopMonitor
	r    *Rng
	done [][]byte // transactions executed
}

func (m *monAuth) Start(w *World) { m.r, m.done = newRng(w.WL.Seed+41), nil }

func sequences(w *World) map[string]uint64 {
	r := map[string]uint64{}
	ctx, ak := w.C.Ctx(), w.C.App.GetAccountKeeper()
	for _, a := range w.G.Accs {
		if x := ak.GetAccount(ctx, a.Addr); x != nil {
			r[a.B] = x.GetSequence()
		}
	}
	return r
}

var reAddr = regexp.MustCompile(`artr1[0-9a-z]{38}`)

// mentioned are those a message is about, except the one it acts on behalf of.
func (m *monAuth) mentioned(w *World, msg sdk.Msg) *Acc {
	var r []*Acc
	for _, b := range reAddr.FindAllString(fmt.Sprint(msg), -1) {
		if a := w.byAddr[b]; a != nil && b != authority(msg) {
			r = append(r, a)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return r[m.r.Intn(len(r))]
}

func (m *monAuth) other(w *World, not map[string]bool) *Acc {
	for i := 0; i < 50; i++ {
		if a := w.G.Accs[m.r.Intn(len(w.G.Accs))]; !not[a.B] {
			return a
		}
	}
	return newAcc("stranger")
}

func (m *monAuth) BeginBlock(w *World, _, _ *Snap, _ *BlockRec, _ abci.ResponseBeginBlock) {
	for i := 0; i < 2; i++ {
		m.attack(w)
	}
}

func (m *monAuth) Tx(w *World, pre, post *Snap, tx *TxRec) {
	passed := true
	own := map[string]bool{}
	for _, s := range tx.Signers {
		own[s.B] = true
		a, b := pre.Accs[s.B], post.Accs[s.B]
		if b.Seq != a.Seq+1 {
			passed = false
		}
		if b.Seq != a.Seq && b.Seq != a.Seq+1 {
			w.Rep.Violate(w, "sequence", "the sequence number of %s goes from %d to %d", s.B, a.Seq, b.Seq)
		}
	}
	for b, x := range post.Accs {
		if !own[b] && x.Seq != pre.Accs[b].Seq {
			w.Rep.Violate(w, "foreign-sequence", "the sequence number of %s, who hasn't signed, goes from %d to %d", b, pre.Accs[b].Seq, x.Seq)
		}
	}
	valid := true
	for _, x := range tx.Signers {
		if _, ok := pre.Accs[x.B]; !ok {
			valid = false
		}
	}
	for _, x := range tx.Msgs {
		if x.ValidateBasic() != nil {
			valid = false
		}
	}
	w.Rep.Eval("tx/%s/%d/%v/%v", tx.Kind, len(tx.Signers), passed, tx.ok())
	if passed {
		w.Rep.Count(fmt.Sprintf("accepted %T", tx.Msgs[0]), 1)
		m.done = append(m.done, tx.Raw)
		if len(m.done) > 30 {
			m.done = m.done[1:]
		}
	}
	if valid && !passed {
		w.Rep.Violate(w, "rightful-refused", "a transaction (%s) properly signed by everyone concerned is not let in: %s", tx.Kind, clip(tx.Res.Log, 200))
	}
	if m.r.chance(0.5) {
		m.attack(w)
	}
}

// what can be told from the state a transaction is checked against only
var sameSeq = map[string]bool{"replay": true, "past": true, "future": true, "expired": true}

// attack delivers transactions that must not be let in.
func (m *monAuth) attack(w *World) {
	op := w.WL.anyOp(m.r)
	save := w.R
	w.R = m.r
	var msgs []sdk.Msg
	for i := 0; i < 1+m.r.Intn(2); i++ {
		if x := w.makeMsg(op); x != nil && x.ValidateBasic() == nil && w.byAddr[authority(x)] != nil {
			msgs = append(msgs, x)
		}
		op = w.WL.anyOp(m.r)
	}
	w.R, w.followUp = save, nil
	if len(msgs) == 0 {
		return
	}
	own := map[string]bool{}
	var rightful []*Acc
	for _, x := range msgs {
		if a := authority(x); !own[a] {
			own[a] = true
			rightful = append(rightful, w.byAddr[a])
		}
	}
	dump := rawHash(rawDump(w.C.App, w.C.Ctx()))
	try := func(kind string, raw []byte) {
		res := w.C.App.DeliverTx(abci.RequestDeliverTx{Tx: raw})
		chk := w.C.App.CheckTx(abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_New})
		after := rawHash(rawDump(w.C.App, w.C.Ctx()))
		w.Rep.Count("forged:"+kind, 1)
		w.Rep.Eval("forged/%s/%T/%d/%s/%d", kind, msgs[0], len(msgs), res.Codespace, res.Code)
		if res.Code == 0 {
			w.Rep.Violate(w, "forged:"+kind, "%s: executed: %T %v, signers should be %v", kind, msgs[0], clip(fmt.Sprint(msgs), 300), sortedKeys(own))
		} else if after != dump {
			w.Rep.Violate(w, "forged-effect:"+kind, "%s: rejected (%s), but it has changed the state", kind, clip(res.Log, 100))
		}
		if chk.Code == 0 && !sameSeq[kind] {
			w.Rep.Violate(w, "forged-check:"+kind, "%s: let into the pool: %T", kind, msgs[0])
		}
		dump = after
	}
	build := func() *forge { return w.C.forge(rightful, msgs...) }
	stranger := m.other(w, own)
	i := m.r.Intn(len(rightful))

	f := build() // with somebody else's key in place of the rightful one
	f.signers = append([]*Acc(nil), rightful...)
	f.signers[i], f.keys[i] = stranger, stranger
	try("other's key", w.C.bytes(f))

	for _, x := range msgs { // by somebody concerned, but not responsible
		if o := m.mentioned(w, x); o != nil && !own[o.B] {
			f := w.C.forge([]*Acc{o}, x)
			try("other party", w.C.bytes(f))
		}
	}
	f = build() // the rightful one's name, another key's signature
	f.keys[i] = stranger
	try("other's signature", w.C.bytes(f))

	f = w.C.forge([]*Acc{stranger}, msgs...)
	try("stranger", w.C.bytes(f))

	if len(rightful) > 1 {
		f = w.C.forge(rightful[:1], msgs...)
		try("one for all", w.C.bytes(f))
		f = w.C.forge([]*Acc{rightful[1], rightful[0]}, msgs...)
		try("swapped", w.C.bytes(f))
	}
	f = build()
	f.after = func(t *txtypes.Tx) { t.Signatures, t.AuthInfo.SignerInfos = nil, nil }
	try("unsigned", w.C.bytes(f))
	f = build()
	f.after = func(t *txtypes.Tx) { t.Signatures[i] = make([]byte, 64) }
	try("zero signature", w.C.bytes(f))
	f = build()
	f.after = func(t *txtypes.Tx) { t.Signatures[i][m.r.Intn(64)] ^= 1 << uint(m.r.Intn(8)) }
	try("flipped bit", w.C.bytes(f))

	switch m.r.Intn(8) {
	case 0:
		f = build()
		f.chain = []string{"", "verif-2", "Verif-1", "artery_network-9"}[m.r.Intn(4)]
		try("other chain", w.C.bytes(f))
	case 1:
		f = build()
		f.nums[i] += 1 + uint64(m.r.Intn(3))
		try("other account number", w.C.bytes(f))
	case 2:
		f = build()
		f.seqs[i] += 1 + uint64(m.r.Intn(3))
		try("future", w.C.bytes(f))
	case 3:
		if f = build(); f.seqs[i] > 0 {
			f.seqs[i]--
			try("past", w.C.bytes(f))
		}
	case 4:
		f = build()
		f.memo = "x"
		f.after = func(t *txtypes.Tx) { t.Body.Memo = "y" }
		try("changed memo", w.C.bytes(f))
	case 5:
		f = build()
		f.after = func(t *txtypes.Tx) { t.AuthInfo.Fee.GasLimit += 1000 }
		try("changed gas", w.C.bytes(f))
	case 6:
		f = build()
		f.after = func(t *txtypes.Tx) { t.Body.Messages = append(t.Body.Messages, t.Body.Messages[0]) }
		try("doubled message", w.C.bytes(f))
	case 7:
		if w.C.Height > 1 {
			f = build()
			f.timeout = uint64(1 + m.r.Intn(int(w.C.Height)-1))
			try("expired", w.C.bytes(f))
		}
	}
	m.aminoSign(w, msgs[0])
	if n := len(m.done); n != 0 {
		try("replay", m.done[m.r.Intn(n)])
		try("replay", m.done[n-1])
	}
}

// anyOp picks any kind of operation, no matter how often the workload wants it.
func (wl *Workload) anyOp(r *Rng) string {
	var ops []string
	for op := range wl.Ops {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	return ops[r.Intn(len(ops))]
}

// aminoSign asks for a transaction signed the old way, that is by signing its amino JSON representation.
func (m *monAuth) aminoSign(w *World, msg sdk.Msg) {
	a := w.byAddr[authority(msg)]
	if w.C.App.GetAccountKeeper().GetAccount(w.C.Ctx(), a.Addr) == nil {
		return
	}
	kind := fmt.Sprintf("%T", msg)[1:]
	w.Rep.Count("amino", 1)
	if e := try(func() {
		f := w.C.forge([]*Acc{a}, msg)
		f.amino = true
		w.C.bytes(f)
	}); e != nil {
		w.Rep.Violate(w, "amino-json", "%s cannot be signed in the amino-json mode: %v", kind, clip(fmt.Sprint(e), 200))
	}
}
