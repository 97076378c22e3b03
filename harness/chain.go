//go:build testing
// +build testing

// Package main is the runtime-monitoring harness for arterynetwork/artr. It is overlaid into /repo (see build.sh), so
// it is always compiled against the current working tree, and drives the real application through ABCI.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/arterynetwork/artr/app"
)

const chainID = "verif-1"

// Acc is a key pair the workload controls.
type Acc struct {
	Name string
	Priv *secp256k1.PrivKey
	Addr sdk.AccAddress
	B    string // bech32
}

func newAcc(name string) *Acc {
	h := sha256.Sum256([]byte("verif-acc-" + name))
	pk := &secp256k1.PrivKey{Key: h[:]}
	addr := sdk.AccAddress(pk.PubKey().Address())
	return &Acc{Name: name, Priv: pk, Addr: addr, B: addr.String()}
}

// NodeKey is a consensus key.
type NodeKey struct {
	Name   string
	Pub    cryptotypes.PubKey
	Bech32 string
	Cons   sdk.ConsAddress
}

func newNodeKey(name string) *NodeKey {
	h := sha256.Sum256([]byte("verif-node-" + name))
	pk := ed25519.GenPrivKeyFromSecret(h[:])
	b, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, pk.PubKey())
	must(err)
	return &NodeKey{Name: name, Pub: pk.PubKey(), Bech32: b, Cons: sdk.ConsAddress(pk.PubKey().Address())}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// BlockIn is everything needed to replay one block.
type BlockIn struct {
	Height   int64
	Time     time.Time
	Proposer []byte
	Votes    []abci.VoteInfo
	Evidence []abci.Evidence
	Txs      [][]byte
}

// Chain drives one instance of the application.
type Chain struct {
	App    *app.ArteryApp
	EC     app.EncodingConfig
	DB     dbm.DB
	Height int64
	Time   time.Time
	ValSet map[string]ValEntry // by pubkey proto bytes; the validator set the consensus engine would hold
	// sets in effect at H, H+1 (updates returned at H take effect at H+2; votes at H+1 are for block H)
	setHist map[int64]map[string]ValEntry

	Blocks  []BlockIn
	cur     *BlockIn
	inBlock bool
	Keys    map[string]*Acc
	Record  bool
}

type ValEntry struct {
	Key   string
	Addr  []byte
	Power int64
	Upd   abci.ValidatorUpdate
}

func openApp(db dbm.DB, opts ...func(*baseapp.BaseApp)) (*app.ArteryApp, app.EncodingConfig) {
	ec := app.NewEncodingConfig()
	a := app.NewArteryApp(log.NewNopLogger(), db, nil, true, 0, ec, opts...)
	return a, ec
}

func NewChain(genesis json.RawMessage, t time.Time) (*Chain, abci.ResponseInitChain) {
	return NewChainOn(dbm.NewMemDB(), genesis, t)
}

func NewChainOn(db dbm.DB, genesis json.RawMessage, t time.Time, opts ...func(*baseapp.BaseApp)) (*Chain, abci.ResponseInitChain) {
	defer guardApp("InitChain")
	a, ec := openApp(db, opts...)
	c := &Chain{App: a, EC: ec, DB: db, Time: t, ValSet: map[string]ValEntry{}, Keys: map[string]*Acc{}, setHist: map[int64]map[string]ValEntry{}}
	res := a.InitChain(abci.RequestInitChain{
		Time:            t,
		ChainId:         chainID,
		ConsensusParams: consensusParams(),
		AppStateBytes:   genesis,
	})
	c.applyUpdates(res.Validators)
	c.setHist[1] = copySet(c.ValSet)
	c.setHist[2] = copySet(c.ValSet)
	return c, res
}

func consensusParams() *abci.ConsensusParams {
	return &abci.ConsensusParams{
		Block:     &abci.BlockParams{MaxBytes: 22020096, MaxGas: -1},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 100000, MaxAgeDuration: 172800 * time.Second, MaxBytes: 1048576},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{"ed25519"}},
	}
}

func copySet(m map[string]ValEntry) map[string]ValEntry {
	r := make(map[string]ValEntry, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func updKey(u abci.ValidatorUpdate) string {
	return fmt.Sprintf("%X", u.PubKey.GetEd25519())
}

// applyUpdates applies updates without judging them (see the N monitors for the judgement).
func (c *Chain) applyUpdates(us []abci.ValidatorUpdate) {
	for _, u := range us {
		k := updKey(u)
		if u.Power == 0 {
			delete(c.ValSet, k)
			continue
		}
		pk, err := cryptocodec.FromTmProtoPublicKey(u.PubKey)
		if err != nil {
			panic(err)
		}
		c.ValSet[k] = ValEntry{Key: k, Addr: pk.Address(), Power: u.Power, Upd: u}
	}
}

// Ctx returns a context over the state being delivered (inside a block) or over the last committed one.
func (c *Chain) Ctx() sdk.Context {
	if c.inBlock || c.Height == 0 {
		return c.App.BaseApp.NewContext(false, c.header())
	}
	h := tmproto.Header{ChainID: chainID, Height: c.Height, Time: c.Time}
	return c.App.BaseApp.NewContext(true, h)
}

// InitCtx can be used right after InitChain, before the first block.
func (c *Chain) header() tmproto.Header {
	h := tmproto.Header{ChainID: chainID, Height: c.Height, Time: c.Time}
	if c.cur != nil {
		h.ProposerAddress = c.cur.Proposer
	}
	return h
}

func sortedSet(m map[string]ValEntry) []ValEntry {
	r := make([]ValEntry, 0, len(m))
	for _, v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

// Begin starts the next block. dt is the time since the previous block.
func (c *Chain) Begin(t time.Time, proposer []byte, votes []abci.VoteInfo, ev []abci.Evidence) abci.ResponseBeginBlock {
	c.Height++
	c.Time = t
	c.cur = &BlockIn{Height: c.Height, Time: c.Time, Proposer: proposer, Votes: votes, Evidence: ev}
	c.inBlock = true
	defer guardApp("BeginBlock")
	return c.App.BeginBlock(abci.RequestBeginBlock{
		Header:              c.header(),
		LastCommitInfo:      abci.LastCommitInfo{Votes: votes},
		ByzantineValidators: ev,
	})
}

func (c *Chain) Deliver(tx []byte) abci.ResponseDeliverTx {
	if c.cur != nil && c.Record {
		c.cur.Txs = append(c.cur.Txs, tx)
	}
	defer guardApp("DeliverTx")
	return c.App.DeliverTx(abci.RequestDeliverTx{Tx: tx})
}

func (c *Chain) End() abci.ResponseEndBlock {
	defer guardApp("EndBlock")
	res := c.App.EndBlock(abci.RequestEndBlock{Height: c.Height})
	c.applyUpdates(res.ValidatorUpdates)
	c.setHist[c.Height+2] = copySet(c.ValSet)
	delete(c.setHist, c.Height-3)
	return res
}

func (c *Chain) Commit() []byte {
	defer guardApp("Commit")
	r := c.App.Commit()
	c.inBlock = false
	if c.Record {
		c.Blocks = append(c.Blocks, *c.cur)
	}
	return r.Data
}

// SetAt returns the validator set in effect for the given height.
func (c *Chain) SetAt(h int64) map[string]ValEntry { return c.setHist[h] }

// SignTx builds a real signed transaction.
func (c *Chain) SignTx(signers []*Acc, accNums, seqs []uint64, gas uint64, msgs ...sdk.Msg) []byte {
	return c.signTx(signers, accNums, seqs, gas, nil, msgs...)
}

// MakeTxFee is a transaction which pays for the gas.
func (c *Chain) MakeTxFee(gas uint64, fee int64, signer *Acc, msg sdk.Msg) []byte {
	var num, seq uint64
	if a := c.App.GetAccountKeeper().GetAccount(c.Ctx(), signer.Addr); a != nil {
		num, seq = a.GetAccountNumber(), a.GetSequence()
	}
	var coins sdk.Coins
	if fee != 0 {
		coins = sdk.NewCoins(sdk.NewInt64Coin("uartr", fee))
	}
	return c.signTx([]*Acc{signer}, []uint64{num}, []uint64{seq}, gas, coins, msg)
}

func (c *Chain) signTx(signers []*Acc, accNums, seqs []uint64, gas uint64, fee sdk.Coins, msgs ...sdk.Msg) []byte {
	cfg := c.EC.TxConfig
	b := cfg.NewTxBuilder()
	must(b.SetMsgs(msgs...))
	b.SetGasLimit(gas)
	b.SetFeeAmount(fee)
	mode := cfg.SignModeHandler().DefaultMode()
	sigs := make([]signing.SignatureV2, len(signers))
	for i, s := range signers {
		sigs[i] = signing.SignatureV2{PubKey: s.Priv.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seqs[i]}
	}
	must(b.SetSignatures(sigs...))
	for i, s := range signers {
		bz, err := cfg.SignModeHandler().GetSignBytes(mode, authsign.SignerData{ChainID: chainID, AccountNumber: accNums[i], Sequence: seqs[i]}, b.GetTx())
		must(err)
		sig, err := s.Priv.Sign(bz)
		must(err)
		sigs[i].Data.(*signing.SingleSignatureData).Signature = sig
	}
	must(b.SetSignatures(sigs...))
	bz, err := cfg.TxEncoder()(b.GetTx())
	must(err)
	return bz
}

// MakeTx signs msgs with the current account numbers and sequences of the given signers.
func (c *Chain) MakeTx(gas uint64, signers []*Acc, msgs ...sdk.Msg) []byte {
	ctx := c.Ctx()
	ak := c.App.GetAccountKeeper()
	nums := make([]uint64, len(signers))
	seqs := make([]uint64, len(signers))
	for i, s := range signers {
		if a := ak.GetAccount(ctx, s.Addr); a != nil {
			nums[i], seqs[i] = a.GetAccountNumber(), a.GetSequence()
		}
	}
	return c.SignTx(signers, nums, seqs, gas, msgs...)
}

func findSet(m map[string]ValEntry, addr []byte) (ValEntry, bool) {
	for _, v := range m {
		if bytes.Equal(v.Addr, addr) {
			return v, true
		}
	}
	return ValEntry{}, false
}

type Rng struct{ *rand.Rand }

func newRng(seed int64) *Rng { return &Rng{rand.New(rand.NewSource(seed))} }

func (r *Rng) chance(p float64) bool { return r.Float64() < p }
func (r *Rng) between(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + r.Int63n(b-a+1)
}
