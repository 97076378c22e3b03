//go:build testing
// +build testing

package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"sync"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/bytes"
	"github.com/tendermint/tendermint/libs/log"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	rpcserver "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/cosmos/cosmos-sdk/crypto"
	"github.com/cosmos/cosmos-sdk/crypto/keyring"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// rpcNode answers the Tendermint RPC calls client programs make, from one application.
type rpcNode struct {
	mu   sync.Mutex
	c    *Chain
	addr string
	srv  *http.Server
	sent map[string][]byte // transactions that were broadcast, by hash
}

func serveRPC(c *Chain) *rpcNode {
	n := &rpcNode{c: c, sent: map[string][]byte{}}
	mux := http.NewServeMux()
	broadcast := func(_ *rpctypes.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTx, error) {
		n.mu.Lock()
		defer n.mu.Unlock()
		n.sent[fmt.Sprintf("%X", tx.Hash())] = tx
		return &coretypes.ResultBroadcastTx{Hash: tx.Hash()}, nil
	}
	rpcserver.RegisterRPCFuncs(mux, map[string]*rpcserver.RPCFunc{
		"abci_query": rpcserver.NewRPCFunc(func(_ *rpctypes.Context, path string, data bytes.HexBytes, height int64, prove bool) (*coretypes.ResultABCIQuery, error) {
			n.mu.Lock()
			defer n.mu.Unlock()
			return &coretypes.ResultABCIQuery{Response: n.c.App.Query(abci.RequestQuery{Path: path, Data: data, Height: height, Prove: prove})}, nil
		}, "path,data,height,prove"),
		"broadcast_tx_sync":  rpcserver.NewRPCFunc(broadcast, "tx"),
		"broadcast_tx_async": rpcserver.NewRPCFunc(broadcast, "tx"),
	}, log.NewNopLogger())
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	n.addr = "tcp://" + l.Addr().String()
	n.srv = &http.Server{Handler: mux}
	go n.srv.Serve(l)
	return n
}

// tx is what was broadcast.
func (n *rpcNode) tx(hash string) []byte {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.sent[hash]
}

func (n *rpcNode) close() { n.srv.Close() }

// importKey puts a key into the keyring in the directory.
func importKey(home, name string, a *Acc) {
	kb, err := keyring.New(sdk.KeyringServiceName(), keyring.BackendTest, home, os.Stdin)
	must(err)
	must(kb.ImportPrivKey(name, crypto.EncryptArmorPrivKey(a.Priv, "12345678", "secp256k1"), "12345678"))
}
