//go:build testing
// +build testing

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gogo/protobuf/proto"

	abcicli "github.com/tendermint/tendermint/abci/client"
	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
)

// ---- C03: the node program keeps the chain, and heeds its operator -----------------------------------------------------

// patience is how long the program may take to do anything at all before the run is given up as inconclusive.
const patience = 240 * time.Second

// nodeProg is `artrd start`, run as the application of a consensus engine which is us.
type nodeProg struct {
	home string
	cmd  *exec.Cmd
	cli  abcicli.Client
	out  *lockedBuf
	done chan struct{}
	runs int
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *lockedBuf) tail() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	s := b.b.String()
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// opSettings is what the operator wants of the node.
type opSettings struct {
	Pruning                 string
	Recent, Every, Interval int64
	MinGas                  string
	HaltHeight, HaltTime    int64
	Cache                   bool
	Way                     string // file | flags | env: how the node is told
}

func (s opSettings) values() map[string]string {
	return map[string]string{
		"pruning": s.Pruning, "pruning-keep-recent": fmt.Sprint(s.Recent), "pruning-keep-every": fmt.Sprint(s.Every), "pruning-interval": fmt.Sprint(s.Interval),
		"minimum-gas-prices": s.MinGas, "halt-height": fmt.Sprint(s.HaltHeight), "halt-time": fmt.Sprint(s.HaltTime), "inter-block-cache": fmt.Sprint(s.Cache),
	}
}

// runArtrd runs the program to its end.
func runArtrd(home string, args ...string) (stdout, stderr string, ok bool) {
	cmd := exec.Command(os.Getenv("ARTRD"), append(args, "--home", home)...)
	cmd.Env = append(os.Environ(), "HOME="+home)
	cmd.Dir = home
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	return o.String(), e.String(), err == nil
}

// configure writes the settings down in app.toml.
func (p *nodeProg) configure(s opSettings) {
	file := filepath.Join(p.home, "config", "app.toml")
	bz, err := os.ReadFile(file)
	must(err)
	text := string(bz)
	for k, v := range s.values() {
		re := regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(k) + ` *=.*$`)
		if n := len(re.FindAllString(text, -1)); n != 1 {
			panic(fmt.Sprintf("app.toml has %d lines for %s", n, k))
		}
		q := v
		if k != "halt-height" && k != "halt-time" && k != "inter-block-cache" {
			q = `"` + v + `"`
		}
		text = re.ReplaceAllString(text, k+" = "+q)
	}
	must(os.WriteFile(file, []byte(text), 0o644))
}

// start starts the program; it returns false if the program ends instead of serving.
func (p *nodeProg) start(s opSettings) bool {
	args := []string{"start", "--with-tendermint=false", "--transport", "socket", "--home", p.home}
	env := append(os.Environ(), "HOME="+p.home)
	switch s.Way {
	case "file":
		p.configure(s)
	default:
		p.configure(opSettings{Pruning: "nothing", Cache: true})
		for k, v := range s.values() {
			if s.Way == "flags" {
				args = append(args, "--"+k+"="+v)
			} else {
				env = append(env, "ARTRD_"+strings.ToUpper(strings.ReplaceAll(k, "-", "_"))+"="+v)
			}
		}
	}
	p.runs++
	sock := filepath.Join(p.home, fmt.Sprintf("s%d", p.runs))
	args = append(args, "--address", "unix://"+sock)
	p.out = &lockedBuf{}
	p.cmd = exec.Command(os.Getenv("ARTRD"), args...)
	p.cmd.Env, p.cmd.Dir = env, p.home
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	done := make(chan struct{})
	go func(c *exec.Cmd) {
		c.Wait()
		close(done)
	}(p.cmd)
	p.done = done
	for till := time.Now().Add(patience); ; {
		p.cli = abcicli.NewSocketClient("unix://"+sock, true)
		if p.cli.Start() == nil {
			return true
		}
		select {
		case <-done:
			return false
		case <-time.After(10 * time.Millisecond):
		}
		if time.Now().After(till) {
			panic(gaveUp("the node doesn't start to serve"))
		}
	}
}

// gaveUp is what a run is ended with which says nothing.
type gaveUp string

// stop ends the program: by a signal it can handle, or at once.
func (p *nodeProg) stop(sig syscall.Signal) {
	if p.cmd == nil {
		return
	}
	p.cmd.Process.Signal(sig)
	if !p.ended() {
		p.cmd.Process.Kill()
		<-p.done
	}
	p.forget()
}

func (p *nodeProg) forget() {
	p.cli.Stop()
	p.cmd = nil
}

// ended waits for the program to end.
func (p *nodeProg) ended() bool {
	select {
	case <-p.done:
		return true
	case <-time.After(patience):
		return false
	}
}

// call asks the program something, but not forever.
func (p *nodeProg) call(f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err := <-ch:
		return err
	case <-time.After(patience):
		panic(gaveUp("the node doesn't answer"))
	}
}

// monReal has the program execute what the world executes, and compares.
type monReal struct {
	NopMonitor
	r      *Rng
	p      *nodeProg
	set    opSettings
	crashP float64
	calm   bool // nothing has crashed during a commit yet
	whole  bool // and nothing will
	hashes map[int64][]byte
	blocks []BlockIn // committed ones
	outs   [][]string
	cur    []string // what the block in progress has answered
	gen    abci.RequestInitChain
}

func stable(m proto.Message) string {
	switch x := m.(type) {
	case *abci.ResponseDeliverTx:
		y := *x
		y.Log = "" // not part of what nodes agree upon
		m = &y
	}
	return m.String()
}

// lost is what the run ends with once the node is gone for good.
type lost struct{}

func (m *monReal) fail(w *World, sig, f string, a ...interface{}) {
	w.Rep.Violate(w, sig, "%s\nsettings %+v, the node's last words: %q", fmt.Sprintf(f, a...), m.set, m.p.out.tail())
	panic(lost{})
}

func (m *monReal) Start(w *World) {
	m.hashes = map[int64][]byte{}
	m.calm = true
	if !m.p.start(m.set) {
		m.fail(w, "start", "the node doesn't start with a new chain")
	}
	m.initChain(w)
	w.Rep.Eval("chain started, %s", m.set.Way)
}

func (m *monReal) initChain(w *World) {
	var res *abci.ResponseInitChain
	if err := m.p.call(func() (err error) { res, err = m.p.cli.InitChainSync(m.gen); return }); err != nil {
		m.fail(w, "init", "the node cannot start the chain: %v", err)
	}
	if got, want := res.String(), w.Init.String(); got != want {
		m.fail(w, "init", "the node starts the chain with %s, not with %s", got, want)
	}
}

// feed gives the program one step of the block, and compares the answers with the application's.
func (m *monReal) feed(w *World, what string, want string, f func() (string, error)) {
	var got string
	if err := m.p.call(func() (err error) { got, err = f(); return }); err != nil {
		m.fail(w, "dead", "height %d: the node breaks down in %s: %v", w.C.Height, what, err)
	}
	if got != want {
		m.fail(w, "differs", "height %d: the node answers %s with %s, not with %s", w.C.Height, what, got, want)
	}
}

func (m *monReal) begin(w *World, b *BlockIn, want string) {
	m.feed(w, "BeginBlock", want, func() (string, error) {
		c := &Chain{Height: b.Height, Time: b.Time, cur: b}
		r, err := m.p.cli.BeginBlockSync(abci.RequestBeginBlock{Header: c.header(), LastCommitInfo: abci.LastCommitInfo{Votes: b.Votes}, ByzantineValidators: b.Evidence})
		if err != nil {
			return "", err
		}
		return stable(r), nil
	})
}

func (m *monReal) deliver(w *World, tx []byte, want string) {
	m.feed(w, "DeliverTx", want, func() (string, error) {
		r, err := m.p.cli.DeliverTxSync(abci.RequestDeliverTx{Tx: tx})
		if err != nil {
			return "", err
		}
		return stable(r), nil
	})
}

func (m *monReal) end(w *World, h int64, want string) {
	m.feed(w, "EndBlock", want, func() (string, error) {
		r, err := m.p.cli.EndBlockSync(abci.RequestEndBlock{Height: h})
		if err != nil {
			return "", err
		}
		return stable(r), nil
	})
}

func (m *monReal) commit(w *World, h int64) {
	m.feed(w, "Commit", fmt.Sprintf("%X", m.hashes[h]), func() (string, error) {
		r, err := m.p.cli.CommitSync()
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%X", r.Data), nil
	})
}

func (m *monReal) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.maybeCrash(w, "between blocks")
	m.begin(w, w.C.cur, stable(&res))
	m.cur = []string{stable(&res)}
	m.maybeCrash(w, "after BeginBlock")
}

func (m *monReal) Tx(w *World, pre, post *Snap, tx *TxRec) {
	m.deliver(w, tx.Raw, stable(&tx.Res))
	m.cur = append(m.cur, stable(&tx.Res))
	w.Rep.Count("txs", 1)
	m.maybeCrash(w, "after DeliverTx")
}

func (m *monReal) EndBlock(w *World, pre, post *Snap, res abci.ResponseEndBlock) {
	m.end(w, w.C.Height, stable(&res))
	m.cur = append(m.cur, stable(&res))
	m.maybeCrash(w, "after EndBlock")
}

func (m *monReal) Commit(w *World, s *Snap) {
	h := w.C.Height
	m.hashes[h] = w.C.App.LastCommitID().Hash
	m.blocks = append(m.blocks, w.C.Blocks[len(w.C.Blocks)-1])
	m.outs = append(m.outs, m.cur)
	m.cur = nil
	if h > 1 && m.set.Recent > 0 && !m.whole && m.r.chance(2*m.crashP) {
		// the node dies while it's at it (not with the very first block, nor while it keeps nothing but the latest state: the
		// database of the Cosmos SDK isn't made for these)
		m.p.cli.CommitAsync()
		m.p.cli.FlushAsync()
		time.Sleep(time.Duration(m.r.Int63n(int64(4 * time.Millisecond))))
		m.p.stop(syscall.SIGKILL)
		m.calm = false
		m.reset(w)
		if m.back(w, h-1, h) == h {
			w.Rep.Count("killed during Commit, committed", 1)
		} else {
			w.Rep.Count("killed during Commit, not committed", 1)
		}
		w.Rep.Eval("killed during Commit, %s", m.set.Pruning)
	} else if m.halts(w) {
		// it may not get to answering
		var res *abci.ResponseCommit
		if m.p.call(func() (err error) { res, err = m.p.cli.CommitSync(); return }) == nil && !bytes.Equal(res.Data, m.hashes[h]) {
			m.fail(w, "differs", "height %d: the node answers Commit with %X, not with %X", h, res.Data, m.hashes[h])
		}
	} else {
		m.commit(w, h)
		w.Rep.Eval("block executed, %d transactions, %s", len(m.blocks[h-1].Txs), m.set.Pruning)
	}
	m.halt(w)
	m.past(w)
	m.price(w)
}

// halts tells whether the node has to stop after the last block.
func (m *monReal) halts(w *World) bool {
	return m.set.HaltHeight > 0 && w.C.Height >= m.set.HaltHeight || m.set.HaltTime > 0 && w.C.Time.Unix() >= m.set.HaltTime
}

// halt: the node stops when it's been told to and not before.
func (m *monReal) halt(w *World) {
	if !m.halts(w) {
		return
	}
	if !m.p.ended() {
		m.fail(w, "halt", "the node goes on after height %d, time %v", w.C.Height, w.C.Time)
	}
	m.p.forget()
	how := "height"
	if m.set.HaltHeight == 0 {
		how = "time"
	}
	w.Rep.Eval("halted by %s, told by %s", how, m.set.Way)
	w.Rep.Count("halted", 1)
	m.reset(w)
	m.back(w, w.C.Height, w.C.Height)
}

// reset makes the operator change the settings (before the node starts again).
func (m *monReal) reset(w *World) {
	m.set.HaltHeight, m.set.HaltTime = 0, 0
	if m.r.chance(0.5) {
		m.set.HaltHeight = w.C.Height + m.r.between(3, 12)
	} else if m.r.chance(0.5) {
		m.set.HaltTime = w.C.Time.Unix() + m.r.between(2, 10*int64(w.WL.Spec.Day/time.Second))
	}
	m.set.Cache = m.r.chance(0.5)
	m.set.Way = []string{"file", "flags", "env"}[m.r.Intn(3)]
	m.set.MinGas = []string{"", "0.01uartr", "0.000001uartr", "100uartr"}[m.r.Intn(4)]
}

// back starts the node again: it must be at one of the heights, and is given the blocks it has missed.
func (m *monReal) back(w *World, from, to int64) int64 {
	if !m.p.start(m.set) {
		m.fail(w, "start", "the node doesn't start again")
	}
	var info *abci.ResponseInfo
	if err := m.p.call(func() (err error) { info, err = m.p.cli.InfoSync(abci.RequestInfo{}); return }); err != nil {
		m.fail(w, "dead", "the node is started again but breaks down: %v", err)
	}
	h := info.LastBlockHeight
	if h < from || h > to {
		m.fail(w, "height", "the node is at height %d after a restart, not %d to %d", h, from, to)
	}
	if h > 0 && !bytes.Equal(info.LastBlockAppHash, m.hashes[h]) {
		m.fail(w, "hash", "the node has hash %X at height %d after a restart, not %X", info.LastBlockAppHash, h, m.hashes[h])
	}
	if h == 0 {
		m.initChain(w)
	}
	for i := h + 1; i <= to; i++ {
		m.again(w, &m.blocks[i-1], m.outs[i-1])
		m.end(w, i, m.outs[i-1][len(m.outs[i-1])-1])
		m.commit(w, i)
	}
	return h
}

// again has the node begin a block it's seen before.
func (m *monReal) again(w *World, b *BlockIn, outs []string) {
	m.begin(w, b, outs[0])
	for i, tx := range b.Txs {
		if i+1 < len(outs) {
			m.deliver(w, tx, outs[i+1])
		}
	}
}

// maybeCrash kills the node and starts it again, perhaps.
func (m *monReal) maybeCrash(w *World, when string) {
	if !m.r.chance(m.crashP) {
		return
	}
	sig, how := syscall.SIGKILL, "killed"
	if m.r.chance(0.4) {
		sig, how = syscall.SIGTERM, "stopped"
		if m.r.chance(0.5) {
			sig = syscall.SIGINT
		}
	}
	m.p.stop(sig)
	m.reset(w)
	last := int64(len(m.blocks))
	m.back(w, last, last)
	if m.cur != nil {
		m.again(w, w.C.cur, m.cur)
		if when == "after EndBlock" {
			m.end(w, w.C.Height, m.cur[len(m.cur)-1])
		}
	}
	w.Rep.Eval("%s %s, %s", how, when, m.set.Pruning)
	w.Rep.Count("restarts", 1)
}

// past asks the node about the past: what's to be kept is there, what isn't to be kept goes away.
func (m *monReal) past(w *World) {
	h := w.C.Height
	if h < 3 || !m.r.chance(0.6) {
		return
	}
	at := m.r.between(1, h-1)
	if m.set.Interval > 0 && m.r.chance(0.4) {
		at = h/m.set.Interval*m.set.Interval - m.set.Recent - m.r.between(1, 6)
	} else if m.set.Recent > 0 && m.r.chance(0.4) {
		at = h - m.set.Recent + m.r.between(-2, 2)
	}
	if at < 1 || at >= h {
		return
	}
	keep := m.set.Pruning == "nothing" || m.set.Pruning == "default" && at >= h-100 || m.set.Recent > 0 && at >= h-m.set.Recent ||
		m.set.Pruning == "custom" && m.set.Every > 0 && at%m.set.Every == 0
	gone := !keep && m.calm && m.set.Interval > 0 && at < h/m.set.Interval*m.set.Interval-m.set.Recent
	req := abci.RequestQuery{Path: "/artery.bank.v1beta1.Query/Supply", Height: at}
	var res *abci.ResponseQuery
	if err := m.p.call(func() (err error) { res, err = m.p.cli.QuerySync(req); return }); err != nil {
		m.fail(w, "dead", "the node breaks down because of a query: %v", err)
	}
	ref := w.C.App.Query(req)
	if ref.Code != 0 {
		panic("cannot ask: " + ref.Log)
	}
	switch {
	case res.Code == 0 && !bytes.Equal(res.Value, ref.Value):
		m.fail(w, "past", "at height %d the node answers about height %d with %X, not with %X", h, at, res.Value, ref.Value)
	case keep && res.Code != 0:
		m.fail(w, "kept", "at height %d the node doesn't know about height %d: %s", h, at, res.Log)
	case gone && res.Code == 0:
		m.fail(w, "pruned", "at height %d the node still knows about height %d", h, at)
	}
	w.Rep.Eval("asked about the past, %s, kept %t, gone %t", m.set.Pruning, keep, gone)
	w.Rep.Count("asked", 1)
	if gone {
		w.Rep.Count("asked about what's gone", 1)
	}
}

// price offers the node transactions which pay different gas prices.
func (m *monReal) price(w *World) {
	if !m.r.chance(0.3) {
		return
	}
	a := w.G.Accs[m.r.Intn(len(w.G.Accs))]
	gas := uint64(200_000)
	bal := w.S.main(a.B)
	if bal < 2_000_000_000 {
		return
	}
	fee := int64(0)
	if m.r.chance(0.7) {
		fee = []int64{1, 2, 3, 1999, 2000, 2001, 199_999_99, 20_000_000, 20_000_001}[m.r.Intn(9)]
	}
	need := map[string]int64{"": 0, "0.01uartr": 2000, "0.000001uartr": 1, "100uartr": 20_000_000}[m.set.MinGas]
	msg := bank.NewMsgSend(a.Addr, w.G.Accs[0].Addr, sdk.NewCoins(sdk.NewInt64Coin(util.ConfigMainDenom, 1_000_000)))
	tx := w.C.MakeTxFee(gas, fee, a, msg)
	var res *abci.ResponseCheckTx
	if err := m.p.call(func() (err error) { res, err = m.p.cli.CheckTxSync(abci.RequestCheckTx{Tx: tx}); return }); err != nil {
		m.fail(w, "dead", "the node breaks down because of a check: %v", err)
	}
	low := res.Codespace == "sdk" && res.Code == 13
	if low != (fee < need) {
		m.fail(w, "price", "the node wants %q and answers a transaction paying %d for %d gas with code %s/%d %s", m.set.MinGas, fee, gas, res.Codespace, res.Code, res.Log)
	}
	w.Rep.Eval("offered a fee, at least %q, enough %t", m.set.MinGas, fee >= need)
	w.Rep.Count("offered", 1)
	if low {
		w.Rep.Count("offered too little", 1)
	}
}

func (m *monReal) Finish(w *World) {
	sig := syscall.SIGTERM
	if m.r.chance(0.5) {
		sig = syscall.SIGKILL
	}
	m.p.stop(sig)
	m.export(w, -1)
	lo := w.C.Height - m.set.Recent // what's kept
	if m.set.Pruning == "nothing" || lo < 1 {
		lo = 1
	}
	for _, h := range []int64{lo, m.r.between(lo, w.C.Height), m.r.between(lo, w.C.Height), w.C.Height} {
		m.export(w, h)
	}
}

// export: the state the program writes out is that of the height it's asked for, and a chain can start with it.
func (m *monReal) export(w *World, at int64) {
	args := []string{"export"}
	if at != -1 {
		args = append(args, "--height", fmt.Sprint(at))
	}
	out, e, ok := runArtrd(m.p.home, args...)
	if !ok {
		m.fail(w, "export", "the node at height %d cannot export height %d: %s", w.C.Height, at, e)
	}
	var doc struct {
		ChainID  string          `json:"chain_id"`
		Initial  string          `json:"initial_height"`
		AppState json.RawMessage `json:"app_state"`
	}
	if err := json.Unmarshal([]byte(out), &doc); err != nil {
		m.fail(w, "export", "the export of height %d isn't JSON: %v", at, err)
	}
	h := at
	if h == -1 {
		h = w.C.Height
	}
	a := app.NewArteryApp(log.NewNopLogger(), w.C.DB, nil, false, 0, app.NewEncodingConfig())
	must(a.LoadHeight(h))
	x, err := a.ExportAppStateAndValidators(false, nil)
	must(err)
	if doc.Initial != fmt.Sprint(h+1) {
		m.fail(w, "export", "the export of height %d would start at height %s", h, doc.Initial)
	}
	if got, want := canonJSON(doc.AppState), canonJSON(x.AppState); got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		lo := i - 200
		if lo < 0 {
			lo = 0
		}
		m.fail(w, "export", "the export of height %d says …%.300s…, not …%.300s…", h, got[lo:], want[lo:])
	}
	file := filepath.Join(m.p.home, "exported.json")
	must(os.WriteFile(file, []byte(out), 0o644))
	var state struct {
		Noding struct {
			Active []json.RawMessage `json:"active"`
		} `json:"noding"`
	}
	must(json.Unmarshal(doc.AppState, &state))
	if len(state.Noding.Active) == 0 {
		w.Rep.Count("exported, nobody validates", 1) // no chain can go on without
	} else if _, e, ok := runArtrd(m.p.home, "validate-genesis", file); !ok {
		m.fail(w, "export", "the export of height %d isn't a genesis to start with: %s", h, e)
	}
	w.Rep.Eval("exported, latest %t", at == -1)
	w.Rep.Count("exported", 1)
}

func canonJSON(bz []byte) string {
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(bz))
	d.UseNumber()
	must(d.Decode(&x))
	res, err := json.Marshal(x)
	must(err)
	return string(res)
}

// newHome makes a home directory for a node of the chain.
func newHome(w *World) string {
	home, err := os.MkdirTemp("", "node")
	must(err)
	home, err = filepath.Abs(home)
	must(err)
	if _, e, ok := runArtrd(home, "init", "node", "--chain-id", chainID); !ok {
		panic("artrd init: " + e)
	}
	return home
}

func init() {
	register(Check{
		ID:   "C03",
		Rule: "one evaluation per block the program executed, restart, halt, query about the past, fee offered, export; distinct by circumstances and settings",
		Run: func(rep *Report, thorough bool, seed int64) {
			n, blocks, txs := 12, 45, 5
			if thorough {
				n, blocks = 60, 200
			}
			wls := mixedWorkloads(seed+57, n, blocks, txs)
			runParallel(rep, n, func(i int) *World {
				r := newRng(wls[i].Seed + 58)
				m := &monReal{r: r, p: &nodeProg{}, crashP: 0.03}
				switch i % 6 {
				case 0:
					m.set = opSettings{Pruning: "nothing"}
				case 1:
					m.set = opSettings{Pruning: "everything", Interval: 10}
				case 2:
					m.set = opSettings{Pruning: "default", Recent: 100, Every: 500, Interval: 10}
				case 3:
					m.set = opSettings{Pruning: "custom", Recent: r.between(2, 6), Every: 0, Interval: r.between(1, 5)}
				case 4:
					m.set = opSettings{Pruning: "custom", Recent: r.between(2, 20), Every: r.between(4, 9), Interval: r.between(1, 12)}
				default:
					m.set = opSettings{Pruning: "custom", Recent: r.between(10, 20), Every: 0, Interval: 10}
				}
				if i%12 < 6 {
					m.crashP = 0.015
				}
				m.whole = i%12 > 2 && i%12 < 6
				w := newWorld(wls[i], rep, m)
				w.C.Record = true
				return w
			}, func(w *World) {
				m := w.Mons[0].(*monReal)
				m.p.home = newHome(w)
				m.gen = abci.RequestInitChain{Time: w.G.Time, ChainId: chainID, ConsensusParams: consensusParams(), AppStateBytes: w.G.JSON}
				defer func() {
					if m.p.cmd != nil {
						m.p.cmd.Process.Kill()
						<-m.p.done
					}
					os.RemoveAll(m.p.home)
					switch e := recover().(type) {
					case nil, lost:
					case gaveUp:
						rep.Fatal("%s: %s (%s)", w.where(), string(e), m.p.out.tail())
					default:
						panic(e)
					}
				}()
				m.reset(w)
				w.Run()
			})
			rep.Need("restarts", 20)
			rep.Need("halted", 5)
			rep.Need("asked", 50)
			rep.Need("asked about what's gone", 10)
			rep.Need("offered", 20)
			rep.Need("offered too little", 5)
			rep.Need("exported", 10)
		},
	})
}
