//go:build testing
// +build testing

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	ed25519 "github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"
)

// ---- C01: the command line builds the transaction its arguments describe -----------------------------------------------

// cli is the artrd program with a scratch home directory.
type cli struct {
	bin, home string
	ec        app.EncodingConfig
	keys      map[string]*Acc
	names     []string
	w         *World
	node      *rpcNode
}

func (c *cli) run(stdin string, args ...string) (stdout, stderr string, ok bool) {
	cmd := exec.Command(c.bin, append(args, "--home", c.home)...)
	cmd.Env = append(os.Environ(), "HOME="+c.home)
	cmd.Dir = c.home
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	return o.String(), e.String(), err == nil
}

// newCli sets the program up to talk to the node, with keys of some accounts of the world.
func newCli(w *World) *cli {
	c := &cli{bin: os.Getenv("ARTRD"), keys: map[string]*Acc{}, ec: w.C.EC, w: w, node: serveRPC(w.C)}
	if c.bin == "" {
		panic("ARTRD isn't set: where is the artrd program?")
	}
	home, err := os.MkdirTemp("", "artrd-home")
	must(err)
	c.home, err = filepath.Abs(home)
	must(err)
	for _, kv := range [][2]string{{"chain-id", chainID}, {"node", c.node.addr}} {
		if _, e, ok := c.run("", "config", kv[0], kv[1]); !ok {
			panic("cannot configure " + kv[0] + ": " + e)
		}
	}
	for i, n := range []string{"ivan", "maria", "oleg-2"} {
		a := w.G.Accs[1+2*i]
		importKey(c.home, n, a)
		c.keys[n] = a
		c.names = append(c.names, n)
	}
	return c
}

func (c *cli) close() {
	c.node.close()
	os.RemoveAll(c.home)
}

// cliArgs makes up arguments; bad is set once one of them isn't what the usage asks for.
type cliArgs struct {
	*Rng
	c    *cli
	bad  string
	key  bool // the sender is named by a key
	from string
}

func (g *cliArgs) spoil() bool { return g.bad == "" && g.Intn(14) == 0 }

func (g *cliArgs) addr() string {
	if g.Intn(3) == 0 {
		return g.c.keys[g.c.names[g.Intn(len(g.c.names))]].B
	}
	bz := make([]byte, 20)
	g.Read(bz)
	return sdk.AccAddress(bz).String()
}

// sender makes up who sends it: what's written, and the address that's meant.
func (g *cliArgs) sender() string {
	if g.spoil() {
		g.bad = "sender"
		return []string{"nobody", "", "artrr1xx", "artrr1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"}[g.Intn(4)]
	}
	if g.key {
		n := g.c.names[g.Intn(len(g.c.names))]
		g.from = g.c.keys[n].B
		return n
	}
	g.from = g.addr()
	return g.from
}

// other makes up someone else.
func (g *cliArgs) other() string {
	if g.spoil() {
		g.bad = "address"
		return []string{"nobody", "artrr1xx", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", g.addr() + "q"}[g.Intn(4)]
	}
	return g.addr()
}

func (g *cliArgs) uint(bits uint) (string, uint64) {
	max := uint64(math.MaxUint64) >> (64 - bits)
	if g.spoil() {
		g.bad = fmt.Sprintf("uint%d", bits)
		over := strconv.FormatUint(max, 10)
		return []string{"abc", "1.5", "12abc", "1e3", "1,000", "5uartr", "7 8", over + "0", "-5", "½"}[g.Intn(10)], 0
	}
	x := []uint64{0, 1, max, max >> 1, max>>1 + 1, uint64(g.Intn(200)), uint64(g.Intn(100000)), g.Uint64()}[g.Intn(8)] & max
	return strconv.FormatUint(x, 10), x
}

func (g *cliArgs) int() (string, int64) {
	if g.spoil() {
		g.bad = "int64"
		return []string{"abc", "1.5", "12abc", "1e3", "9223372036854775808", "5uartr", "7 8"}[g.Intn(7)], 0
	}
	x := []int64{0, 1, math.MaxInt64, int64(g.Intn(200)), int64(g.Intn(100000)), int64(g.Uint64() >> 1)}[g.Intn(6)]
	return strconv.FormatInt(x, 10), x
}

func (g *cliArgs) frac(max int64) (string, util.Fraction) {
	if g.spoil() {
		g.bad = "fraction"
		return []string{"abc", "1/0", "1.5.2", "5%%", "1/2/3", "1/x", "%", "10 %"}[g.Intn(8)], util.Fraction{}
	}
	if x := 1 + int64(g.Intn(100)); g.Intn(2) == 0 {
		return fmt.Sprintf("%d%%", x), util.Percent(x)
	}
	d := 1 + int64(g.Intn(30))
	n := int64(g.Intn(int(d*max) + 1))
	return fmt.Sprintf("%d/%d", n, d), util.NewFraction(n, d)
}

func (g *cliArgs) time() (string, time.Time) {
	if g.spoil() {
		g.bad = "time"
		return []string{"tomorrow", "2023-13-01T00:00:00Z", "2023-01-01", "2023-01-01 00:00:00", "1"}[g.Intn(5)], time.Time{}
	}
	t := time.Unix(int64(g.Intn(4000000000)), 0).UTC()
	if g.Intn(3) == 0 {
		t = t.Add(time.Duration(g.Intn(1000)) * time.Millisecond)
	}
	return t.Format(time.RFC3339Nano), t
}

func (g *cliArgs) text() string {
	return []string{"a", "Upgrade to 3.0", "прибавить", `"quoted" \ <&>`, "100%", "name;with,many:marks", "🙂", "  spaces  "}[g.Intn(8)] + fmt.Sprint(g.Intn(1000))
}

// nick makes up a nickname, rarely one that won't do.
func (g *cliArgs) nick() string {
	if g.Intn(12) == 0 {
		return []string{"two words", "ARTR-me", "", "x", "tab\tbed"}[g.Intn(5)]
	}
	return []string{"Ivan", "IVAN", "ivan", "ИванIV", "O'Neil", "ivan_the_great-", "nick@name", "Ñandú", "имя"}[g.Intn(9)] + fmt.Sprint(g.Intn(1000))
}

func (g *cliArgs) yes() (string, bool) {
	b := g.Intn(2) == 0
	return map[bool]string{true: "yes", false: "no"}[b], b
}

type cliCmd struct {
	names []string
	make  func(g *cliArgs) ([]string, sdk.Msg)
}

type cliModule struct {
	names []string
	cmds  []cliCmd
}

func profCmd(names string, mk func(from string, x uint32) sdk.Msg) cliCmd {
	return cliCmd{strings.Fields(names), func(g *cliArgs) ([]string, sdk.Msg) {
		s := g.sender()
		a, x := g.uint(32)
		return []string{s, a}, mk(g.from, uint32(x))
	}}
}

func delegCmd(names string, mk func(acc sdk.AccAddress, x sdk.Int) sdk.Msg) cliCmd {
	return cliCmd{strings.Fields(names), func(g *cliArgs) ([]string, sdk.Msg) {
		s := g.sender()
		a, x := g.uint(64)
		acc, _ := sdk.AccAddressFromBech32(g.from)
		return []string{s, a}, mk(acc, sdk.NewIntFromUint64(x))
	}}
}

// propCmd is a command that proposes something: "<args> <proposal name> <author>".
func propCmd(names string, t voting.ProposalType, mk func(g *cliArgs, p *voting.Proposal) []string) cliCmd {
	return cliCmd{strings.Fields(names), func(g *cliArgs) ([]string, sdk.Msg) {
		s := g.sender()
		p := voting.Proposal{Author: g.from, Name: g.text(), Type: t}
		return append(mk(g, &p), p.Name, s), &voting.MsgPropose{Proposal: p}
	}}
}

func propAddr(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(g *cliArgs, p *voting.Proposal) []string {
		a := g.other()
		p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: a}}
		return []string{a}
	})
}

func propPrice(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(g *cliArgs, p *voting.Proposal) []string {
		a, x := g.uint(32)
		p.Args = &voting.Proposal_Price{Price: &voting.PriceArgs{Price: uint32(x)}}
		return []string{a}
	})
}

func propAmount(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(g *cliArgs, p *voting.Proposal) []string {
		a, x := g.int()
		p.Args = &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: x}}
		return []string{a}
	})
}

func propCount(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(g *cliArgs, p *voting.Proposal) []string {
		a, x := g.uint(32)
		p.Args = &voting.Proposal_Count{Count: &voting.CountArgs{Count: uint32(x)}}
		return []string{a}
	})
}

func propRevoke(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(g *cliArgs, p *voting.Proposal) []string {
		a, x := g.uint(32)
		b, f := g.frac(1)
		p.Args = &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &delegating.Revoke{Period: uint32(x), Burn: f}}}
		return []string{a, b}
	})
}

func propNothing(names string, t voting.ProposalType) cliCmd {
	return propCmd(names, t, func(*cliArgs, *voting.Proposal) []string { return nil })
}

var cliModules = []cliModule{
	{[]string{""}, []cliCmd{
		{[]string{"send"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s, to := g.sender(), g.other()
			f, _ := sdk.AccAddressFromBech32(g.from)
			t, _ := sdk.AccAddressFromBech32(to)
			var parts []string
			var coins sdk.Coins
			for _, d := range []string{"uartr", "uartrd"} {
				x := []int64{0, 1, math.MaxInt64, int64(g.Intn(200)), int64(g.Intn(100000)), int64(g.Uint64() >> 1)}[g.Intn(6)]
				if d == "uartrd" && g.Intn(2) == 0 || x == 0 && len(parts) > 0 {
					continue
				}
				parts, coins = append(parts, fmt.Sprintf("%d%s", x, d)), coins.Add(sdk.NewInt64Coin(d, x))
			}
			a := strings.Join(parts, ",")
			if g.spoil() {
				g.bad, a = "amount", []string{"abc", "12", "uartr", "-5uartr", "5uartr;6uartrd", "5uartr,6uartr", "1/2uartr"}[g.Intn(7)]
			}
			return []string{s, to, a}, bank.NewMsgSend(f, t, coins)
		}},
		{[]string{"burn"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			a, x := g.uint(64)
			return []string{s, a}, &bank.MsgBurn{Account: g.from, Amount: x}
		}},
	}},
	{[]string{"delegating", "d"}, []cliCmd{
		delegCmd("delegate d", func(a sdk.AccAddress, x sdk.Int) sdk.Msg {
			return &delegating.MsgDelegate{Address: a.String(), MicroCoins: x}
		}),
		delegCmd("revoke r u", func(a sdk.AccAddress, x sdk.Int) sdk.Msg {
			return &delegating.MsgRevoke{Address: a.String(), MicroCoins: x}
		}),
		delegCmd("express-revoke er eu", func(a sdk.AccAddress, x sdk.Int) sdk.Msg {
			return &delegating.MsgExpressRevoke{Address: a.String(), MicroCoins: x}
		}),
	}},
	{[]string{"earning", "e", "earn"}, []cliCmd{
		{[]string{"set"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			args, msg := []string{s}, &earning.MsgSetMultiple{Signer: g.from}
			for n := 1 + g.Intn(4); n > 0; n-- {
				e := earning.Earner{Account: g.other()}
				parts := []string{e.Account, "", ""}
				if g.Intn(3) > 0 {
					a, t := g.time()
					parts[1], e.Vpn = a, &t
				}
				if g.Intn(3) > 0 {
					a, t := g.time()
					parts[2], e.Storage = a, &t
				}
				if g.spoil() {
					g.bad = "parts"
					parts = parts[:2]
				}
				args, msg.Earners = append(args, strings.Join(parts, ";")), append(msg.Earners, e)
			}
			return args, msg
		}},
	}},
	{[]string{"noding"}, []cliCmd{
		{[]string{"on"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			bz := make([]byte, 32)
			g.Read(bz)
			pk := sdk.MustBech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, &ed25519.PubKey{Key: bz})
			if g.spoil() {
				g.bad = "node key"
				pk = []string{g.addr(), "x", pk[:len(pk)-1]}[g.Intn(3)]
			}
			return []string{s, pk}, &noding.MsgOn{Account: g.from, PubKey: pk}
		}},
		{[]string{"off"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			return []string{s}, &noding.MsgOff{Account: g.from}
		}},
		{[]string{"unjail"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			return []string{s}, &noding.MsgUnjail{Account: g.from}
		}},
	}},
	{[]string{"profile"}, []cliCmd{
		{strings.Fields("create_account create-account ca c"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			msg := &profile.MsgCreateAccount{Creator: g.from, Address: g.other(), Referrer: g.other()}
			args := []string{s, msg.Address, msg.Referrer}
			if g.Intn(3) > 0 {
				msg.Profile = &profile.Profile{}
				p := msg.Profile
				fs := map[string]*bool{"autopay": &p.AutoPay, "noding": &p.Noding, "storage": &p.Storage, "validator": &p.Validator, "vpn": &p.Vpn}
				names := []string{"nickname", "autopay", "noding", "storage", "validator", "vpn"}
				g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
				for _, n := range names[:1+g.Intn(6)] {
					if n == "nickname" {
						p.Nickname = g.nick()
						args = append(args, "nickname:"+p.Nickname)
						continue
					}
					a, b := g.yes()
					*fs[n] = b
					args = append(args, n+":"+a)
				}
				if g.spoil() {
					g.bad = "option"
					args = append(args, "vpn")
				}
			}
			return args, msg
		}},
		{strings.Fields("update u"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			msg := &profile.MsgUpdateProfile{Address: g.from}
			args := []string{s}
			fs := map[string]profile.MsgUpdateProfile_Update_Field{"autopay": profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, "noding": profile.MsgUpdateProfile_Update_FIELD_NODING, "storage": profile.MsgUpdateProfile_Update_FIELD_STORAGE,
				"validator": profile.MsgUpdateProfile_Update_FIELD_VALIDATOR, "vpn": profile.MsgUpdateProfile_Update_FIELD_VPN, "im_autopay": profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY}
			names := []string{"nickname", "autopay", "noding", "storage", "validator", "vpn", "im_autopay"}
			g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			for _, n := range names[:1+g.Intn(7)] {
				if n == "nickname" {
					x := g.nick()
					args = append(args, "nickname:"+x)
					msg.Updates = append(msg.Updates, profile.MsgUpdateProfile_Update{Field: profile.MsgUpdateProfile_Update_FIELD_NICKNAME, Value: &profile.MsgUpdateProfile_Update_String_{String_: x}})
					continue
				}
				a, b := g.yes()
				args = append(args, n+":"+a)
				msg.Updates = append(msg.Updates, profile.MsgUpdateProfile_Update{Field: fs[n], Value: &profile.MsgUpdateProfile_Update_Bool{Bool: b}})
			}
			if g.spoil() {
				g.bad = "option"
				args = append(args, "vpn")
			}
			return args, msg
		}},
		{strings.Fields("storage_current storage-current sc"), func(g *cliArgs) ([]string, sdk.Msg) {
			s, to := g.sender(), g.other()
			a, x := g.uint(64)
			return []string{s, to, a}, &profile.MsgSetStorageCurrent{Sender: g.from, Address: to, Value: x}
		}},
		{strings.Fields("vpn_current"), func(g *cliArgs) ([]string, sdk.Msg) {
			s, to := g.sender(), g.other()
			a, x := g.uint(64)
			return []string{s, to, a}, &profile.MsgSetVpnCurrent{Sender: g.from, Address: to, Value: x}
		}},
		profCmd("pay_tariff pay pt p", func(f string, x uint32) sdk.Msg { return &profile.MsgPayTariff{Address: f, StorageAmount: x} }),
		profCmd("buy_storage buy-storage bs", func(f string, x uint32) sdk.Msg { return &profile.MsgBuyStorage{Address: f, ExtraStorage: x} }),
		profCmd("give_up_storage give-up-storage gs", func(f string, x uint32) sdk.Msg { return &profile.MsgGiveStorageUp{Address: f, Amount: x} }),
		profCmd("buy_vpn buy-vpn bv", func(f string, x uint32) sdk.Msg { return &profile.MsgBuyVpn{Address: f, ExtraTraffic: x} }),
		profCmd("buy-im-extra buy_im_extra bix", func(f string, x uint32) sdk.Msg {
			return &profile.MsgBuyImExtraStorage{Address: f, ExtraStorage: x}
		}),
		profCmd("give-up-im-extra give_up_im_extra gix", func(f string, x uint32) sdk.Msg { return &profile.MsgGiveUpImExtra{Address: f, Amount: x} }),
		{strings.Fields("prolong-im-extra prolong_im_extra pix"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			return []string{s}, &profile.MsgProlongImExtra{Address: g.from}
		}},
		{strings.Fields("set_rate set-rate sr"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			a, f := g.frac(1000)
			return []string{s, a}, &profile.MsgSetRate{Sender: g.from, Value: f}
		}},
	}},
	{[]string{"referral", "ref", "r"}, []cliCmd{
		{strings.Fields("request-transition rt transit trans"), func(g *cliArgs) ([]string, sdk.Msg) {
			s, to := g.sender(), g.other()
			return []string{s, to}, &referral.MsgRequestTransition{Subject: g.from, Destination: to}
		}},
		{strings.Fields("resolve-transition resolve"), func(g *cliArgs) ([]string, sdk.Msg) {
			s, to := g.sender(), g.other()
			args, msg := []string{s, to}, &referral.MsgResolveTransition{Signer: g.from, Subject: to}
			if g.Intn(3) > 0 {
				a, b := g.yes()
				if g.spoil() {
					g.bad, a = "yes or no", []string{"maybe", "", "0", "yes no"}[g.Intn(4)]
				}
				args, msg.Decline = append(args, a), !b
			}
			return args, msg
		}},
	}},
	{[]string{"voting"}, []cliCmd{
		propPrice("set-subscription-price set_subscription_price ssp", voting.PROPOSAL_TYPE_ENTER_PRICE),
		propAddr("add-governor add_governor ag", voting.PROPOSAL_TYPE_GOVERNMENT_ADD),
		propAddr("remove-governor remove_governor rg", voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE),
		propPrice("set-vpn-gb-price set_vpn_gb_price svgp", voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE),
		propPrice("set-storage-gb-price set_storage_gb_price ssgp", voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE),
		propAddr("add-free-creator add_free_creator afc", voting.PROPOSAL_TYPE_FREE_CREATOR_ADD),
		propAddr("remove-free-creator remove_free_creator rfc", voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE),
		propCmd("upgrade-software upgrade_software upgrade us", voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE, func(g *cliArgs, p *voting.Proposal) []string {
			a, t := g.time()
			u := &voting.SoftwareUpgradeArgs{Name: fmt.Sprintf("%d.0.0", g.Intn(10)), Time: &t, Info: "https://example.com/info.json?checksum=sha256:e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"}
			p.Args = &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: u}
			return []string{u.Name, a, u.Info}
		}),
		propNothing("cancel-upgrade-software cancel-upgrade cancel_upgrade_software cus", voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE),
		propAddr("add-staff-validator add_staff_validator asv", voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD),
		propAddr("remove-staff-validator remove_staff_validator rsv", voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE),
		propAddr("add-earning-signer add_earning_signer aes", voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD),
		propAddr("remove-earning-signer remove_earning_signer res", voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE),
		propAddr("add-exchange-rate-signer add_exchange_rate_signer axrs", voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD),
		propAddr("remove-exchange-rate-signer remove_exchange_rate_signer rxrs", voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE),
		propAddr("add-vpn-current-signer add_vpn_current_signer avcs", voting.PROPOSAL_TYPE_VPN_SIGNER_ADD),
		propAddr("remove-vpn-current-signer remove_vpn_current_signer rvcs", voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE),
		propPrice("set-account-transition-price set_account_transition_price satp", voting.PROPOSAL_TYPE_TRANSITION_PRICE),
		propAmount("set-min-send set_min_send sms", voting.PROPOSAL_TYPE_MIN_SEND),
		propAmount("set-min-delegate set_min_delegate smd", voting.PROPOSAL_TYPE_MIN_DELEGATE),
		propCount("set-max-validators set_max_validators smv", voting.PROPOSAL_TYPE_MAX_VALIDATORS),
		propCount("set-lottery-validators set_lottery_validators slv", voting.PROPOSAL_TYPE_LUCKY_VALIDATORS),
		propNothing("general-amnesty general_amnesty", voting.PROPOSAL_TYPE_GENERAL_AMNESTY),
		propCmd("set-validator-min-criteria set_validator_min_criteria svmc", voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA, func(g *cliArgs, p *voting.Proposal) []string {
			st := 1 + g.Intn(8)
			a, x := g.uint(64)
			b, y := g.uint(64)
			p.Args = &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &noding.MinCriteria{Status: referral.Status(st), SelfStake: x, TotalStake: y}}}
			return []string{fmt.Sprint(st), a, b}
		}),
		propCount("set-jail-after set_jail_after sja", voting.PROPOSAL_TYPE_JAIL_AFTER),
		propAmount("set-dust-delegation set_dust_delegation sdd", voting.PROPOSAL_TYPE_DUST_DELEGATION),
		propCmd("set-voting-power set_voting_power svp", voting.PROPOSAL_TYPE_VOTING_POWER, func(g *cliArgs, p *voting.Proposal) []string {
			var d noding.Distribution
			var args []string
			left := int64(100)
			for n := 1 + g.Intn(3); left > 0; n-- {
				x := left
				if n > 1 && left > 1 {
					x = 1 + int64(g.Intn(int(left)))
				}
				left -= x
				a, y := g.int()
				if y > math.MaxInt64/1000 {
					y = 9
					a = "9"
				}
				d.Slices = append(d.Slices, noding.Distribution_Slice{Part: util.Percent(x), VotingPower: y})
				sep := ":"
				if g.spoil() {
					g.bad, sep = "slice", "="
				}
				args = append(args, fmt.Sprintf("%d%%%s%s", x, sep, a))
			}
			a, x := g.int()
			d.LuckiesVotingPower = x
			p.Args = &voting.Proposal_VotingPower{VotingPower: &d}
			return append(args, a)
		}),
		propCmd("set-transaction-fee set_transaction_fee stf", voting.PROPOSAL_TYPE_TRANSACTION_FEE, func(g *cliArgs, p *voting.Proposal) []string {
			a, f := g.frac(1)
			p.Args = &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: f}}
			return []string{a}
		}),
		propAmount("set-max-transaction-fee set_max_transaction_fee smtf", voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE),
		propCmd("set-transaction-fee-split-ratios set_transaction_fee_split_ratios stfsr", voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, func(g *cliArgs, p *voting.Proposal) []string {
			a, f := g.frac(1)
			b, h := g.frac(1)
			p.Args = &voting.Proposal_Portions{Portions: &voting.PortionsArgs{Fractions: []util.Fraction{f, h}}}
			return []string{a, b}
		}),
		propCmd("set-accrue-percentage-table set_accrue_percentage_table sapt", voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE, func(g *cliArgs, p *voting.Proposal) []string {
			t := &voting.AccruePercentageTableArgs{}
			var args []string
			start := uint64(0)
			for n := 1 + g.Intn(4); n > 0; n-- {
				row, arg := delegating.PercentageListRange{Start: start}, []string{fmt.Sprint(start)}
				for i := 0; i < 5; i++ {
					a, f := g.frac(1)
					arg, row.PercentList = append(arg, a), append(row.PercentList, f)
				}
				if g.spoil() {
					g.bad, arg = "row", arg[:5]
				}
				t.AccruePercentageTable, args = append(t.AccruePercentageTable, row), append(args, strings.Join(arg, ":"))
				start += uint64(1 + g.Intn(1000000000000))
			}
			p.Args = &voting.Proposal_AccruePercentageTable{AccruePercentageTable: t}
			return args
		}),
		propAddr("add-blocked-sender add_blocked_sender abs", voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD),
		propAddr("remove-blocked-sender remove_blocked_sender rbs", voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE),
		propRevoke("set-revoke set_revoke sr", voting.PROPOSAL_TYPE_REVOKE),
		propRevoke("set-express-revoke set_express_revoke ser", voting.PROPOSAL_TYPE_EXPRESS_REVOKE),
		{[]string{"vote"}, func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			agree := g.Intn(2) == 0
			a := map[bool]string{true: "agree", false: "disagree"}[agree]
			if g.spoil() {
				g.bad, a = "vote", []string{"yes", "abstain", "", "agreed"}[g.Intn(4)]
			}
			return []string{a, s}, &voting.MsgVote{Voter: g.from, Agree: agree}
		}},
		{strings.Fields("start-poll start_poll sp"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			p := voting.Poll{Author: g.from, Name: g.text(), Question: g.text()}
			req := "validators"
			switch st := referral.Status(1 + g.Intn(7)); g.Intn(4) {
			case 0:
				p.Requirements = &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}
			case 1:
				p.Requirements, req = &voting.Poll_MinStatus{MinStatus: st}, fmt.Sprintf("status:%d", st)
			case 2:
				p.Requirements, req = &voting.Poll_MinStatus{MinStatus: st}, "status:"+strings.TrimPrefix(st.String(), "STATUS_")
			default:
				p.Requirements, req = &voting.Poll_MinStatus{MinStatus: st}, "status:"+strings.ToLower(strings.TrimPrefix(st.String(), "STATUS_"))
			}
			if g.spoil() {
				g.bad, req = "requirements", []string{"everyone", "", "status:", "status:99", "status:king", "validators3", "xstatus:3", "status:3x", "3"}[g.Intn(9)]
			}
			args := []string{s, req, p.Name, p.Question}
			if g.Intn(2) == 0 {
				a, f := g.frac(1)
				p.Quorum, args = &f, append(args, a)
			}
			return args, &voting.MsgStartPoll{Poll: p}
		}},
		{strings.Fields("answer ans a answer-poll answer_poll"), func(g *cliArgs) ([]string, sdk.Msg) {
			s := g.sender()
			a, b := g.yes()
			if g.spoil() {
				g.bad, a = "answer", []string{"y", "agree", "", "yes no"}[g.Intn(4)]
			}
			return []string{a, s}, &voting.MsgAnswerPoll{Respondent: g.from, Yes: b}
		}},
	}},
}

// canonical is what a message says, however its fractions are written down.
func canonical(msg sdk.Msg) string {
	c := cloneMsg(msg)
	if c == nil {
		return "(cannot be encoded)"
	}
	var ls []leaf
	leaves("", reflect.ValueOf(c).Elem(), &ls)
	for _, l := range ls {
		if f, ok := l.v.Interface().(util.Fraction); ok && !f.IsNullValue() {
			l.v.Set(reflect.ValueOf(f.Reduce()))
		}
	}
	bz, err := proto.Marshal(c.(proto.Message))
	must(err)
	return fmt.Sprintf("%T %x", c, bz)
}

func validBasic(msg sdk.Msg) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return msg.ValidateBasic()
}

var txHashRe = regexp.MustCompile(`(?m)^txhash: "?([0-9A-F]{64})"?$`)

// verify tells if the network would take the signature for the account's.
func (c *cli) verify(tx sdk.Tx, a *Acc) error {
	sigs, err := tx.(authsign.SigVerifiableTx).GetSignaturesV2()
	if err != nil {
		return err
	}
	if len(sigs) != 1 {
		return fmt.Errorf("%d signatures, not one", len(sigs))
	}
	acc := c.w.C.App.GetAccountKeeper().GetAccount(c.w.C.Ctx(), a.Addr)
	if sigs[0].Sequence != acc.GetSequence() {
		return fmt.Errorf("sequence %d, expected %d", sigs[0].Sequence, acc.GetSequence())
	}
	return authsign.VerifySignature(a.Priv.PubKey(), authsign.SignerData{ChainID: chainID, AccountNumber: acc.GetAccountNumber(), Sequence: acc.GetSequence()}, sigs[0].Data, c.ec.TxConfig.SignModeHandler(), tx)
}

func cliCase(rep *Report, c *cli, m cliModule, cmd cliCmd, seed int64, k int) {
	g := &cliArgs{Rng: newRng(seed), c: c}
	g.key = g.Intn(3) == 0
	args, want := cmd.make(g)
	var path []string
	if n := m.names[k%len(m.names)]; n != "" {
		path = append(path, n)
	}
	name := cmd.names[k%len(cmd.names)]
	argv := append(append([]string{"tx"}, append(path, name)...), args...)
	var fee sdk.Coins
	gas, memo, timeout := uint64(200000), "", uint64(0)
	if g.Intn(3) == 0 {
		memo = g.text()
		argv = append(argv, "--memo", memo)
	}
	if g.Intn(3) == 0 {
		fee = sdk.NewCoins(sdk.NewInt64Coin("uartr", int64(1+g.Intn(1000))))
		argv = append(argv, "--fees", fee.String())
	}
	if g.Intn(3) == 0 {
		gas = uint64(1 + g.Intn(1000000))
		argv = append(argv, "--gas", fmt.Sprint(gas))
	}
	if g.Intn(3) == 0 {
		timeout = uint64(1 + g.Intn(1000000))
		argv = append(argv, "--timeout-height", fmt.Sprint(timeout))
	}
	mode := "generate"
	if g.key {
		mode = []string{"send", "decline"}[g.Intn(2)]
	}
	var o, e string
	var ok bool
	switch mode {
	case "generate":
		o, e, ok = c.run("", append(argv, "--generate-only", "--offline")...)
	case "decline":
		o, e, ok = c.run("n\n", append(argv, "--keyring-backend", "test")...)
	case "send":
		o, e, ok = c.run("", append(argv, "--keyring-backend", "test", "-y")...)
	}
	valid := g.bad == ""
	why := "a wrong " + g.bad
	if valid {
		if err := validBasic(want); err != nil {
			valid, why = false, err.Error()
		}
	}
	var tx sdk.Tx
	var js string
	hash := txHashRe.FindStringSubmatch(o)
	if mode == "send" {
		if hash != nil {
			var err error
			if tx, err = c.ec.TxConfig.TxDecoder()(c.node.tx(hash[1])); err != nil {
				tx = nil
			} else {
				bz, _ := c.ec.TxConfig.TxJSONEncoder()(tx)
				js = string(bz)
			}
		}
	} else {
		for _, l := range strings.Split(o+"\n"+e, "\n") {
			if strings.HasPrefix(l, `{"body"`) {
				js = l
				var err error
				if tx, err = c.ec.TxConfig.TxJSONDecoder()([]byte(js)); err != nil {
					tx = nil
				}
			}
		}
	}
	full := strings.Join(argv, " ")
	rep.Eval("%v/%s/%s/%v/%v/%v", path, name, g.bad, valid, mode, len(args))
	who := strings.TrimSpace(m.names[0] + " " + cmd.names[0])
	rep.Count("command "+who, 1)
	if mode != "send" && hash != nil {
		rep.Violate(nil, "cli:sent anyway:"+who, "artrd %s: the transaction was sent out (%s)", full, mode)
	}
	if !valid {
		rep.Count("refused", 1)
		if tx != nil {
			rep.Violate(nil, "cli:not refused:"+who, "artrd %s: there's %s there, but it makes a transaction: %s", full, why, js)
		}
		return
	}
	if tx == nil {
		rep.Violate(nil, "cli:refused:"+who, "artrd %s: no transaction comes out of it (ok: %v): %s", full, ok, clip(strings.SplitN(o+e, "\n", 2)[0], 300))
		return
	}
	rep.Count("built", 1)
	rep.Count("built, "+mode, 1)
	rep.Count("built, "+who, 1)
	if msgs := tx.GetMsgs(); len(msgs) != 1 || canonical(msgs[0]) != canonical(want) {
		w, _ := json.Marshal(want)
		rep.Violate(nil, "cli:message:"+who, "artrd %s: it's %s, expected %T %s", full, js, want, w)
	}
	ft := tx.(sdk.FeeTx)
	if !ft.GetFee().IsEqual(fee) || ft.GetGas() != gas || tx.(sdk.TxWithMemo).GetMemo() != memo || tx.(interface{ GetTimeoutHeight() uint64 }).GetTimeoutHeight() != timeout {
		rep.Violate(nil, "cli:flags:"+who, "artrd %s: it's %s, expected fee %s, gas %d, memo %q, timeout %d", full, js, fee, gas, memo, timeout)
	}
	if mode == "send" {
		if err := c.verify(tx, c.w.acc(g.from)); err != nil {
			rep.Violate(nil, "cli:signature:"+who, "artrd %s: %s: %v", full, js, err)
		}
	}
	if k == 0 {
		rep.Sample(map[string]interface{}{"command": full, "transaction": json.RawMessage(js)})
	}
}

func init() {
	register(Check{
		ID:   "C01",
		Rule: "one evaluation per run of the artrd program with one tx command; distinct by command, name it's called by, what's wrong with the arguments, whether it should work, key or address",
		Run: func(rep *Report, thorough bool, seed int64) {
			w := newWorld(mixedWorkloads(seed+31, 1, 30, 8)[0], rep)
			w.Run()
			c := newCli(w)
			defer c.close()
			per := 16
			if thorough {
				per = 200
			}
			type job struct{ m, cmd, k int }
			var jobs []job
			for i, m := range cliModules {
				for j := range m.cmds {
					for k := 0; k < per; k++ {
						jobs = append(jobs, job{i, j, k})
					}
				}
			}
			ch := make(chan int)
			go func() {
				for i := range jobs {
					ch <- i
				}
				close(ch)
			}()
			parallel(workers, func(int) {
				for i := range ch {
					j := jobs[i]
					cliCase(rep, c, cliModules[j.m], cliModules[j.m].cmds[j.cmd], seed*1000003+int64(i), j.k)
				}
			})
			rep.Need("built", int64(len(jobs)/3))
			rep.Need("built, send", 50)
			rep.Need("built, decline", 50)
			rep.Need("refused", 100)
		},
	})
}
