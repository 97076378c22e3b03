//go:build testing
// +build testing

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	profile "github.com/arterynetwork/artr/x/profile/types"
)

const gb = uint64(util.GBSize)

// monProf watches profiles: identity (P01), subscription (P02), storage, VPN and messenger space (P03), and what is
// reserved for certain signers (E01).
type monProf struct {
	judge
	standstill bool // the chain has just stood still for long
}

func profActive(s *Snap, b string, now time.Time) bool {
	p := s.Prof[b]
	return p.ActiveUntil != nil && p.ActiveUntil.After(now)
}

func imActive(p profile.Profile, now time.Time) bool {
	return p.ImLimitExtra != 0 && p.ExtraImUntil != nil && p.ExtraImUntil.After(now)
}

// part is the part of a month that is left.
func part(s *Snap, till, now time.Time) *big.Rat {
	return new(big.Rat).SetFrac64(int64(till.Sub(now)), int64(month(s)))
}

func mulR(x ...*big.Rat) *big.Rat {
	r := ratI(1)
	for _, y := range x {
		r.Mul(r, y)
	}
	return r
}

// nickOk says whether a nickname may be used: sure is false where the rules are vague.
func nickOk(s *Snap, b, n string) (ok, sure bool) {
	if n == "" {
		return true, true
	}
	if strings.ContainsAny(n, " */:'\"=[],.") || len(n) < 3 {
		return false, true
	}
	if strings.HasPrefix(strings.ToUpper(n), "ARTR-") {
		return false, true
	}
	if strings.TrimSpace(n) != n {
		return false, false
	}
	for o, p := range s.Prof {
		if o != b && p.Nickname != "" && strings.ToLower(p.Nickname) == strings.ToLower(n) {
			return false, true
		}
	}
	return true, true
}

// expectation is what a transaction or a scheduled task must do.
type expectation struct {
	known   bool // the verdict is certain
	ok      bool
	why     string
	bal     Model
	prof    *profile.Profile // the subject's profile afterwards
	params  bool             // parameters change
	created bool
	event   string
	total   int64 // what the event must tell
	tasksIn []string
	taskOut []string
}

func refreshTask(h, b string, t time.Time) string {
	a, err := sdk.AccAddressFromBech32(b)
	must(err)
	return taskKey(h, t, a)
}

// tariff is what a month of subscription costs.
func tariff(s *Snap, b string, storageB uint64, now time.Time) (total, fee int64) {
	p, pr := s.P.Prof, s.Prof[b]
	rate := rat(p.TokenRate)
	base := uint64(p.BaseStorageGb) * gb
	t := mulTrunc(rate, int64(p.SubscriptionPrice))
	fee = txFee(s.P, t)
	gbs := func(from, to uint64) *big.Rat {
		return new(big.Rat).SetFrac(new(big.Int).Sub(new(big.Int).SetUint64(to), new(big.Int).SetUint64(from)), new(big.Int).SetUint64(gb))
	}
	price := ratI(int64(p.StorageGbPrice))
	st := mulR(rate, gbs(base, storageB), price)
	if profActive(s, b, now) && storageB != pr.StorageLimit {
		st.Add(st, mulR(rate, gbs(pr.StorageLimit, storageB), price, part(s, *pr.ActiveUntil, now)))
	}
	if st.Sign() < 0 { // having less than the base storage is no discount
		st = ratI(0)
	}
	x := truncRat(st)
	if !x.IsInt64() {
		return 1 << 60, fee
	}
	return t + x.Int64(), fee
}

// reset is what happens to limits and counters at the beginning of a month.
func reset(s *Snap, p *profile.Profile) {
	base := uint64(s.P.Prof.BaseVpnGb) * gb
	if p.VpnCurrent > base {
		if over := p.VpnCurrent - base; over < p.VpnLimit {
			p.VpnLimit -= over
		} else {
			p.VpnLimit = 0
		}
	}
	p.VpnCurrent = 0
	if p.VpnLimit < base {
		p.VpnLimit = base
	}
	if p.StorageLimit == 0 {
		p.StorageLimit = uint64(s.P.Prof.BaseStorageGb) * gb
	}
}

func newTime(t time.Time) *time.Time { return &t }

// predict tells what a message must do.
func (m *monProf) predict(w *World, s *Snap, msg sdk.Msg) (b string, e expectation, prop string) {
	e = expectation{bal: Model{}}
	now := w.C.Time
	pay := func(total, fee int64) bool {
		e.bal.add(b, dMain, -total)
		e.bal.add(s.P.Ref.CompanyAccounts.ForSubscription, dMain, total-fee)
		e.bal.add(splitAddr, dMain, fee)
		e.total = total
		return s.main(b) >= total
	}
	fail := func(why string) { e.known, e.ok, e.why = true, false, why }
	done := func() { e.known, e.ok = true, true }
	subject := func(a string) (profile.Profile, bool) {
		b = a
		p, ok := s.Prof[a]
		if ok {
			q := p
			e.prof = &q
		} else {
			fail("no profile")
		}
		return p, ok
	}
	switch x := msg.(type) {
	case *profile.MsgUpdateProfile:
		prop = "P01"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		if len(x.Updates) == 0 {
			fail("no updates")
			return
		}
		for _, u := range x.Updates {
			switch u.Field {
			case profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY:
				e.prof.AutoPay = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_NODING:
				e.prof.Noding = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_STORAGE:
				e.prof.Storage = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_VALIDATOR:
				e.prof.Validator = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_VPN:
				e.prof.Vpn = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY:
				e.prof.AutoPayImExtra = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_NICKNAME:
				e.prof.Nickname = u.GetString_()
				if n := e.prof.Nickname; n != "" && (strings.ContainsAny(n, " */:'\"=[],.") || len(n) < 3) {
					fail("nickname")
					return
				}
			}
		}
		n := e.prof.Nickname
		for _, u := range x.Updates {
			if u.Field == profile.MsgUpdateProfile_Update_FIELD_NICKNAME && u.GetString_() != n && strings.HasPrefix(strings.ToUpper(u.GetString_()), "ARTR-") {
				return // a reserved name that would be replaced within the same message
			}
		}
		if ok, sure := nickOk(s, b, n); !sure {
			return
		} else if !ok {
			fail("nickname")
			return
		}
		if n != p.Nickname && n != "" {
			e.bal.add(b, dMain, -1_000000)
			e.bal.add(feeAddr, dMain, 1_000000)
			if s.main(b) < 1_000000 {
				fail("funds")
				return
			}
		}
		done()
	case *profile.MsgCreateAccount:
		prop = "P01"
		b = x.Address
		if _, ok := s.Accs[b]; ok {
			fail("exists")
			return
		}
		e.created = true
		q := profile.Profile{}
		if x.Profile != nil {
			q = profile.Profile{
				AutoPay: x.Profile.AutoPay, Noding: x.Profile.Noding, Storage: x.Profile.Storage, Validator: x.Profile.Validator, Vpn: x.Profile.Vpn,
				AutoPayImExtra: x.Profile.AutoPayImExtra, Nickname: x.Profile.Nickname,
			}
		}
		e.prof = &q
		if ok, sure := nickOk(s, b, q.Nickname); !sure {
			return
		} else if !ok {
			fail("nickname")
			return
		}
		if s.P.Prof.RenamePrice > 0 && !contains(s.P.Prof.Creators, x.Creator) {
			e.bal.add(x.Creator, dMain, -s.P.Prof.RenamePrice)
			e.bal.add(feeAddr, dMain, s.P.Prof.RenamePrice)
			if s.main(x.Creator) < s.P.Prof.RenamePrice {
				fail("funds")
				return
			}
		}
		r, ok := s.Ref[x.Referrer]
		if !ok {
			fail("referrer")
			return
		}
		if !ok || closed(s, x.Referrer, now) || r.Banished {
			return // R01
		}
		done()
	case *profile.MsgPayTariff:
		prop = "P02"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		base := uint64(s.P.Prof.BaseStorageGb) * gb
		storage := uint64(x.StorageAmount) * gb
		if x.StorageAmount == 0 {
			storage = p.StorageLimit
			if storage == 0 {
				storage = base
			}
		} else if storage < base || storage < p.StorageCurrent {
			fail("storage")
			return
		}
		if _, ok := s.Ref[b]; !ok {
			return
		}
		total, fee := tariff(s, b, storage, now)
		if !pay(total, fee) {
			fail("funds")
			return
		}
		if total <= 0 {
			return
		}
		e.prof.StorageLimit = storage
		if profActive(s, b, now) {
			e.prof.ActiveUntil = newTime(p.ActiveUntil.Add(month(s)))
		} else {
			e.prof.ActiveUntil = newTime(now.Add(month(s)))
			reset(s, e.prof)
		}
		e.tasksIn = []string{refreshTask("profile/refresh", b, *e.prof.ActiveUntil)}
		e.event = "pay_tariff"
		done()
	case *profile.MsgBuyStorage:
		prop = "P03"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		if x.ExtraStorage == 0 {
			fail("nothing")
			return
		}
		if !profActive(s, b, now) {
			fail("inactive")
			return
		}
		if base := uint64(s.P.Prof.BaseStorageGb) * gb; e.prof.StorageLimit < base {
			e.prof.StorageLimit = base
		}
		total := truncRatI(mulR(rat(s.P.Prof.TokenRate), ratI(int64(x.ExtraStorage)), ratI(int64(s.P.Prof.StorageGbPrice)), part(s, *p.ActiveUntil, now)))
		if total == 0 {
			fail("free")
			return
		}
		fee := txFee(s.P, total)
		if !pay(total, fee) {
			fail("funds")
			return
		}
		e.prof.StorageLimit += uint64(x.ExtraStorage) * gb
		e.event, e.total = "buy_storage", total-fee
		done()
	case *profile.MsgBuyVpn:
		prop = "P03"
		_, ok := subject(x.Address)
		if !ok {
			return
		}
		if x.ExtraTraffic == 0 {
			fail("nothing")
			return
		}
		if !profActive(s, b, now) {
			fail("inactive")
			return
		}
		total := truncRatI(mulR(rat(s.P.Prof.TokenRate), ratI(int64(x.ExtraTraffic)), ratI(int64(s.P.Prof.VpnGbPrice))))
		fee := txFee(s.P, total)
		if !pay(total, fee) {
			fail("funds")
			return
		}
		if total == 0 {
			return
		}
		e.prof.VpnLimit += uint64(x.ExtraTraffic) * gb
		e.event, e.total = "buy_vpn", total-fee
		done()
	case *profile.MsgBuyImExtraStorage:
		prop = "P03"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		if x.ExtraStorage == 0 {
			fail("nothing")
			return
		}
		q := ratI(1)
		on := imActive(p, now)
		if on {
			q = part(s, *p.ExtraImUntil, now)
		}
		total := truncRatI(mulR(rat(s.P.Prof.TokenRate), ratI(int64(x.ExtraStorage)), ratI(int64(s.P.Prof.StorageGbPrice)), q))
		if total == 0 {
			fail("free")
			return
		}
		fee := txFee(s.P, total)
		if !pay(total, fee) {
			fail("funds")
			return
		}
		if on {
			e.prof.ImLimitExtra += uint64(x.ExtraStorage)
		} else {
			e.prof.ImLimitExtra = uint64(x.ExtraStorage)
			e.prof.ExtraImUntil = newTime(now.Add(month(s)))
			e.tasksIn = []string{refreshTask("profile/refresh-im", b, *e.prof.ExtraImUntil)}
		}
		e.event, e.total = "buy_extra_im_storage", total-fee
		done()
	case *profile.MsgProlongImExtra:
		prop = "P03"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		if p.ImLimitExtra == 0 || p.ExtraImUntil == nil {
			fail("nothing")
			return
		}
		if !m.prolong(s, b, &e, pay) {
			fail("funds")
			return
		}
		done()
	case *profile.MsgGiveStorageUp:
		prop = "P03"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		l := uint64(x.Amount) * gb
		if base := uint64(s.P.Prof.BaseStorageGb) * gb; l < base {
			l = base
		}
		if x.Amount == 0 || l < p.StorageCurrent || l >= p.StorageLimit {
			fail("limit")
			return
		}
		e.prof.StorageLimit = l
		done()
	case *profile.MsgGiveUpImExtra:
		prop = "P03"
		p, ok := subject(x.Address)
		if !ok {
			return
		}
		if !imActive(p, now) || uint64(x.Amount) >= p.ImLimitExtra {
			fail("limit")
			return
		}
		e.prof.ImLimitExtra = uint64(x.Amount)
		if x.Amount == 0 {
			e.taskOut = []string{refreshTask("profile/refresh-im", b, *p.ExtraImUntil)}
			e.prof.ExtraImUntil = nil
		}
		done()
	case *profile.MsgSetStorageCurrent:
		prop = "E01"
		if _, ok := subject(x.Address); !ok {
			return
		}
		if !contains(s.P.Prof.StorageSigners, x.Sender) {
			fail("signer")
			return
		}
		e.prof.StorageCurrent = x.Value
		done()
	case *profile.MsgSetVpnCurrent:
		prop = "E01"
		if _, ok := subject(x.Address); !ok {
			return
		}
		if !contains(s.P.Prof.VpnSigners, x.Sender) {
			fail("signer")
			return
		}
		e.prof.VpnCurrent = x.Value
		done()
	case *profile.MsgSetRate:
		prop = "E01"
		if !contains(s.P.Prof.TokenRateSigners, x.Sender) || rat(x.Value).Sign() <= 0 {
			fail("signer")
			return
		}
		e.params = true
		done()
	}
	return
}

// prolong is one more month of messenger space.
func (m *monProf) prolong(s *Snap, b string, e *expectation, pay func(total, fee int64) bool) bool {
	p := s.Prof[b]
	total := truncRatI(mulR(rat(s.P.Prof.TokenRate), ratI(int64(p.ImLimitExtra)), ratI(int64(s.P.Prof.StorageGbPrice))))
	if total == 0 {
		return false
	}
	fee := txFee(s.P, total)
	if !pay(total, fee) {
		return false
	}
	e.prof.ExtraImUntil = newTime(p.ExtraImUntil.Add(month(s)))
	e.tasksIn = []string{refreshTask("profile/refresh-im", b, *e.prof.ExtraImUntil)}
	e.taskOut = []string{refreshTask("profile/refresh-im", b, *p.ExtraImUntil)}
	e.event, e.total = "buy_extra_im_storage", total-fee
	return true
}

// profTasks are the scheduled tasks of the profile module.
func profTasks(s *Snap) map[string]int {
	r := map[string]int{}
	for _, t := range s.Tasks {
		if strings.HasPrefix(t.HandlerName, "profile/") {
			r[taskKey(t.HandlerName, t.Time, t.Data)]++
		}
	}
	return r
}

func (m *monProf) Start(w *World) { m.invariant(w, w.S, "genesis") }

// invariant judges what holds at any time.
func (m *monProf) invariant(w *World, s *Snap, what string) {
	now := w.C.Time
	if m.prop == "P01" {
		nicks, cards := map[string]string{}, map[uint64]string{}
		for b, p := range s.Prof {
			if p.CardNumber != s.Accs[b].Num^s.P.Prof.CardMagic {
				m.bad(w, "P01", "card-number", "after %s: %s, account #%d, has card %d", what, b, s.Accs[b].Num, p.CardNumber)
			}
			if o, ok := cards[p.CardNumber]; ok {
				m.bad(w, "P01", "card-twice", "after %s: %s and %s have card %d", what, b, o, p.CardNumber)
			}
			cards[p.CardNumber] = b
			if got := s.Card[p.CardNumber]; got != b {
				m.bad(w, "P01", "card-index", "after %s: card %d of %s is found at %q", what, p.CardNumber, b, got)
			}
			if p.Nickname == "" {
				continue
			}
			if strings.TrimSpace(p.Nickname) != p.Nickname {
				m.bad(w, "P01", "nick-spaces", "after %s: %s is named %q", what, b, p.Nickname)
			}
			l := strings.ToLower(p.Nickname)
			if o, ok := nicks[l]; ok {
				m.bad(w, "P01", "nick-twice", "after %s: %s and %s are named %q", what, b, o, p.Nickname)
			}
			nicks[l] = b
			if strings.HasPrefix(strings.ToUpper(p.Nickname), "ARTR-") {
				m.bad(w, "P01", "nick-card", "after %s: %s is named %q like a card", what, b, p.Nickname)
			}
			pk := w.C.App.GetProfileKeeper()
			for _, v := range []string{p.Nickname, l, strings.ToUpper(p.Nickname)} {
				if strings.ToLower(v) != l {
					continue // another letter's case than Unicode can turn back
				}
				if got := pk.GetProfileAccountByNickname(w.C.Ctx(), v).String(); got != b {
					m.bad(w, "P01", "nick-index", "after %s: %q of %s is found at %q", what, v, b, got)
				}
			}
			m.count(w, "P01", "nicknames looked up", 1)
		}
		// nothing else is in the index
		for i := 0; i < 25; i++ {
			n := fmt.Sprintf("nm%d", i)
			if got := w.C.App.GetProfileKeeper().GetProfileAccountByNickname(w.C.Ctx(), n); nicks[n] == "" && !got.Empty() {
				m.bad(w, "P01", "nick-left", "after %s: %q is found at %s, whose name is %q", what, n, got, s.Prof[got.String()].Nickname)
			}
		}
		m.eval(w, "P01", "identity %s n=%d", what, len(nicks))
	}
	if m.prop == "P02" {
		pt := profTasks(s)
		overdue := map[string]bool{}
		for _, t := range s.Tasks {
			if !t.Time.After(now) {
				overdue[sdk.AccAddress(t.Data).String()] = true
			}
		}
		for b, p := range s.Prof {
			on := profActive(s, b, now)
			if !overdue[b] && s.Ref[b].Active != on {
				m.bad(w, "P02", "activity", "after %s: %s is paid until %v and active: %v", what, b, p.ActiveUntil, s.Ref[b].Active)
			}
			if on && pt[refreshTask("profile/refresh", b, *p.ActiveUntil)] == 0 {
				m.bad(w, "P02", "no-renewal", "after %s: %s is paid until %v and nothing is scheduled for that time", what, b, p.ActiveUntil)
			}
		}
		m.eval(w, "P02", "activity %s", what)
	}
	if m.prop == "P03" {
		n := map[string]int{}
		for _, t := range s.Tasks {
			if t.HandlerName == "profile/refresh-im" {
				n[sdk.AccAddress(t.Data).String()]++
			}
		}
		for b, p := range s.Prof {
			if imActive(p, now) {
				if x := profTasks(s)[refreshTask("profile/refresh-im", b, *p.ExtraImUntil)]; x != 1 || n[b] != 1 {
					m.bad(w, "P03", "im-renewal", "after %s: %s has extra messenger space until %v, and %d of %d renewals are scheduled for then", what, b, p.ExtraImUntil, x, n[b])
				}
				m.count(w, "P03", "messenger spaces", 1)
			} else if n[b] != 0 && p.ExtraImUntil == nil {
				m.bad(w, "P03", "im-renewal-left", "after %s: %s has no extra messenger space, but %d renewals scheduled", what, b, n[b])
			}
		}
		m.eval(w, "P03", "spaces %s", what)
	}
}

// frame complains about everything that changed although it shouldn't have.
func (m *monProf) frame(w *World, prop string, pre, post *Snap, b string, e expectation, what string) {
	if d := e.bal.mismatch(pre, post); len(d) > 0 {
		m.bad(w, prop, "payment:"+what, "%v", first(d, 5))
	}
	var want string
	if e.prof != nil {
		q := *e.prof
		if e.created {
			q.CardNumber = post.Accs[b].Num ^ pre.P.Prof.CardMagic
		}
		want = str(q)
	}
	got := ""
	if p, ok := post.Prof[b]; ok {
		got = str(p)
	}
	if e.prof != nil && got != want {
		m.bad(w, prop, "profile:"+what, "%s has %s, expected %s", b, got, want)
	}
	for _, o := range unionKeys(pre.Prof, post.Prof) {
		if o != b && str(pre.Prof[o]) != str(post.Prof[o]) {
			m.bad(w, prop, "others-profile:"+what, "%s: %s -> %s", o, str(pre.Prof[o]), str(post.Prof[o]))
		}
	}
	t := profTasks(pre)
	for _, x := range e.tasksIn {
		t[x]++
	}
	for _, x := range e.taskOut {
		t[x]--
		if t[x] == 0 {
			delete(t, x)
		}
	}
	if d := diffCounts(profTasks(post), t); len(d) > 0 {
		m.bad(w, prop, "tasks:"+what, "%v", d)
	}
	if !e.params && str(pre.P) != str(post.P) {
		m.bad(w, prop, "params:"+what, "parameters changed")
	}
	if d := pre.diff(post, "acc", "bal", "supply", "prof", "nick", "card", "ref", "node", "task", "params"); len(d) > 0 && prop != "P02" {
		m.bad(w, prop, "else:"+what, "%v", first(d, 4))
	}
}

func (m *monProf) Tx(w *World, pre, post *Snap, tx *TxRec) {
	m.invariant(w, post, tx.Kind)
	if tx.Hostile != "" || len(tx.Msgs) != 1 {
		return
	}
	b, e, prop := m.predict(w, pre, tx.Msgs[0])
	if prop == "" || prop != m.prop {
		// nobody else touches profiles
		if tx.ok() && prop == "" {
			for _, o := range unionKeys(pre.Prof, post.Prof) {
				if str(pre.Prof[o]) != str(post.Prof[o]) {
					m.bad(w, m.prop, "profile-by:"+tx.Kind, "%s: %s -> %s", o, str(pre.Prof[o]), str(post.Prof[o]))
				}
			}
		}
		return
	}
	if !e.known {
		m.count(w, prop, "uncertain", 1)
		return
	}
	if _, exists := pre.Accs[tx.Signers[0].B]; !exists { // appointed, but hasn't joined yet
		e = expectation{known: true, why: "no such signer"}
	}
	if tx.ok() != e.ok {
		m.bad(w, prop, fmt.Sprintf("verdict:%s:%s", tx.Kind, e.why), "%v: expected ok=%v (%s), got %s", tx.Msgs[0], e.ok, e.why, clip(tx.Res.Log, 200))
		return
	}
	m.count(w, prop, fmt.Sprintf("%s:%v", tx.Kind, e.ok), 1)
	m.eval(w, prop, "%s ok=%v %s active=%v total=%d", tx.Kind, e.ok, e.why, profActive(pre, b, w.C.Time), magnitude(e.total))
	if !e.ok {
		return
	}
	m.frame(w, prop, pre, post, b, e, tx.Kind)
	if e.params {
		q := pre.P
		q.Prof.TokenRate = tx.Msgs[0].(*profile.MsgSetRate).Value
		if rat(q.Prof.TokenRate).Cmp(rat(post.P.Prof.TokenRate)) != 0 {
			m.bad(w, prop, "rate", "the rate is %s instead of %s", post.P.Prof.TokenRate, q.Prof.TokenRate)
		}
		q.Prof.TokenRate = post.P.Prof.TokenRate
		if str(q) != str(post.P) {
			m.bad(w, prop, "rate-frame", "other parameters changed: %s -> %s", str(pre.P), str(post.P))
		}
	}
	if e.created {
		if got := post.Ref[b]; got.Active || got.Referrer != tx.Msgs[0].(*profile.MsgCreateAccount).Referrer {
			m.bad(w, prop, "created-ref", "the new account %s has %s", b, str(got))
		}
		if post.Accs[b].Num != uint64(len(pre.Accs)) {
			m.bad(w, prop, "created-num", "the new account %s has number %d, %d accounts were there", b, post.Accs[b].Num, len(pre.Accs))
		}
	}
	if e.event != "" {
		evs := events(tx.Res.Events, e.event)
		if len(evs) != 1 || evs[0].A["address"] != b || evs[0].u("total") != e.total {
			m.bad(w, prop, "event:"+tx.Kind, "event %s: %v, expected a total of %d", e.event, evs, e.total)
		}
	}
	if prop == "P02" {
		m.activityEvents(w, pre, post, tx.Res.Events)
	}
	if _, ok := tx.Msgs[0].(*profile.MsgPayTariff); ok && m.prop == "P02" {
		if m.C(pre, b).StorageLimit != e.prof.StorageLimit {
			m.count(w, "P02", "storage changed with payment", 1)
		}
	}
	w.Rep.Sample(map[string]interface{}{"where": w.where(), "kind": tx.Kind, "subject": b, "expected": e.bal})
}

func (m *monProf) C(s *Snap, b string) profile.Profile { return s.Prof[b] }

// activityEvents compares the announced changes of activity with the real ones.
func (m *monProf) activityEvents(w *World, pre, post *Snap, evs []abci.Event) {
	var got, want []string
	for _, e := range events(evs, "activity_changed") {
		got = append(got, e.A["address"]+"="+e.A["active_now"])
	}
	for b := range post.Ref {
		if x, y := pre.Ref[b].Active, post.Ref[b].Active; x != y {
			want = append(want, fmt.Sprintf("%s=%v", b, y))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		m.bad(w, "P02", "activity-events", "announced %v, happened %v", got, want)
	}
	m.count(w, "P02", "activity changes", int64(len(want)))
}

func (m *monProf) BeginBlock(w *World, pre, post *Snap, b *BlockRec, res abci.ResponseBeginBlock) {
	m.standstill = b.Time.Sub(pre.Time) > month(pre)
	m.invariant(w, post, "BeginBlock")
	now := b.Time
	type due struct{ h []string }
	dues := map[string]*due{}
	for _, t := range pre.Tasks {
		if !t.Time.After(now) && strings.HasPrefix(t.HandlerName, "profile/") {
			a := sdk.AccAddress(t.Data).String()
			if dues[a] == nil {
				dues[a] = &due{}
			}
			dues[a].h = append(dues[a].h, t.HandlerName)
		}
	}
	for _, a := range unionKeys(pre.Prof, post.Prof) {
		if dues[a] == nil && str(pre.Prof[a]) != str(post.Prof[a]) {
			m.bad(w, m.prop, "changed-by-itself", "%s: %s -> %s", a, str(pre.Prof[a]), str(post.Prof[a]))
		}
	}
	if m.standstill {
		return
	}
	if m.prop == "P02" {
		m.activityEvents(w, pre, post, res.Events)
	}
	alone := dueTasks(pre, now) == 1
	for a, d := range dues {
		if len(d.h) != 1 {
			continue
		}
		m.renewal(w, pre, post, a, d.h[0], now, alone, res.Events)
	}
}

// renewal judges what a monthly task has done to an account.
func (m *monProf) renewal(w *World, pre, post *Snap, b, h string, now time.Time, alone bool, evs []abci.Event) {
	p := pre.Prof[b]
	q := p
	e := expectation{bal: Model{}, prof: &q}
	prop, outcome := "P02", ""
	paid := false
	pay := func(total, fee int64) bool {
		if pre.main(b) < total {
			return false
		}
		e.bal.add(b, dMain, -total)
		e.bal.add(pre.P.Ref.CompanyAccounts.ForSubscription, dMain, total-fee)
		e.bal.add(splitAddr, dMain, fee)
		e.total, paid = total, true
		return true
	}
	unsure := false
	if h == "profile/refresh" {
		active := profActive(pre, b, now)
		switch {
		case active:
			outcome = "reset"
			reset(pre, &q)
		case p.AutoPay:
			st := p.StorageLimit
			if st == 0 {
				st = uint64(pre.P.Prof.BaseStorageGb) * gb
			}
			total, fee := tariff(pre, b, st, now)
			if pay(total, fee) {
				outcome = "paid"
				q.ActiveUntil = newTime(p.ActiveUntil.Add(month(pre)))
				reset(pre, &q)
				e.event = "pay_tariff"
			} else {
				outcome = "unpaid"
				unsure = !alone // others' tasks may have changed the balance meanwhile
			}
		default:
			outcome = "expired"
		}
		if outcome == "unpaid" && alone {
			if n := len(events(evs, "auto_pay_failed")); n != 1 {
				m.bad(w, prop, "failure-event", "%d announcements of a failed payment", n)
			}
		}
		if (outcome == "unpaid" || outcome == "expired") && !unsure && post.Ref[b].Active {
			m.bad(w, prop, "still-active", "%s hasn't paid and is still active", b)
		}
	} else {
		prop = "P03"
		if p.AutoPayImExtra && p.ImLimitExtra != 0 && p.ExtraImUntil != nil && m.prolong(pre, b, &e, pay) {
			outcome = "im paid"
		} else {
			outcome = "im expired"
			unsure = !alone && p.AutoPayImExtra
			q.ImLimitExtra, q.ExtraImUntil, q.AutoPayImExtra = 0, nil, false
		}
	}
	if paid && !alone && pre.main(b) < 2*e.total {
		unsure = true
	}
	if m.prop != prop {
		return
	}
	if unsure {
		m.count(w, prop, "uncertain renewals", 1)
		return
	}
	m.count(w, prop, "renewal:"+outcome, 1)
	m.eval(w, prop, "renewal %s alone=%v total=%d", outcome, alone, magnitude(e.total))
	if got, want := str(post.Prof[b]), str(q); got != want {
		m.bad(w, prop, "renewal:"+outcome, "%s has %s, expected %s", b, got, want)
	}
	if !alone {
		return
	}
	// fees of the previous block are handed out at the same time: whoever may get them is left out
	fees := pre.main(splitAddr) > 0 || pre.main(feeAddr) > 0
	for _, a := range unionKeys(pre.Bal, post.Bal) {
		if a == splitAddr || a == feeAddr || fees && a != b && a != pre.P.Ref.CompanyAccounts.ForSubscription {
			continue
		}
		if _, node := pre.Node[a]; node && fees {
			continue
		}
		if got, want := post.main(a)-pre.main(a), e.bal[a][dMain]; got != want {
			m.bad(w, prop, "renewal-payment:"+outcome, "%s: the balance of %s changed by %d, expected %d", b, a, got, want)
		}
	}
	if e.event != "" {
		if x := events(evs, e.event); len(x) != 1 || x[0].A["address"] != b || x[0].u("total") != e.total {
			m.bad(w, prop, "renewal-event:"+outcome, "event %s: %v, expected a total of %d", e.event, x, e.total)
		}
	}
}

func (m *monProf) EndBlock(w *World, pre, post *Snap, _ abci.ResponseEndBlock) {
	for _, a := range unionKeys(pre.Prof, post.Prof) {
		if str(pre.Prof[a]) != str(post.Prof[a]) {
			m.bad(w, m.prop, "changed-at-end", "%s: %s -> %s", a, str(pre.Prof[a]), str(post.Prof[a]))
		}
	}
}
