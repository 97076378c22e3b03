//go:build testing
// +build testing

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
)

// rat turns a fraction into an independent representation through its textual form.
func rat(f util.Fraction) *big.Rat {
	n, d := fracParts(f)
	return new(big.Rat).SetFrac(n, d)
}

func fracParts(f util.Fraction) (*big.Int, *big.Int) {
	s := f.String()
	num, den := s, "1"
	if strings.HasSuffix(s, "%") {
		num, den = strings.TrimSuffix(s, "%"), "100"
	} else if i := strings.IndexByte(s, '/'); i >= 0 {
		num, den = s[:i], s[i+1:]
	}
	n, ok1 := new(big.Int).SetString(num, 10)
	d, ok2 := new(big.Int).SetString(den, 10)
	if !ok1 || !ok2 || d.Sign() == 0 {
		panic("cannot parse fraction " + s)
	}
	return n, d
}

func ratI(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

// truncRat rounds towards zero.
func truncRat(x *big.Rat) *big.Int { return new(big.Int).Quo(x.Num(), x.Denom()) }

func truncRatI(x *big.Rat) int64 { return truncRat(x).Int64() }

func mulTrunc(f *big.Rat, n int64) int64 { return truncRatI(new(big.Rat).Mul(f, ratI(n))) }

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	r := new(big.Int).Mul(a, b)
	return r.Quo(r, g).Abs(r)
}

// txFee is the transaction fee the documentation promises: a share, capped, rounded down so that it can be split exactly.
func txFee(p Params, amount int64) int64 {
	fee := mulTrunc(rat(p.Bank.TransactionFee), amount)
	if p.Bank.MaxTransactionFee != 0 && fee > p.Bank.MaxTransactionFee {
		fee = p.Bank.MaxTransactionFee
	}
	_, a := fracParts(p.Bank.TransactionFeeSplitRatios.ForProposer)
	_, b := fracParts(p.Bank.TransactionFeeSplitRatios.ForCompany)
	l := lcm(a, b)
	if l.IsInt64() {
		return fee - fee%l.Int64()
	}
	return fee
}

// Ev is a typed event.
type Ev struct {
	Type string
	A    map[string]string
}

func (e Ev) u(k string) int64 {
	var n int64
	fmt.Sscan(e.A[k], &n)
	return n
}
func (e Ev) list(k string) (r []string) {
	_ = json.Unmarshal([]byte(e.A[k]), &r)
	return
}
func (e Ev) ulist(k string) (r []int64) {
	var ss []string
	if err := json.Unmarshal([]byte(e.A[k]), &ss); err == nil {
		for _, s := range ss {
			var n int64
			fmt.Sscan(s, &n)
			r = append(r, n)
		}
	}
	return
}
func (e Ev) coins(k string) map[string]int64 {
	r := map[string]int64{}
	var cs []struct{ Denom, Amount string }
	if json.Unmarshal([]byte(e.A[k]), &cs) == nil {
		for _, c := range cs {
			var n int64
			fmt.Sscan(c.Amount, &n)
			r[c.Denom] += n
		}
	}
	return r
}

func events(evs []abci.Event, name string) (r []Ev) {
	for _, e := range evs {
		t := e.Type
		if i := strings.LastIndexByte(t, '.'); i >= 0 {
			t = t[i+1:]
		}
		if name != "" && t != name {
			continue
		}
		x := Ev{Type: t, A: map[string]string{}}
		for _, a := range e.Attributes {
			x.A[string(a.Key)] = string(a.Value)
		}
		r = append(r, x)
	}
	return r
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// clone copies the balances so that a model can work on them.
func (s *Snap) cloneBal() map[string]map[string]int64 {
	r := make(map[string]map[string]int64, len(s.Bal))
	for b, c := range s.Bal {
		m := map[string]int64{}
		for _, x := range c {
			m[x.Denom] = x.Amount.Int64()
		}
		r[b] = m
	}
	return r
}

// Model is a set of expected balance changes.
type Model map[string]map[string]int64

func (m Model) add(acc, denom string, n int64) {
	if m[acc] == nil {
		m[acc] = map[string]int64{}
	}
	m[acc][denom] += n
}

// mismatch compares the balances of two snapshots with the expected changes.
func (m Model) mismatch(pre, post *Snap) (r []string) {
	for _, b := range unionKeys(pre.Bal, post.Bal) {
		for _, d := range denoms {
			got := post.Bal[b].AmountOf(d).Sub(pre.Bal[b].AmountOf(d))
			if want := m[b][d]; !got.Equal(sdk.NewInt(want)) {
				r = append(r, fmt.Sprintf("%s %s changed by %s, expected %+d", b, d, got, want))
			}
		}
	}
	for b, x := range m {
		if _, ok := pre.Bal[b]; ok {
			continue
		}
		if _, ok := post.Bal[b]; ok {
			continue
		}
		for d, n := range x {
			if n != 0 {
				r = append(r, fmt.Sprintf("%s %s did not change, expected %+d", b, d, n))
			}
		}
	}
	return r
}

// supplyDelta is the change of the recorded supply.
func supplyDelta(pre, post *Snap, d string) int64 {
	return post.Supply.AmountOf(d).Sub(pre.Supply.AmountOf(d)).Int64()
}

func first(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string(nil), l[:n]...), fmt.Sprintf("... %d more", len(l)-n))
	}
	return l
}
