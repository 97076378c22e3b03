//go:build testing
// +build testing

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
)

// ---- F01: fractions, fees and lists -----------------------------------------------------------------------------------

func (r *Rng) int64ish() int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(5)) - 2
	case 1:
		return int64(r.Intn(2001)) - 1000
	case 2:
		return []int64{100, 1000, 10, 99, 101, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, -1 << 63, 1 << 62}[r.Intn(11)]
	case 3:
		return int64(1) << uint(r.Intn(63))
	default:
		return r.Int63n(1<<uint(1+r.Intn(62))) * int64(1-2*r.Intn(2))
	}
}

// frac makes up a fraction and what it has to be.
func (r *Rng) frac() (util.Fraction, *big.Rat) {
	n, d := r.int64ish(), r.int64ish()
	if d == -1<<63 {
		d++
	}
	if d < 0 {
		d = -d
	}
	if d == 0 {
		d = 1
	}
	switch r.Intn(6) {
	case 0:
		return util.FractionInt(n), ratI(n)
	case 1:
		return util.Percent(n), big.NewRat(n, 100)
	case 2:
		return util.Permille(n), big.NewRat(n, 1000)
	case 3:
		f, err := util.ParseFraction(fmt.Sprintf("%d/%d", n, d))
		must(err)
		return f, big.NewRat(n, d)
	default:
		return util.NewFraction(n, d), big.NewRat(n, d)
	}
}

// wide is a written fraction whose parts may go far beyond 64 bits; its denominator may be akin to another one's.
func (r *Rng) wide(akin *big.Int) (util.Fraction, *big.Rat) {
	part := func() *big.Int {
		z := big.NewInt(r.int64ish())
		switch r.Intn(4) {
		case 0:
			z.Lsh(z, uint(r.Intn(130)))
		case 1:
			z.Mul(z, big.NewInt(r.int64ish()))
		}
		return z
	}
	n, d := part(), new(big.Int).Abs(part())
	if akin != nil {
		switch r.Intn(4) {
		case 0:
			d.Set(akin)
		case 1: // differs beyond the lowest bits only
			d.Add(akin, new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(3))), []uint{31, 32, 53, 63, 64, 65, 128}[r.Intn(7)]))
		case 2:
			d.Mul(akin, big.NewInt(int64(1+r.Intn(9))))
		case 3:
			d.Lsh(akin, uint(r.Intn(66)))
		}
	}
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	f, err := util.ParseFraction(fmt.Sprintf("%s/%s", n, d))
	must(err)
	return f, new(big.Rat).SetFrac(n, d)
}

func fracCase(rep *Report, r *Rng) {
	bad := func(what, f string, a ...interface{}) {
		rep.Violate(nil, "fraction:"+what, "%s: "+f, append([]interface{}{what}, a...)...)
	}
	x, rx := r.frac()
	y, ry := r.frac()
	switch r.Intn(4) {
	case 0:
		y, ry = r.wide(denomOf(x))
	case 1:
		x, rx = r.wide(nil)
		y, ry = r.wide(denomOf(x))
	}
	n := r.int64ish()
	sx, sy := x.String(), y.String()
	same := func(what string, f util.Fraction, want *big.Rat) {
		rep.Eval("%s/%d/%d/%d", what, want.Sign(), magnitude(int64(want.Num().BitLen())), want.Denom().BitLen()/8)
		if got := rat(f); got.Cmp(want) != 0 {
			bad(what, "%s, %s, %d: %s, expected %s", sx, sy, n, got, want)
		}
	}
	z := new(big.Rat)
	same("value", x, rx)
	same("add", x.Add(y), z.Add(rx, ry))
	same("sub", x.Sub(y), new(big.Rat).Sub(rx, ry))
	same("mul", x.Mul(y), new(big.Rat).Mul(rx, ry))
	if ry.Sign() != 0 {
		same("div", x.Div(y), new(big.Rat).Quo(rx, ry))
	}
	same("neg", x.Neg(), new(big.Rat).Neg(rx))
	same("mul int", x.MulInt64(n), new(big.Rat).Mul(rx, ratI(n)))
	if n != 0 {
		same("div int", x.DivInt64(n), new(big.Rat).Quo(rx, ratI(n)))
	}
	same("clone", x.Clone(), rx)
	same("reduce", x.Clone().Reduce(), rx)
	if t := truncRat(rx); x.BigInt().Cmp(t) != 0 || t.IsInt64() && x.Int64() != t.Int64() {
		bad("truncate", "%s: %s / %d, expected %s", sx, x.BigInt(), x.Int64(), t)
	}
	c := rx.Cmp(ry)
	for what, v := range map[string][2]bool{
		"equal": {x.Equal(y), c == 0}, "gt": {x.GT(y), c > 0}, "lt": {x.LT(y), c < 0}, "gte": {x.GTE(y), c >= 0}, "lte": {x.LTE(y), c <= 0},
		"zero": {x.IsZero(), rx.Sign() == 0}, "negative": {x.IsNegative(), rx.Sign() < 0}, "positive": {x.IsPositive(), rx.Sign() > 0}, "null": {x.IsNullValue(), false},
		"equal to itself": {x.Equal(x), true}, "gte itself": {x.GTE(x) && x.LTE(x) && !x.GT(x) && !x.LT(x), true},
	} {
		if v[0] != v[1] {
			bad(what, "%s, %s: %v", sx, sy, v[0])
		}
	}
	rep.Eval("compare/%d/%d/%d", c, rx.Sign(), ry.Sign())
	if x.String() != sx || y.String() != sy {
		bad("operands changed", "%s, %s have become %s, %s", sx, sy, x.String(), y.String())
	}
	// every form it's stored, signed or shown in
	forms(rep, x, rx)
	forms(rep, x.Mul(y), new(big.Rat).Mul(rx, ry))
}

func forms(rep *Report, x util.Fraction, want *big.Rat) {
	check := func(what string, f func() (util.Fraction, error)) {
		got, err := f()
		if err != nil || got.IsNullValue() || rat(got).Cmp(want) != 0 {
			rep.Violate(nil, "fraction:form:"+what, "%s (%s) written as %s and read again is %s (%v)", x.String(), want, what, got.String(), err)
		}
		rep.Eval("form/%s/%d/%d", what, want.Sign(), want.Denom().BitLen()/4)
	}
	check("text", func() (util.Fraction, error) { return util.ParseFraction(x.String()) })
	check("JSON", func() (r util.Fraction, err error) {
		bz, err := json.Marshal(x)
		must(err)
		err = json.Unmarshal(bz, &r)
		return
	})
	check("YAML", func() (r util.Fraction, err error) {
		bz, err := yaml.Marshal(struct{ F util.Fraction }{x})
		must(err)
		var q struct{ F util.Fraction }
		err = yaml.Unmarshal(bz, &q)
		r = q.F
		return
	})
	check("protobuf", func() (r util.Fraction, err error) {
		bz := make([]byte, x.Size())
		n, err := x.MarshalTo(bz)
		must(err)
		if n != len(bz) {
			return r, fmt.Errorf("%d bytes of %d written", n, len(bz))
		}
		err = r.Unmarshal(bz)
		return
	})
	check("amino", func() (r util.Fraction, err error) {
		s, err := x.MarshalAmino()
		must(err)
		err = r.UnmarshalAmino(s)
		return
	})
}

// meant is what a written fraction means; nil if nothing.
func meant(s string) *big.Rat {
	digits := func(x string) bool { return x != "" && strings.Trim(x, "0123456789") == "" }
	num, den := s, "1"
	if strings.HasSuffix(s, "%") {
		num, den = s[:len(s)-1], "100"
	} else if i := strings.IndexByte(s, '/'); i >= 0 {
		num, den = s[:i], s[i+1:]
	}
	if !digits(strings.TrimPrefix(num, "-")) || !digits(den) || strings.Trim(den, "0") == "" {
		return nil
	}
	a, ok := new(big.Int).SetString(num, 10)
	b, ok2 := new(big.Int).SetString(den, 10)
	if !ok || !ok2 {
		panic(s)
	}
	return new(big.Rat).SetFrac(a, b)
}

// parseCase writes something that might be a fraction.
func parseCase(rep *Report, r *Rng) {
	n := func() string {
		return []string{"", "0", "00", "1", "7", "007", "100", fmt.Sprint(r.Uint64()), fmt.Sprint(r.Intn(1000))}[r.Intn(9)]
	}
	s := []string{"", "", "-"}[r.Intn(3)] + n() + []string{"", "/" + n(), "%", "/" + n()}[r.Intn(4)]
	for r.Intn(3) == 0 {
		i := r.Intn(len(s) + 1)
		s = s[:i] + []string{"-", "/", "%", " ", ".", "e", "x", "+", "1", "\n", "½"}[r.Intn(11)] + s[i:]
	}
	if s == "" || !utf8.ValidString(s) {
		return
	}
	want := meant(s)
	try := func(what string, f func() (util.Fraction, error)) {
		got, err := f()
		rep.Eval("written/%s/%v/%d", what, want != nil, len(s))
		switch {
		case want == nil && err == nil:
			rep.Violate(nil, "fraction:nonsense:"+what, "%q is taken for a fraction (%s)", s, what)
		case want != nil && (err != nil || rat(got).Cmp(want) != 0):
			rep.Violate(nil, "fraction:written:"+what, "%q is read as %s (%v), expected %s (%s)", s, got.String(), err, want, what)
		}
	}
	try("text", func() (util.Fraction, error) { return util.ParseFraction(s) })
	try("protobuf", func() (f util.Fraction, err error) { err = f.Unmarshal([]byte(s)); return })
	try("amino", func() (f util.Fraction, err error) { err = f.UnmarshalAmino(s); return })
	try("JSON", func() (f util.Fraction, err error) {
		bz, err := json.Marshal(s)
		must(err)
		err = f.UnmarshalJSON(bz)
		return
	})
	if want == nil {
		rep.Count("nonsense refused", 1)
	}
}

func feeCase(rep *Report, r *Rng) {
	// ratios that are allowed: the common denominator is at most 100
	d := int64(1 + r.Intn(100))
	p := int64(r.Intn(int(d) + 1))
	c := int64(0)
	if d > p {
		c = int64(r.Intn(int(d-p) + 1))
	}
	ratio := func(n int64) util.Fraction {
		f := util.NewFraction(n, d)
		if r.chance(0.5) {
			f = f.Reduce()
		}
		return f
	}
	fp, fc := ratio(p), ratio(c)
	rate := []util.Fraction{util.FractionZero(), util.Permille(3), util.Percent(int64(r.Intn(100))), util.NewFraction(int64(r.Intn(1000)), 1000+int64(r.Intn(100000)))}[r.Intn(4)]
	max := []int64{0, 1, 99, 10_000000, r.Int63n(1 << 40)}[r.Intn(5)]
	amount := r.Int63n(1 << uint(1+r.Intn(55)))
	fee := util.CalculateFee(sdk.NewInt(amount), rate, max, fp, fc)
	lim := mulTrunc(rat(rate), amount)
	if max != 0 && lim > max {
		lim = max
	}
	one := ratI(1)
	rp, rc := rat(fp), rat(fc)
	rb := new(big.Rat).Sub(new(big.Rat).Sub(one, rp), rc)
	whole := func(x *big.Rat, n int64) bool { return new(big.Rat).Mul(x, ratI(n)).IsInt() }
	f := fee.Int64()
	where := fmt.Sprintf("amount %d, rate %s, at most %d, shares %s and %s", amount, rate, max, fp, fc)
	rep.Eval("fee/%d/%d/%v/%v", magnitude(f), d, max != 0, f == lim)
	if f > lim || f < 0 {
		rep.Violate(nil, "fee:limit", "%s: the fee is %d, more than %d", where, f, lim)
	}
	if !whole(rp, f) || !whole(rc, f) || !whole(rb, f) {
		rep.Violate(nil, "fee:indivisible", "%s: the fee %d cannot be split exactly", where, f)
	}
	m := lcm(denomOf(fp), denomOf(fc)).Int64()
	if lim-f >= m {
		rep.Violate(nil, "fee:less", "%s: the fee %d is less than it could be (%d)", where, f, lim)
	}
	if a, b, x := util.SplitFee(fee, fp, fc); !a.Add(b).Add(x).Equal(fee) || new(big.Rat).SetInt(a.BigInt()).Cmp(new(big.Rat).Mul(rp, ratI(f))) != 0 || new(big.Rat).SetInt(b.BigInt()).Cmp(new(big.Rat).Mul(rc, ratI(f))) != 0 {
		rep.Violate(nil, "fee:split", "%s: the fee %d is split into %s, %s and %s", where, f, a, b, x)
	}
}

func denomOf(f util.Fraction) *big.Int { _, d := fracParts(f); return d }

func listCase(rep *Report, r *Rng) {
	word := func() string { return strconv.Itoa(r.Intn(14)) }
	set := func() ([]string, map[string]bool) {
		m := map[string]bool{}
		for i := r.Intn(10); i > 0; i-- {
			m[word()] = true
		}
		return sortedKeys(m), m
	}
	bad := func(what string, before []string, item string, got interface{}) {
		rep.Violate(nil, "list:"+what, "%s: %v, %s: %v", what, before, item, got)
	}
	a, ma := set()
	b, mb := set()
	w := word()
	rep.Eval("list/%d/%d/%v", len(a), len(b), ma[w])
	cp := func() []string { return append([]string{}, a...) }
	with, without := map[string]bool{w: true}, map[string]bool{}
	for k := range ma {
		with[k] = true
		if k != w {
			without[k] = true
		}
	}
	eq := func(x, y []string) bool { return fmt.Sprint(x) == fmt.Sprint(y) && len(x) == len(y) }
	x := cp()
	if ok := util.AddStringSorted(&x, w); ok == ma[w] || !eq(x, sortedKeys(with)) {
		bad("add sorted", a, w, x)
	}
	x = cp()
	want := cp()
	if !ma[w] {
		want = append(want, w)
	}
	if ok := util.AddStringOntoEnd(&x, w); ok == ma[w] || !eq(x, want) {
		bad("add", a, w, x)
	}
	x = cp()
	if ok := util.RemoveStringPreserveOrder(&x, w); ok != ma[w] || !eq(x, sortedKeys(without)) {
		bad("remove", a, w, x)
	}
	x = cp()
	ok := util.RemoveStringFast(&x, w)
	sort.Strings(x)
	if ok != ma[w] || !eq(x, sortedKeys(without)) {
		bad("remove fast", a, w, x)
	}
	for k := range mb {
		ma[k] = true
	}
	if x := util.MergeStringsSorted(a, b); !eq(x, sortedKeys(ma)) {
		bad("merge", a, fmt.Sprint(b), x)
	}
	if util.ContainsString(b, w) != mb[w] {
		bad("contains", b, w, !mb[w])
	}
}

func init() {
	register(Check{
		ID:   "F01",
		Rule: "one evaluation per operation on a pair of fractions, per written form, per fee and per list; distinct by operation, sign and size of the operands",
		Run: func(rep *Report, thorough bool, seed int64) {
			n := 40000
			if thorough {
				n *= 40
			}
			for i, s := range []string{"1/2/3", "1.5", " 1", "1 ", "1/-2", "1%%", "0x10", "1/", "/2", "%", "-", "--1", "1/2%", "1e3", "½", "1\n", "a", "-/1", "1/0", "0/0", "-5/00"} {
				if f, err := util.ParseFraction(s); err == nil {
					rep.Violate(nil, "fraction:parse", "%q is read as %s", s, f)
				}
				rep.Eval("nonsense/%d", i)
			}
			for _, s := range []string{"", "nil"} {
				f, err := util.ParseFraction(s)
				if err != nil || !f.IsNullValue() || f.String() != "nil" || !f.Clone().IsNullValue() {
					rep.Violate(nil, "fraction:null", "%q is read as %v, %v", s, f, err)
				}
			}
			parallel(8, func(k int) {
				r := newRng(seed*31 + int64(k) + 1000)
				for i := 0; i < n/8; i++ {
					if e := try(func() { fracCase(rep, r) }); e != nil {
						rep.Violate(nil, "fraction:panic", "%v", e)
					}
					if e := try(func() { parseCase(rep, r) }); e != nil {
						rep.Violate(nil, "fraction:parse-panic", "%v", e)
					}
					if e := try(func() { feeCase(rep, r); listCase(rep, r) }); e != nil {
						rep.Violate(nil, "fee-or-list:panic", "%v", e)
					}
				}
			})
			rep.Count("cases", int64(n))
			rep.Need("nonsense refused", int64(n/10))
			rep.Sample(map[string]interface{}{"cases": n})
		},
	})
}
