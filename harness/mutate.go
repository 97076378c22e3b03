//go:build testing
// +build testing

package main

import (
	"math"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
)

// ---- messages nobody would write ------------------------------------------------------------------------------------

// mutator changes fields of messages to odd values. Whatever it makes is a message which anyone could really send.
type mutator struct {
	r     *Rng
	addrs []string // known addresses
	now   time.Time
	what  []string // what's been done
}

// leaf is a place that can be changed.
type leaf struct {
	path string
	v    reflect.Value
}

// mutate returns a changed copy of the message, nil if it can't be sent at all.
func (m *mutator) mutate(msg sdk.Msg) (res sdk.Msg) {
	defer func() {
		if e := recover(); e != nil { // it can't be encoded
			res = nil
		}
	}()
	c := cloneMsg(msg)
	if c == nil {
		return nil
	}
	for n := 1 + m.r.Intn(2); n > 0; n-- {
		var ls []leaf
		leaves("", reflect.ValueOf(c).Elem(), &ls)
		if len(ls) == 0 {
			return nil
		}
		if m.r.Intn(3) > 0 { // rather what a proposal is about
			var args []leaf
			for _, l := range ls {
				if strings.HasPrefix(l.path, ".Proposal.Args.") && l.v.Kind() != reflect.Ptr {
					args = append(args, l)
				}
			}
			if len(args) > 0 {
				ls = args
			}
		}
		if m.r.Intn(3) == 0 { // fractions have more ways of going wrong than other things
			var fracs []leaf
			for _, l := range ls {
				if l.v.Type() == tFrac {
					fracs = append(fracs, l)
				}
			}
			if len(fracs) > 0 {
				ls = fracs
			}
		}
		l := ls[m.r.Intn(len(ls))]
		m.change(l)
	}
	// Only what survives encoding counts.
	return cloneMsg(c)
}

func cloneMsg(msg sdk.Msg) sdk.Msg {
	bz, err := proto.Marshal(msg.(proto.Message))
	if err != nil {
		return nil
	}
	c := reflect.New(reflect.TypeOf(msg).Elem()).Interface().(sdk.Msg)
	if proto.Unmarshal(bz, c.(proto.Message)) != nil {
		return nil
	}
	return c
}

var (
	tTime = reflect.TypeOf(time.Time{})
	tInt  = reflect.TypeOf(sdk.Int{})
	tFrac = reflect.TypeOf(util.Fraction{})
)

func leaves(path string, v reflect.Value, ls *[]leaf) {
	switch {
	case v.Type() == tTime || v.Type() == tInt || v.Type() == tFrac:
		*ls = append(*ls, leaf{path, v})
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		*ls = append(*ls, leaf{path, v})
		if !v.IsNil() {
			leaves(path, v.Elem(), ls)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() && !strings.HasPrefix(v.Type().Field(i).Name, "XXX_") {
				leaves(path+"."+v.Type().Field(i).Name, f, ls)
			}
		}
	case reflect.Slice:
		*ls = append(*ls, leaf{path, v})
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				leaves(path+"[]", v.Index(i), ls)
			}
		}
	default:
		if v.CanSet() {
			*ls = append(*ls, leaf{path, v})
		}
	}
}

var oddInts = []int64{0, 1, -1, 2, 3, 7, 99, 100, 101, 255, 256, 1000, 65535, 65536, 1 << 20, math.MaxInt32, math.MinInt32, 1 << 32, 1 << 53, 1e12, 1e15, 1e18, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MaxInt64 / 1000000000, math.MaxInt64 / 3600000000000}

var oddFracs = []string{"", "0", "0/0", "1/0", "-1/0", "0/5", "1", "-1", "2", "1/2", "-1/2", "-0", "1%", "99%", "100%", "101%", "-5%", "1000%", "1/3", "2/3", "3/3", "999999999999/1000000000000", "1/1000000000000", "1/9223372036854775807",
	"9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775808/3", "1" + strings.Repeat("0", 300), "1/1" + strings.Repeat("0", 300), "1" + strings.Repeat("0", 300) + "/7" + strings.Repeat("0", 300)}

func oddFrac(r *Rng) util.Fraction {
	f, err := util.ParseFraction(oddFracs[r.Intn(len(oddFracs))])
	if err != nil {
		return util.Fraction{}
	}
	return f
}

func (m *mutator) change(l leaf) {
	v, r := l.v, m.r
	m.what = append(m.what, l.path)
	switch {
	case v.Type() == tTime:
		ts := []time.Time{{}, time.Unix(0, 0).UTC(), m.now, m.now.Add(time.Nanosecond), m.now.Add(-time.Nanosecond), m.now.Add(time.Minute), m.now.AddDate(0, 1, 0), m.now.AddDate(300, 0, 0),
			time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2262, 4, 12, 0, 0, 0, 0, time.UTC), time.Date(1677, 1, 1, 0, 0, 0, 0, time.UTC)}
		v.Set(reflect.ValueOf(ts[r.Intn(len(ts))]))
		return
	case v.Type() == tInt:
		x := big.NewInt(oddInts[r.Intn(len(oddInts))])
		switch r.Intn(6) {
		case 0:
			x = new(big.Int).Lsh(big.NewInt(1), 254)
		case 1:
			x = new(big.Int).Lsh(big.NewInt(1), 63)
		case 2:
			x = new(big.Int).SetUint64(math.MaxUint64)
		}
		v.Set(reflect.ValueOf(sdk.NewIntFromBigInt(x)))
		return
	}
	if v.Type() == tFrac {
		v.Set(reflect.ValueOf(oddFrac(r)))
		return
	}
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		opts := []string{"", " ", "x", strings.Repeat("я", 300), strings.Repeat("x", 20000), "artr1", s + "x", " " + s, strings.ToUpper(s), "\x00", "a\xffb", "<&>\n\"'\\", "ARTR-0000-0000-0000", "🙂", m.addrs[r.Intn(len(m.addrs))], m.addrs[r.Intn(len(m.addrs))],
			splitAddr, sdk.AccAddress{}.String(), sdk.AccAddress([]byte{1}).String(), sdk.AccAddress(make([]byte, 20)).String(), sdk.AccAddress(make([]byte, 32)).String(), util.ConfigMainDenom, util.ConfigDelegatedDenom, util.ConfigRevokingDenom}
		v.SetString(opts[r.Intn(len(opts))])
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := oddInts[r.Intn(len(oddInts))]
		switch r.Intn(4) {
		case 0:
			x = v.Int() + 1
		case 1:
			x = -v.Int()
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := uint64(oddInts[r.Intn(len(oddInts))])
		if r.Intn(4) == 0 {
			x = v.Uint() + 1
		}
		v.SetUint(x)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(make([]byte, r.Intn(40)))
			return
		}
		n := v.Len()
		switch r.Intn(5) {
		case 0:
			v.Set(reflect.Zero(v.Type()))
		case 1:
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		case 2:
			if n > 0 {
				v.Set(reflect.Append(v, v.Index(r.Intn(n))))
			}
		case 3:
			if n > 1 {
				v.Set(v.Slice(0, n-1))
			}
		case 4:
			if n > 0 && n < 100 {
				x := v.Index(r.Intn(n))
				for i := 0; i < 300; i++ {
					v.Set(reflect.Append(v, x))
				}
			}
		}
	case reflect.Ptr:
		if v.IsNil() || r.Intn(2) == 0 {
			v.Set(reflect.New(v.Type().Elem()))
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Interface:
		v.Set(reflect.Zero(v.Type()))
	}
}
