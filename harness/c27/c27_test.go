package c27

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"

	bc "github.com/ing-bank/zkrp/util/byteconversion"
	ic "github.com/ing-bank/zkrp/util/intconversion"

	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one byte string parsed as a list of integers and compared with a grammar; non-trivial = distinct string")
}

func TestRoundTrip(t *testing.T) {
	pbt.Check(t, 120000, 960000, func(c *pbt.C) {
		n := pbt.IntN(c, "n", 1, 12)
		long := pbt.Chance(c, "long", 2)
		if long {
			// A long list of small integers, or a list with some long ones.
			n = pbt.Pick(c, "n2", 1, 3, 12, 13, 100, 257, 1025, 2000)
		}
		xs := make([]*big.Int, n)
		ss := make([]string, n)
		for i := range xs {
			switch {
			case long && n > 12:
				xs[i] = big.NewInt(int64(i*i*i) * int64(1-i%3))
			case long:
				xs[i] = new(big.Int).SetBytes(bytes.Repeat(pbt.BytesN(c, "x", 40), pbt.IntN(c, "times", 1, 40)))
				if pbt.Chance(c, "neg", 50) {
					xs[i].Neg(xs[i])
				}
			default:
				xs[i] = pbt.IntSigned(c, "x", ref.N)
			}
			ss[i] = xs[i].String()
		}
		s := strings.Join(ss, ",")
		in := []byte(s)
		got, err := bc.ParseInput(in)
		if err != nil || len(got) != n {
			c.Fatalf("ParseInput(%q): %d integers, %v", pbt.Clip(s, 2000), len(got), err)
		}
		if string(in) != s {
			c.Fatalf("ParseInput changed its input %q", s)
		}
		for i := range in {
			in[i] = 'x'
		}
		for i := range xs {
			if got[i].Cmp(xs[i]) != 0 {
				c.Fatalf("ParseInput(%q): integer %d is %v", s, i, got[i])
			}
			one, err := bc.ConvertToBigInt([]byte(ss[i]))
			if err != nil || one.Cmp(xs[i]) != 0 {
				c.Fatalf("ConvertToBigInt(%q) = %v, %v", ss[i], one, err)
			}
			if z := ic.BigFromBase10(ss[i]); z == nil || z.Cmp(xs[i]) != 0 {
				c.Fatalf("BigFromBase10(%q) = %v", ss[i], z)
			}
		}
		// The integers are separate objects.
		for i := range got {
			got[i].SetInt64(int64(-i))
		}
		for i := range got {
			if got[i].Int64() != int64(-i) {
				c.Fatalf("ParseInput(%q): results share storage", s)
			}
		}
		if long {
			c.Label("long text")
		} else {
			c.Label(fmt.Sprintf("%d integers", n))
		}
		c.Eval(s)
		c.Sample(map[string]any{"text": pbt.Clip(s, 100)})
	})
}

// integer reads -?[0-9]+.
func integer(s string) (*big.Int, bool) {
	d := strings.TrimPrefix(s, "-")
	if d == "" {
		return nil, false
	}
	x := new(big.Int)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return nil, false
		}
		x.Mul(x, big.NewInt(10)).Add(x, big.NewInt(int64(d[i]-'0')))
	}
	if len(d) != len(s) {
		x.Neg(x)
	}
	return x, true
}

func TestAnyBytes(t *testing.T) {
	pbt.Check(t, 300000, 2400000, func(c *pbt.C) {
		var s string
		if pbt.Chance(c, "random", 15) {
			s = string(pbt.BytesN(c, "s", pbt.IntN(c, "n", 0, 30)))
		} else {
			var parts []string
			for i, n := 0, pbt.IntN(c, "n", 0, 8); i < n; i++ {
				parts = append(parts, pbt.Pick(c, "t", ",", ",", "-", "0", "1", "9", "12", "007", "-5", "340282366920938463463374607431768211456", "+", " ", "x", "0x1", "1e5", ".", "_", "1_0", "\n", "\x00", "٣", "--", "-0", ";", "\xff", "/", ":", "3", "4", ",6", "7,"))
			}
			s = strings.Join(parts, "")
		}
		in := []byte(s)
		if s == "" && pbt.Chance(c, "nil", 50) {
			in = nil
		}
		var got []*big.Int
		var err error
		if p, st := pbt.Guard(func() { got, err = bc.ParseInput(in) }); p != nil {
			c.Fatalf("ParseInput(%q) panics: %v\n%s", s, p, st)
		}
		if !bytes.Equal(in, []byte(s)) {
			c.Fatalf("ParseInput changed its input %q", s)
		}
		// Empty pieces are not specified; everything else is.
		pieces := strings.Split(s, ",")
		bad, empty := false, false
		var want []*big.Int
		for _, p := range pieces {
			if p == "" {
				empty = true
				want = append(want, new(big.Int))
				continue
			}
			x, ok := integer(p)
			bad = bad || !ok
			want = append(want, x)
			y, e := bc.ConvertToBigInt([]byte(p))
			if (e == nil) != ok || ok && y.Cmp(x) != 0 {
				c.Fatalf("ConvertToBigInt(%q) = %v, %v", p, y, e)
			}
		}
		switch {
		case bad:
			if err == nil {
				c.Fatalf("ParseInput(%q) is accepted as %v", s, got)
			}
			c.Label("rejected")
		case empty:
			c.Label("with an empty piece")
		default:
			if err != nil || len(got) != len(want) {
				c.Fatalf("ParseInput(%q) = %v, %v", s, got, err)
			}
			for i := range want {
				if got[i].Cmp(want[i]) != 0 {
					c.Fatalf("ParseInput(%q) = %v", s, got)
				}
			}
			c.Label("accepted")
		}
		c.Eval(s)
		c.Sample(map[string]any{"text": fmt.Sprintf("%q", s), "error": err != nil})
	})
}
