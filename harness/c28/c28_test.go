package c28

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/util/bn"

	"verif/bnx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one call compared with its mathematical definition, including what happens to arguments and storage; non-trivial = distinct (function, arguments)")
}

// words copies the internal words, so that sharing of storage is noticed.
func scribble(x *big.Int) {
	w := x.Bits()
	w = w[:cap(w)]
	for i := range w {
		w[i] ^= 0x5555
	}
}

func modulus(c *pbt.C) *big.Int {
	switch pbt.Kind(c, "m.kind", 6) {
	case 0:
		return big.NewInt(int64(pbt.IntN(c, "m", 1, 40)))
	case 1:
		return ref.N
	case 2:
		return bnx.Order
	case 3:
		return new(big.Int).Lsh(big.NewInt(1), uint(pbt.IntN(c, "m", 0, 300)))
	case 4:
		return ref.P
	}
	m := pbt.Int(c, "m", ref.N)
	m = new(big.Int).Abs(m)
	if m.Sign() == 0 {
		m.SetInt64(1)
	}
	return m
}

// mod is the representative in [0, m).
func mod(x, m *big.Int) *big.Int {
	_, r := new(big.Int).QuoRem(x, m, new(big.Int))
	if r.Sign() < 0 {
		r.Add(r, m)
	}
	return r
}

// gcdInv is the inverse by the extended algorithm, or nil.
func gcdInv(x, m *big.Int) *big.Int {
	a, b := mod(x, m), new(big.Int).Set(m)
	u, v := big.NewInt(1), new(big.Int)
	for b.Sign() != 0 {
		q := new(big.Int).Div(a, b)
		a, b = b, new(big.Int).Sub(a, new(big.Int).Mul(q, b))
		u, v = v, new(big.Int).Sub(u, new(big.Int).Mul(q, v))
	}
	if a.Cmp(big.NewInt(1)) != 0 {
		return nil
	}
	return mod(u, m)
}

// power by repeated squaring from the top bit.
func power(x, e, m *big.Int) *big.Int {
	r := mod(big.NewInt(1), m)
	b := mod(x, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = mod(new(big.Int).Mul(r, r), m)
		if e.Bit(i) == 1 {
			r = mod(new(big.Int).Mul(r, b), m)
		}
	}
	return r
}

func same(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Cmp(b) == 0
}

func TestArithmetic(t *testing.T) {
	pbt.Check(t, 240000, 1920000, func(c *pbt.C) {
		m := new(big.Int).Set(modulus(c))
		x, y := pbt.IntSigned(c, "x", m), pbt.IntSigned(c, "y", m)
		if pbt.Chance(c, "same object", 10) {
			y = x
		}
		fn := pbt.Pick(c, "f", "Add", "Sub", "Multiply", "Mod", "ModInverse", "ModPow", "ModPow")
		args := []*big.Int{x, y}
		var want *big.Int
		var call func() *big.Int
		switch fn {
		case "Add":
			want, call = new(big.Int).Add(x, y), func() *big.Int { return bn.Add(x, y) }
			// checked against subtraction as well, below
		case "Sub":
			want, call = new(big.Int).Add(x, new(big.Int).Neg(y)), func() *big.Int { return bn.Sub(x, y) }
		case "Multiply":
			want, call = new(big.Int).Mul(x, y), func() *big.Int { return bn.Multiply(x, y) }
		case "Mod":
			args = []*big.Int{x, m}
			want, call = mod(x, m), func() *big.Int { return bn.Mod(x, m) }
		case "ModInverse":
			args = []*big.Int{x, m}
			want, call = gcdInv(x, m), func() *big.Int { return bn.ModInverse(x, m) }
		case "ModPow":
			if pbt.Chance(c, "small exponent", 50) {
				y = big.NewInt(int64(pbt.IntN(c, "e", -12, 12)))
			}
			args = []*big.Int{x, y, m}
			if y.Sign() >= 0 {
				want = power(x, y, m)
			} else if i := gcdInv(x, m); i != nil {
				want = power(i, new(big.Int).Neg(y), m)
			}
			call = func() *big.Int { return bn.ModPow(x, y, m) }
		}
		before := make([]string, len(args))
		for i := range args {
			before[i] = args[i].String()
		}
		what := fmt.Sprintf("%s%v", fn, before)
		var got *big.Int
		if p, st := pbt.Guard(func() { got = call() }); p != nil {
			c.Fatalf("%s panics: %v\n%s", what, p, st)
		}
		if !same(got, want) {
			c.Fatalf("%s = %v, expected %v", what, got, want)
		}
		if want == nil {
			c.Label("no inverse")
		}
		check := func(when string) {
			for i := range args {
				if args[i].String() != before[i] {
					c.Fatalf("%s changed argument %d to %v %s", what, i, args[i], when)
				}
			}
		}
		check("during the call")
		if got != nil {
			for i := range args {
				if got == args[i] {
					c.Fatalf("%s returns its argument %d", what, i)
				}
			}
			scribble(got)
			check("when its result was overwritten")
		}
		c.Label(fn)
		if fn == "ModPow" && y.Sign() < 0 {
			c.Label("negative exponent")
		}
		c.Eval(what)
		c.Sample(map[string]any{"call": pbt.Clip(what, 200)})
	})
}
