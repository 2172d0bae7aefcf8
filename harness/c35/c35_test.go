package c35

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/util"

	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one integer decomposed and its digits recombined; non-trivial = distinct (integer, base, length) with length at least 1")
}

func base(c *pbt.C) int64 {
	switch pbt.Kind(c, "u.kind", 6) {
	case 0:
		return 2
	case 1:
		return pbt.Pick(c, "u", int64(10), 57, 16, 256, 1<<32, 1<<62, 1<<63-1, 1<<31, 1<<32-1)
	case 2:
		return int64(pbt.IntN(c, "u", 2, 300))
	case 3:
		return pbt.Int64N(c, "u", 2, 1<<63-1)
	}
	return int64(pbt.IntN(c, "u", 2, 20))
}

func TestDecompose(t *testing.T) {
	pbt.Check(t, 160000, 1500000, func(c *pbt.C) {
		u := base(c)
		l := int64(pbt.IntN(c, "l", 0, 70))
		if pbt.Chance(c, "longer", 3) {
			l = int64(pbt.IntN(c, "l", 71, 600))
		}
		if pbt.Chance(c, "short", 60) {
			l = int64(pbt.IntN(c, "l", 1, 8))
		}
		ub := big.NewInt(u)
		top := new(big.Int).Exp(ub, big.NewInt(l), nil)
		var x *big.Int
		switch pbt.Kind(c, "x.kind", 6) {
		case 0:
			x = pbt.IntSigned(c, "x", top)
		case 1: // around a power of the base
			x = new(big.Int).Exp(ub, big.NewInt(int64(pbt.IntN(c, "e", 0, int(l)+1))), nil)
			x.Add(x, big.NewInt(int64(pbt.IntN(c, "d", -2, 2))))
			if pbt.Chance(c, "neg", 30) {
				x.Neg(x)
			}
		case 2: // from chosen digits
			x = new(big.Int)
			for i := int64(0); i < l; i++ {
				d := pbt.Pick(c, "digit", 0, 1, u-1, u/2)
				x.Mul(x, ub).Add(x, big.NewInt(d))
			}
		case 3:
			x = pbt.IntSigned(c, "x", ref.N)
		default:
			x = pbt.Uniform(c, "x", top)
		}
		arg := new(big.Int).Set(x)
		var d []int64
		var err error
		if p, st := pbt.Guard(func() { d, err = util.Decompose(arg, u, l) }); p != nil {
			c.Fatalf("Decompose(%v, %d, %d) panics: %v\n%s", x, u, l, p, st)
		}
		if err != nil || int64(len(d)) != l {
			c.Fatalf("Decompose(%v, %d, %d) = %v, %v", x, u, l, d, err)
		}
		if arg.Cmp(x) != 0 {
			c.Fatalf("Decompose changed %v to %v", x, arg)
		}
		sum := new(big.Int)
		for i := l - 1; i >= 0; i-- {
			if d[i] < 0 || d[i] >= u {
				c.Fatalf("Decompose(%v, %d, %d) = %v: digit %d is out of range", x, u, l, d, i)
			}
			sum.Mul(sum, ub).Add(sum, big.NewInt(d[i]))
		}
		diff := new(big.Int).Sub(x, sum)
		if diff.Mod(diff, top).Sign() != 0 {
			c.Fatalf("Decompose(%v, %d, %d) = %v, which denotes %v", x, u, l, d, sum)
		}
		in := x.Sign() >= 0 && x.Cmp(top) < 0
		if in != (sum.Cmp(x) == 0) {
			c.Fatalf("Decompose(%v, %d, %d) = %v denotes %v, in range: %v", x, u, l, d, sum, in)
		}
		again, err := util.Decompose(x, u, l)
		if err != nil || fmt.Sprint(again) != fmt.Sprint(d) {
			c.Fatalf("Decompose(%v, %d, %d) = %v and then %v (%v)", x, u, l, d, again, err)
		}
		c.Label(fmt.Sprintf("in range %v", in))
		if x.Sign() < 0 {
			c.Label("negative")
		}
		key := ""
		if l > 0 {
			key = fmt.Sprint(x, u, l)
		}
		c.Eval(key)
		c.Sample(map[string]any{"x": pbt.Clip(x.String(), 60), "base": u, "length": l})
	})
}
