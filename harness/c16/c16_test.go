package c16

import (
	"fmt"
	"math/big"
	"testing"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one integer for which a proof of membership in [a, b) is made and verified, or one refused setup; non-trivial = distinct (bounds, integer, randomness)")
}

// bounds draws 0 <= a <= b, b >= 2; powers of 57 are where the number of digits changes.
func bounds(c *pbt.C) (a, b int64) {
	switch pbt.Kind(c, "b.kind", 9) {
	case 0:
		b = int64(pbt.IntN(c, "b", 2, 6))
	case 1, 2:
		p := int64(1)
		for i := pbt.Pick(c, "e", 1, 1, 2, 2, 3, 4, 6, 8, 9, 10); i > 0; i-- {
			p *= 57
		}
		b = p + int64(pbt.IntN(c, "d", -1, 1))
	case 3:
		b = int64(1)<<uint(pbt.IntN(c, "e", 1, 20)) + int64(pbt.IntN(c, "d", -1, 1))
	case 4:
		b = pbt.Int64N(c, "b", 2, 1<<32)
	case 5:
		if pbt.Chance(c, "huge", 30) {
			b = pbt.Pick(c, "b", int64(1)<<62, 1<<63-1, 1<<53+1)
		} else {
			b = int64(pbt.IntN(c, "b", 2, 300))
		}
	default:
		b = int64(pbt.IntN(c, "b", 2, 4000))
	}
	if b < 2 {
		b = 2
	}
	switch pbt.Kind(c, "a.kind", 6) {
	case 0:
		a = 0
	case 1:
		a = b
	case 2:
		a = b - 1
	case 3:
		a = 1
	default:
		a = new(big.Int).Mod(new(big.Int).SetUint64(pbt.SeedOf(c, "a")<<24), big.NewInt(b)).Int64()
	}
	return
}

func inside(a, b int64, x *big.Int) bool {
	return x.Cmp(big.NewInt(a)) >= 0 && x.Cmp(big.NewInt(b)) < 0
}

func try(c *pbt.C, z *ccx.Range, a, b int64, x *big.Int, complete bool) {
	r := pbt.Uniform(c, "r", bnx.Order)
	if pbt.Chance(c, "odd r", 20) {
		r = pbt.IntSigned(c, "r", bnx.Order)
	}
	what := fmt.Sprintf("[%d, %d) x=%v r=%v", a, b, x, r)
	in := inside(a, b, x)
	ax := new(big.Int).Set(x)
	err, _ := z.Prove(ax, new(big.Int).Set(r))
	if ax.Cmp(x) != 0 {
		c.Fatalf("%s: Prove changed the secret to %v", what, ax)
	}
	if err != nil && in && complete {
		c.Fatalf("%s: Prove: %v", what, err)
	}
	ok := false
	if err == nil {
		ok, err = z.Accepts()
	}
	if ok && !in {
		c.Fatalf("%s: out of range, but accepted", what)
	}
	if in && complete && (!ok || err != nil) {
		c.Fatalf("%s: honest proof rejected: %v", what, err)
	}
	c.Label(fmt.Sprintf("in range %v", in))
	c.Eval(what)
	c.Sample(map[string]any{"a": a, "b": b, "x": pbt.Clip(x.String(), 50), "in": in})
}

func TestInterval(t *testing.T) {
	pbt.Check(t, 130, 2300, func(c *pbt.C) {
		a, b := bounds(c)
		z, err := ccx.NewRange(a, b)
		if pbt.Chance(c, "set up before", 20) {
			// the same object was used for another interval
			u, v := int64(pbt.IntN(c, "u", 0, 60)), int64(pbt.IntN(c, "v", 60, 3300))
			if z, err = ccx.NewRange(u, v); err != nil {
				c.Fatalf("Setup(%d, %d): %v", u, v, err)
			}
			if pbt.Chance(c, "proof before", 50) {
				try(c, z, u, v, big.NewInt(pbt.Pick(c, "x", u, v-1, v)), true)
			}
			err = z.Z.Setup(a, b)
			c.Label("second setup of one object")
		}
		if err != nil {
			c.Fatalf("Setup(%d, %d): %v", a, b, err)
		}
		n := pbt.IntN(c, "tries", 2, 3)
		if b > 1<<32 {
			n = 1
		}
		for i := 0; i < n; i++ {
			var x *big.Int
			A, B := big.NewInt(a), big.NewInt(b)
			switch pbt.Kind(c, "x.kind", 10) {
			case 0, 1:
				x = A
			case 2, 3:
				x = new(big.Int).Sub(B, big.NewInt(1))
			case 4:
				x = B
			case 5:
				x = new(big.Int).Sub(A, big.NewInt(1))
			case 6: // in range of one half only, or by a multiple of the digits' capacity
				x = new(big.Int).Exp(big.NewInt(57), big.NewInt(int64(pbt.IntN(c, "e", 1, 4))), nil)
				x.Mul(x, big.NewInt(int64(pbt.Pick(c, "q", -1, 1))))
				x.Add(x, pbt.Pick(c, "base", A, B))
			case 7:
				x = pbt.IntSigned(c, "x", bnx.Order)
				// only integers whose residue tells them apart
				if m := bnx.Mod(x); m.Cmp(x) != 0 && inside(a, b, m) {
					x = B
				}
			default:
				w := new(big.Int).Sub(B, A)
				if w.Sign() == 0 {
					w.SetInt64(1)
				}
				x = new(big.Int).Add(A, pbt.Uniform(c, "x", w))
			}
			try(c, z, a, b, x, true)
		}
	})
}

// The ends of intervals at which the number of digits changes.
func TestCapacity(t *testing.T) {
	pbt.Check(t, 140, 2400, func(c *pbt.C) {
		b := int64(1)
		for i := pbt.IntN(c, "e", 1, 10); i > 0; i-- {
			b *= 57
		}
		b += int64(pbt.IntN(c, "d", -1, 1))
		a := pbt.Pick(c, "a", 0, 0, 0, 1, b-1)
		z, err := ccx.NewRange(a, b)
		if err != nil {
			c.Fatalf("Setup(%d, %d): %v", a, b, err)
		}
		try(c, z, a, b, big.NewInt(pbt.Pick(c, "x", b-1, a)), true)
	})
}

// Bounds for which no proofs are promised.
func TestOtherBounds(t *testing.T) {
	pbt.Check(t, 120, 2000, func(c *pbt.C) {
		var a, b int64
		how := pbt.Pick(c, "kind", "reversed", "end not positive", "end one", "negative start")
		switch how {
		case "reversed":
			b = pbt.Int64N(c, "b", -1<<40, 1<<40)
			a = b + 1 + pbt.Int64N(c, "d", 0, 1<<40)
		case "end not positive":
			b = -int64(pbt.Pick(c, "b", 0, 0, 1, 2, 57, 1000))
			a = b - int64(pbt.IntN(c, "d", 0, 3))
		case "end one":
			b, a = 1, 1-int64(pbt.IntN(c, "d", 0, 3))
		case "negative start":
			b = int64(pbt.IntN(c, "b", 2, 100))
			a = -int64(pbt.IntN(c, "a", 1, 200))
		}
		var z *ccx.Range
		var err error
		if p, st := pbt.Guard(func() { z, err = ccx.NewRange(a, b) }); p != nil {
			c.Fatalf("Setup(%d, %d) panics: %v\n%s", a, b, p, st)
		}
		c.Label(how)
		if err != nil {
			c.Eval(fmt.Sprint(a, b))
			c.Label(how + ": refused")
			return
		}
		if how == "reversed" {
			c.Fatalf("Setup(%d, %d) succeeds", a, b)
		}
		for i := 0; i < 2; i++ {
			x := big.NewInt(pbt.Pick(c, "x", a-1, b, a, b-1, 0, 1, a-57, b+57))
			try(c, z, a, b, x, false)
		}
	})
}
