package c03

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one interval, one integer, one proof, one verdict compared with a <= x < b; non-trivial = distinct (a, b, x)")
}

const full = int64(1) << 32

func clampAdd(a, d int64) int64 {
	s := new(big.Int).Add(big.NewInt(a), big.NewInt(d))
	if s.IsInt64() {
		return s.Int64()
	}
	if d > 0 {
		return math.MaxInt64
	}
	return math.MinInt64
}

func interval(c *pbt.C) (a, b int64) {
	switch pbt.Kind(c, "a.kind", 4) {
	case 0:
		a = int64(pbt.IntN(c, "a", -100, 100))
	case 1:
		a = pbt.Int64N(c, "a", math.MinInt64, math.MaxInt64)
	case 2:
		a = int64(pbt.SeedOf(c, "a")) - 1<<39
	case 3:
		a = pbt.Pick(c, "a", math.MinInt64, math.MinInt64+1, -full, -1, 0, 1, full-1, full, math.MaxInt64-full, math.MaxInt64-1)
	}
	switch pbt.Kind(c, "w.kind", 8) {
	case 0, 1, 2:
		b = clampAdd(a, int64(pbt.IntN(c, "w", 1, 300)))
	case 3, 4:
		b = clampAdd(a, 1+int64(pbt.SeedOf(c, "w"))%full)
	case 5:
		b = clampAdd(a, full-int64(pbt.IntN(c, "w", 0, 3)))
	case 6: // empty
		b = clampAdd(a, -int64(pbt.IntN(c, "w", 0, 5)))
	case 7: // too wide or very empty
		b = clampAdd(a, pbt.Pick(c, "w", full+1, full+2, 2*full, math.MaxInt64, -full, -full+1, -2*full))
	}
	return
}

func point(c *pbt.C, a, b int64) *big.Int {
	A, B := big.NewInt(a), big.NewInt(b)
	d := big.NewInt(int64(pbt.IntN(c, "d", -3, 3)))
	switch pbt.Kind(c, "x.kind", 9) {
	case 0, 1:
		return d.Add(d, A)
	case 2, 3:
		return d.Add(d, B)
	case 4: // where the first half wraps
		return d.Add(d, new(big.Int).Add(A, big.NewInt(full)))
	case 5:
		return d.Add(d, new(big.Int).Sub(B, big.NewInt(full)))
	case 6, 7: // inside
		w := new(big.Int).Sub(B, A)
		if w.Sign() <= 0 {
			return A
		}
		return w.Add(A, pbt.Uniform(c, "in", w))
	default: // anything, also far outside of int64
		return pbt.IntSigned(c, "x", bpx.Order)
	}
}

func TestExact(t *testing.T) {
	pbt.Check(t, 500, 9000, func(c *pbt.C) {
		a, b := interval(c)
		x := point(c, a, b)
		// Only residues modulo the order are committed to.
		if x.CmpAbs(new(big.Int).Rsh(bpx.Order, 1)) > 0 {
			x.Mod(x, bpx.Order)
		}
		w := new(big.Int).Sub(big.NewInt(b), big.NewInt(a))
		in := x.Cmp(big.NewInt(a)) >= 0 && x.Cmp(big.NewInt(b)) < 0
		wide := w.Cmp(big.NewInt(full)) > 0
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			if in && !wide {
				c.Fatalf("SetupGeneric(%d, %d): %v", a, b, err)
			}
			c.Label("refused by setup")
			return
		}
		c.Eval(fmt.Sprint(a, b, x))
		c.Sample(map[string]any{"a": a, "b": b, "x": x.String(), "member": in})
		var p bp.ProofBPRP
		pan, _ := pbt.Guard(func() { p, err = bp.ProveGeneric(new(big.Int).Set(x), params) })
		if pan != nil || err != nil {
			if in && !wide {
				c.Fatalf("ProveGeneric(%v) for [%d, %d): %v %v", x, a, b, err, pan)
			}
			c.Label("refused by the prover")
			return
		}
		if pbt.Chance(c, "json", 50) {
			p = bpx.ViaJSON(c, p)
		}
		ok, err := p.Verify()
		switch {
		case ok && !in:
			c.Fatalf("x=%v is not in [%d, %d) but the proof verifies", x, a, b)
		case !ok && in && !wide:
			c.Fatalf("x=%v is in [%d, %d) but the proof is rejected: %v", x, a, b, err)
		}
		switch {
		case wide:
			c.Label("too wide")
		case w.Sign() <= 0:
			c.Label("empty interval")
		case in:
			c.Label("member")
		default:
			c.Label("not a member")
		}
		if a < 0 && b > 0 {
			c.Label("interval around zero")
		} else if b <= 0 {
			c.Label("negative interval")
		}
	})
}

// Narrow intervals, every integer around them.
func TestAroundNarrow(t *testing.T) {
	pbt.Check(t, 24, 500, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -6, 6))
		if pbt.Chance(c, "far", 50) {
			a = int64(pbt.SeedOf(c, "a")) - 1<<39
		}
		w := int64(pbt.IntN(c, "w", 1, 4))
		params, err := bp.SetupGeneric(a, a+w)
		if err != nil {
			c.Fatalf("SetupGeneric(%d, %d): %v", a, a+w, err)
		}
		for x := a - 2; x < a+w+2; x++ {
			p, err := bp.ProveGeneric(big.NewInt(x), params)
			in := x >= a && x < a+w
			ok := false
			if err == nil {
				ok, _ = p.Verify()
			}
			c.Eval(fmt.Sprint("narrow", a, w, x))
			if ok != in {
				c.Fatalf("x=%d, interval [%d, %d): verdict %v", x, a, a+w, ok)
			}
		}
	})
}
