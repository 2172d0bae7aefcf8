package c02

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = the prover was run with a secret outside the range and the verifier on what it returned; non-trivial = distinct (size, secret, tape)")
}

func outside(c *pbt.C, n int) *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), uint(n))
	x := new(big.Int)
	switch k := pbt.Kind(c, "kind", 8); k {
	case 0: // just past the end
		x.Add(top, big.NewInt(int64(pbt.IntN(c, "past", 0, 3))))
		c.Label("just past the end")
	case 1: // just below zero
		x.SetInt64(-int64(pbt.IntN(c, "below", 1, 4)))
		c.Label("negative, small")
	case 2: // in range plus a multiple of 2^n
		x = bpx.InRange(c, "in", n)
		q := big.NewInt(int64(pbt.IntN(c, "q", -4, 4)))
		if q.Sign() == 0 {
			q.SetInt64(1)
		}
		x.Add(x, q.Mul(q, top))
		c.Label("differs by a multiple of 2^n")
	case 3: // in range plus a large multiple of 2^n
		x = bpx.InRange(c, "in", n)
		q := pbt.Uniform(c, "q", new(big.Int).Lsh(big.NewInt(1), 200))
		x.Add(x, q.Mul(q.Add(q, big.NewInt(1)), top))
		c.Label("differs by a large multiple of 2^n")
	case 4: // other powers of two
		x.Lsh(big.NewInt(1), uint(pbt.IntN(c, "e", n, 256)))
		x.Sub(x, big.NewInt(int64(pbt.IntN(c, "d", 0, 1))))
		c.Label("power of two")
	case 5: // around the order
		x.Sub(bpx.Order, big.NewInt(int64(pbt.IntN(c, "d", 1, 5))))
		c.Label("just below the order")
	case 6:
		x = pbt.IntSigned(c, "any", bpx.Order)
		c.Label("any integer")
	case 7: // negative with in-range bits
		x = bpx.InRange(c, "in", n)
		x.Neg(x)
		c.Label("negative of an element")
	}
	m := new(big.Int).Mod(x, bpx.Order)
	if m.Cmp(top) < 0 { // in the range modulo the order: not a case for this property
		x.Add(m, top)
	}
	return x
}

func TestOutside(t *testing.T) {
	pbt.Check(t, 2200, 40000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		v := outside(c, n)
		seed := pbt.SeedOf(c, "seed")
		tape := c.Tape(seed)
		if pbt.Chance(c, "odd", 25) {
			bpx.OddTape(c, tape, 5+2*n)
		}
		params := bpx.Params(c, n)
		var p bp.BulletProof
		var err error
		pan, _ := pbt.Guard(func() { p, err = bp.Prove(new(big.Int).Set(v), params) })
		c.Eval(fmt.Sprint(n, v, seed, tape.Over))
		c.Sample(map[string]any{"n": n, "secret": v.String()})
		if pan != nil || err != nil {
			c.Label("refused by the prover")
			return
		}
		for i, q := range []bp.BulletProof{p, bpx.ViaJSON(c, p)} {
			ok, _ := q.Verify()
			if ok {
				c.Fatalf("secret %v is outside [0, 2^%d) but its proof verifies (transport %d)", v, n, i)
			}
		}
		c.Label(fmt.Sprintf("n=%d", n))
	})
}

// The prover is given parameters of another size than the range it claims.
func TestResized(t *testing.T) {
	pbt.Check(t, 300, 6000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8)
		m := 2 * n
		v := outside(c, n)
		top := new(big.Int).Lsh(big.NewInt(1), uint(m))
		v.Mod(v, top)
		if v.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n))) < 0 {
			v.SetBit(v, n, 1)
		}
		p, err := bp.Prove(v, bpx.Params(c, m))
		if err != nil {
			return
		}
		// The proof is valid for 2^m. It must not pass as one for 2^n, in whatever way
		// the parameters of the smaller range are put into it.
		small := bpx.Params(c, n)
		q := bpx.Clone(p)
		how := pbt.Kind(c, "how", 4)
		switch how {
		case 0:
			q.Params = small
		case 1:
			q.Params.N = int64(n)
		case 2:
			q.Params = small
			q.InnerProductProof.N = int64(n)
			q.InnerProductProof.Params.N = int64(n)
			q.InnerProductProof.Params.Gg = small.Gg
			q.InnerProductProof.Params.Hh = small.Hh
		case 3:
			q.Params = small
			k := len(q.InnerProductProof.Ls) - 1
			q.InnerProductProof.N = int64(n)
			q.InnerProductProof.Ls = q.InnerProductProof.Ls[:k]
			q.InnerProductProof.Rs = q.InnerProductProof.Rs[:k]
		}
		c.Eval(fmt.Sprint("resized", n, v, how))
		c.Sample(map[string]any{"claimed": n, "made_for": m, "secret": v.String(), "how": how})
		var ok bool
		pbt.Guard(func() { ok, _ = q.Verify() }) // panics are the subject of C07
		if ok {
			c.Fatalf("a proof of %v made for 2^%d verifies for 2^%d (way %d)", v, m, n, how)
		}
	})
}
