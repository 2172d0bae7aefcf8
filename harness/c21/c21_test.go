package c21

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	cf "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one pairing or product of pairings compared with exponent arithmetic and with an independent implementation; non-trivial = distinct (exponents, representations)")
}

func TestPair(t *testing.T) {
	pbt.Check(t, 1200, 30000, func(c *pbt.C) {
		a, b := bnx.Exponent(c, "a"), bnx.Exponent(c, "b")
		p, hp := bnx.Make1(c, "P", a)
		q, hq := bnx.Make2(c, "Q", b)
		e := bn256.Pair(p, q)
		ab := new(big.Int).Mul(a, b)
		if !bytes.Equal(e.Marshal(), bnx.EncT(ab)) {
			c.Fatalf("the pairing of %v G1 (%s) and %v G2 (%s) is not e(G1,G2)^(%v)", a, hp, b, hq, ab)
		}
		if e.IsOne() != bnx.Zero(ab) {
			c.Fatalf("the pairing of %v G1 and %v G2: IsOne = %v", a, b, e.IsOne())
		}
		// The independent implementation, from the coordinates of the same points.
		if !bnx.Zero(a) && !bnx.Zero(b) {
			rp, rq := new(cf.G1), new(cf.G2)
			if _, err := rp.Unmarshal(p.Marshal()); err != nil {
				c.Fatalf("%v G1 (%s) is not a point: %v", a, hp, err)
			}
			if _, err := rq.Unmarshal(q.Marshal()); err != nil {
				c.Fatalf("%v G2 (%s) is not a point: %v", b, hq, err)
			}
			if !bytes.Equal(cf.Pair(rp, rq).Marshal(), e.Marshal()) {
				c.Fatalf("the pairing of %v G1 (%s) and %v G2 (%s) differs from the independent one", a, hp, b, hq)
			}
		} else {
			c.Label("identity")
		}
		// Pairing reads its arguments.
		if !bytes.Equal(p.Marshal(), bnx.Enc1(a)) || !bytes.Equal(q.Marshal(), bnx.Enc2(b)) {
			c.Fatalf("Pair changed an argument: %v (%s), %v (%s)", a, hp, b, hq)
		}
		if pbt.Chance(c, "again", 20) && !bytes.Equal(bn256.Pair(p, q).Marshal(), e.Marshal()) {
			c.Fatalf("pairing %v (%s), %v (%s) twice gives different results", a, hp, b, hq)
		}
		c.Label("P " + hp)
		c.Label("Q " + hq)
		c.Eval(fmt.Sprint(a, hp, b, hq))
		c.Sample(map[string]any{"a": a.String(), "b": b.String(), "P": hp, "Q": hq})
	})
}

// e(P+P', Q) = e(P,Q) e(P',Q) and the same on the right, computed with the library only.
func TestBilinear(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		a, a2, b, b2 := bnx.Exponent(c, "a"), bnx.Exponent(c, "a2"), bnx.Exponent(c, "b"), bnx.Exponent(c, "b2")
		p, _ := bnx.Make1(c, "P", a)
		p2, _ := bnx.Make1(c, "P2", a2)
		q, _ := bnx.Make2(c, "Q", b)
		q2, _ := bnx.Make2(c, "Q2", b2)
		l := bn256.Pair(new(bn256.G1).Add(p, p2), new(bn256.G2).Add(q, q2))
		r := new(bn256.GT).Add(bn256.Pair(p, q), bn256.Pair(p, q2))
		r.Add(r, bn256.Pair(p2, q))
		r.Add(r, bn256.Pair(p2, q2))
		if !bytes.Equal(l.Marshal(), r.Marshal()) {
			c.Fatalf("not bilinear at %v, %v, %v, %v", a, a2, b, b2)
		}
		c.Eval(fmt.Sprint(a, a2, b, b2))
	})
}

func TestProduct(t *testing.T) {
	pbt.Check(t, 800, 16000, func(c *pbt.C) {
		n := pbt.IntN(c, "n", 0, 5)
		if pbt.Chance(c, "longer", 3) {
			n = pbt.IntN(c, "n", 6, 24)
		}
		var as []*bn256.G1
		var bs []*bn256.G2
		sum := new(big.Int)
		key := ""
		for i := 0; i < n; i++ {
			a, b := bnx.Exponent(c, "a"), bnx.Exponent(c, "b")
			if i == n-1 && !bnx.Zero(b) && pbt.Chance(c, "balance", 70) {
				// complete the sum to zero, or miss zero slightly
				a = new(big.Int).Mul(new(big.Int).Neg(sum), new(big.Int).ModInverse(bnx.Mod(b), bnx.Order))
				if pbt.Chance(c, "miss", 30) {
					a.Add(a, big.NewInt(int64(pbt.IntN(c, "by", -2, 2))))
				}
				a = bnx.Mod(a)
			}
			p, hp := bnx.Make1(c, "P", a)
			q, hq := bnx.Make2(c, "Q", b)
			as, bs = append(as, p), append(bs, q)
			sum.Add(sum, new(big.Int).Mul(a, b))
			key += fmt.Sprint(a, hp, b, hq, ";")
		}
		// the order of the pairs does not matter
		if n > 1 && pbt.Chance(c, "rotate", 50) {
			as, bs = append(as[1:], as[0]), append(bs[1:], bs[0])
		}
		want := bnx.Zero(sum)
		if got := bn256.PairingCheck(as, bs); got != want {
			c.Fatalf("PairingCheck = %v, the exponents sum to zero: %v\n%s", got, want, key)
		}
		if want {
			c.Label("product is one")
		} else {
			c.Label("product is not one")
		}
		c.Eval(key)
		c.Sample(map[string]any{"pairs": n, "exponents": key, "one": want})
	})
}
