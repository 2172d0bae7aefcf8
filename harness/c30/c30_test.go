package c30

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"

	"verif/bnx"
	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one commitment compared with an independent computation, or one pair of commitments and their sum; non-trivial = distinct (group, generator, message, randomness)")
}

// related makes g^x and h^r coincide or cancel in some cases, where h = k g.
func related(c *pbt.C, k, n *big.Int) (x, r *big.Int, how string) {
	x, r = pbt.IntSigned(c, "x", n), pbt.IntSigned(c, "r", n)
	switch pbt.Kind(c, "related", 8) {
	case 0:
		return new(big.Int).Mod(new(big.Int).Mul(k, r), n), r, "equal terms"
	case 1:
		return new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(k, r)), n), r, "opposite terms"
	case 2:
		return x, new(big.Int).Mul(n, big.NewInt(int64(pbt.IntN(c, "q", -2, 2)))), "no randomness"
	case 3:
		return new(big.Int).Mul(n, big.NewInt(int64(pbt.IntN(c, "q", -2, 2)))), r, "zero message"
	}
	return x, r, "general"
}

func TestP256(t *testing.T) {
	pbt.Check(t, 4000, 100000, func(c *pbt.C) {
		k := pbt.Uniform(c, "k", ref.N)
		rh := ref.G.Mul(k)
		known := true
		switch pbt.Kind(c, "h", 6) {
		case 0:
			k, rh = big.NewInt(1), ref.G
		case 1:
			k, rh = new(big.Int), ref.O
		case 2, 3:
			rh, known = ref.Setup(1).H, false
		}
		h := bpx.Lib(rh)
		x, r, how := related(c, k, ref.N)
		if !known && (how == "equal terms" || how == "opposite terms") {
			how = "general"
		}
		commit := func(x, r *big.Int) *p256.P256 {
			tx, tr := x.String(), r.String()
			var p *p256.P256
			var err error
			if pan, st := pbt.Guard(func() { p, err = util.CommitG1(x, r, h) }); pan != nil {
				c.Fatalf("CommitG1(%v, %v, %v) panics: %v\n%s", x, r, rh, pan, st)
			}
			if want := ref.Sum([]ref.Pt{ref.G, rh}, []*big.Int{x, r}); err != nil || !bpx.Ref(p).Eq(want) {
				c.Fatalf("CommitG1(%v, %v, %v) = %v (%v), expected %v", x, r, rh, bpx.Ref(p), err, want)
			}
			if x.String() != tx || r.String() != tr || !bpx.Ref(h).Eq(rh) {
				c.Fatalf("CommitG1(%s, %s, %v) changed its arguments to %v, %v, %v", tx, tr, rh, x, r, bpx.Ref(h))
			}
			c.Eval(fmt.Sprint("p256", rh, x, r))
			return p
		}
		p := commit(x, r)
		y, s := pbt.IntSigned(c, "y", ref.N), pbt.IntSigned(c, "s", ref.N)
		if pbt.Chance(c, "same", 10) {
			y, s = x, r
		}
		q := commit(y, s)
		sum := commit(new(big.Int).Add(x, y), new(big.Int).Add(r, s))
		if got := new(p256.P256).Multiply(p, q); !bpx.Ref(got).Eq(bpx.Ref(sum)) {
			c.Fatalf("commitments to (%v, %v) and (%v, %v) with %v do not add up", x, r, y, s, rh)
		}
		// shifting by a public constant
		d := big.NewInt(pbt.Int64N(c, "d", -1<<40, 1<<40))
		shift := commit(new(big.Int).Sub(x, d), r)
		if got := new(p256.P256).Multiply(shift, new(p256.P256).ScalarBaseMult(d)); !bpx.Ref(got).Eq(bpx.Ref(p)) {
			c.Fatalf("commitment to (%v, %v) with %v does not shift by %v", x, r, rh, d)
		}
		c.Label("p256 " + how)
		c.Sample(map[string]any{"group": "p256", "x": x.String(), "r": r.String(), "case": how})
	})
}

func TestG2(t *testing.T) {
	pbt.Check(t, 900, 24000, func(c *pbt.C) {
		k := pbt.Uniform(c, "k", bnx.Order)
		switch pbt.Kind(c, "h", 5) {
		case 0:
			k = big.NewInt(1)
		case 1:
			k = new(big.Int)
		}
		h, form := bnx.Make2(c, "h", k)
		x, r, how := related(c, k, bnx.Order)
		commit := func(x, r *big.Int) *bn256.G2 {
			tx, tr := x.String(), r.String()
			var p *bn256.G2
			var err error
			if pan, st := pbt.Guard(func() { p, err = util.Commit(x, r, h) }); pan != nil {
				c.Fatalf("Commit(%v, %v, %v G2) panics: %v\n%s", x, r, k, pan, st)
			}
			want := bnx.Enc2(new(big.Int).Add(x, new(big.Int).Mul(k, r)))
			if err != nil || !bytes.Equal(p.Marshal(), want) {
				c.Fatalf("Commit(%v, %v, %v G2 (%s)) = %x (%v), expected %x", x, r, k, form, p.Marshal(), err, want)
			}
			if x.String() != tx || r.String() != tr || !bytes.Equal(h.Marshal(), bnx.Enc2(k)) {
				c.Fatalf("Commit(%s, %s, %v G2) changed its arguments", tx, tr, k)
			}
			c.Eval(fmt.Sprint("g2", k, x, r))
			return p
		}
		p := commit(x, r)
		y, s := pbt.IntSigned(c, "y", bnx.Order), pbt.IntSigned(c, "s", bnx.Order)
		if pbt.Chance(c, "same", 10) {
			y, s = x, r
		}
		q := commit(y, s)
		sum := commit(new(big.Int).Add(x, y), new(big.Int).Add(r, s))
		if got := new(bn256.G2).Add(p, q); !bytes.Equal(got.Marshal(), sum.Marshal()) {
			c.Fatalf("commitments to (%v, %v) and (%v, %v) with %v G2 do not add up", x, r, y, s, k)
		}
		c.Label("g2 " + how)
		c.Sample(map[string]any{"group": "g2", "x": x.String(), "r": r.String(), "case": how, "generator": form})
	})
}
