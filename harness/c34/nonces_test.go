package c34

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

// nonces computes E^s_i, E^t_i and E^v_i for the random numbers of every digit, and H^m,
// from a proof and the secret, together with H^s_i to compare with the latter.
func nonces(c *pbt.C, s subject, p ccx.Parts, pub ccx.Public) (map[string]string, map[string]string) {
	g1 := new(bn256.G1).ScalarBaseMult(big.NewInt(1))
	e := bn256.Pair(g1, new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
	text := func(b []byte) string { return fmt.Sprintf("%x", b) }
	out, hs := map[string]string{}, map[string]string{}
	rest := new(big.Int).Set(s.x)
	base, weight, total := big.NewInt(s.s.Base), big.NewInt(1), new(big.Int)
	for i := range p.V {
		d := new(big.Int).Set(s.x)
		if !s.s.Set {
			rest.DivMod(rest, base, d)
		}
		si := new(big.Int).Add(p.Zsig[i], new(big.Int).Mul(d, p.Ch))
		si.Mod(si, bnx.Order)
		total.Add(total, new(big.Int).Mul(si, weight))
		weight = new(big.Int).Mul(weight, base)
		out[fmt.Sprintf("s%d", i)] = text(new(bn256.GT).ScalarMult(e, si).Marshal())
		hs[fmt.Sprintf("s%d", i)] = text(new(bn256.G2).ScalarMult(pub.H, si).Marshal())
		t := new(bn256.GT).ScalarMult(bn256.Pair(g1, p.V[i]), si)
		t.Add(t, p.A[i])
		out[fmt.Sprintf("t%d", i)] = text(t.Marshal())
		k := new(bn256.G1).Add(new(bn256.G1).ScalarMult(g1, d), pub.Key)
		out[fmt.Sprintf("v%d", i)] = text(bn256.Pair(k, p.V[i]).Marshal())
	}
	m := new(bn256.G2).Add(p.D, new(bn256.G2).ScalarBaseMult(total.Neg(total)))
	hs["m"] = text(m.Marshal())
	return out, hs
}

// No two random numbers of a proof, or of two proofs of one secret, are equal. This
// also reaches the last digits of long proofs.
func TestNonces(t *testing.T) {
	pbt.Check(t, 40, 1500, func(c *pbt.C) {
		s := scheme(c, pbt.Pick(c, "digits", 3, 9, 16))
		pub, ok := s.s.Public()
		if !ok {
			c.Undecided("elements of the parameters not found")
			return
		}
		seen, seenH := map[string]string{}, map[string]string{}
		for n, seed := range []uint64{pbt.SeedOf(c, "one"), pbt.SeedOf(c, "two")} {
			seed = 2*seed + uint64(n)
			o := prove(c, s, pbt.NewTape(seed))
			p, ok := s.s.Parts(o)
			if !ok || len(p.V) != s.s.Digits {
				c.Undecided("elements of the proof not found")
				return
			}
			if ok, err := s.s.Verify(o); !ok {
				c.Fatalf("%v: honest proof rejected: %v", s, err)
			}
			es, hs := nonces(c, s, p, pub)
			for _, set := range []struct{ values, seen map[string]string }{{es, seen}, {hs, seenH}} {
				for k, v := range set.values {
					if o := set.seen[v]; o != "" {
						c.Fatalf("%v: the random numbers %s of proof %d and %s are equal", s, k, n, o)
					}
					set.seen[v] = fmt.Sprintf("%s of proof %d", k, n)
				}
			}
			c.Eval(fmt.Sprint(s, "nonces", seed))
		}
		c.Label(fmt.Sprintf("random numbers of %d digits", s.s.Digits))
	})
}

// A source that returns fewer bytes than it was asked for, as io.Reader allows, is
// read until every random number (of a proof, a key or parameters) has its full width.
func TestShortReads(t *testing.T) {
	pbt.Check(t, 40, 800, func(c *pbt.C) {
		s := scheme(c, 3)
		seed := pbt.SeedOf(c, "seed")
		chunk := pbt.IntN(c, "chunk", 1, 31)
		for _, o := range []struct {
			name string
			run  func() error
		}{
			{"a proof", func() error { _, err := s.s.Prove(new(big.Int).Set(s.x), new(big.Int).Set(s.r)); return err }},
			{"a key", func() error { _, err := bbsignatures.Keygen(); return err }},
			{"parameters of a set", func() error { _, err := ccx.NewSet([]int64{1, 2}); return err }},
			{"parameters of digits", func() error { _, err := ccx.NewUL(2, 2); return err }},
		} {
			var width [2]int
			for i, k := range []int{0, chunk} {
				t := pbt.NewTape(seed)
				t.Chunk = k
				c.Use(t)
				if err := o.run(); err != nil {
					c.Fatalf("%v: %s (source returns %d bytes at a time, 0 for all): %v", s, o.name, k, err)
				}
				width[i] = t.Width()
			}
			c.Eval(fmt.Sprint("short", s, o.name, seed, chunk))
			c.Label("source returns few bytes at a time")
			if width[1] < width[0] {
				c.Fatalf("%v: for %s %d bytes are read from a source that returns %d bytes at a time instead of %d", s, o.name, width[1], chunk, width[0])
			}
		}
	})
}
