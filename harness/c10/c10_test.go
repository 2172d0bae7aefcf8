package c10

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bnx"
	"verif/bpx"
	"verif/ccx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one generator of generated parameters compared with the point that its label determines, or one search for a small multiple of a generated center that equals the second commitment generator of the pairing based schemes; non-trivial = distinct (parameters, generator or center)")
}

// All generators for a size are the points that their public labels determine.
func TestLabels(t *testing.T) {
	pbt.Check(t, 80, 800, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8, 16, 32)
		p := bpx.Params(c, n)
		r := ref.Setup(n)
		seen := map[string]string{}
		check := func(name string, got *p256.P256, want ref.Pt) {
			c.Eval(fmt.Sprint(n, name))
			c.Label(fmt.Sprintf("n=%d", n))
			g := bpx.Ref(got)
			if g.Inf || !g.OnCurve() {
				c.Fatalf("n=%d: %s is not a proper point of the curve", n, name)
			}
			k := g.X.String() // a point and its negative have a known relation
			if seen[k] != "" {
				c.Fatalf("n=%d: %s equals %s up to sign", n, name, seen[k])
			}
			seen[k] = name
			if !g.Eq(want) {
				c.Fatalf("n=%d: %s is not the point determined by its label: %v", n, name, got)
			}
		}
		check("G", p.G, ref.G)
		check("H", p.H, r.H)
		if len(p.Gg) != n || len(p.Hh) != n {
			c.Fatalf("n=%d: %d and %d generators", n, len(p.Gg), len(p.Hh))
		}
		for i := range p.Gg {
			check(fmt.Sprintf("Gg[%d]", i), p.Gg[i], r.Gg[i])
			check(fmt.Sprintf("Hh[%d]", i), p.Hh[i], r.Hh[i])
		}
		ip, err := bp.VerifSetupInnerProduct(nil, nil, nil, new(big.Int), int64(n))
		if err != nil {
			c.Fatalf("setup of the inner product argument: %v", err)
		}
		check("U", ip.Uu, r.U)
		same := func(name string, got *p256.P256, want ref.Pt) {
			if !bpx.Ref(got).Eq(want) {
				c.Fatalf("n=%d: %s of the inner product argument is not the point determined by its label: %v", n, name, got)
			}
		}
		same("H", ip.H, r.H)
		for i := range r.Gg {
			same(fmt.Sprintf("Gg[%d]", i), ip.Gg[i], r.Gg[i])
			same(fmt.Sprintf("Hh[%d]", i), ip.Hh[i], r.Hh[i])
		}
		// what a proof was really made with
		v := bpx.InRange(c, "v", n)
		q, err := bp.Prove(v, p)
		if err != nil {
			c.Fatalf("Prove: %v", err)
		}
		same("G of a proof", q.Params.G, ref.G)
		same("H of a proof", q.Params.H, r.H)
		if u := q.Params.InnerProductParams.Uu; u != nil {
			same("U of a proof", u, r.U)
		}
		c.Sample(map[string]any{"n": n, "generators": len(seen), "proof for": v.String()})
	})
}

// known is the public scalar of the known finding: the library generates the second
// generator from it.
var known, _ = new(big.Int).SetString("18560948149108576432482904553159745978835170526553990798435819795989606410925", 10)

// centers are numbers whose multiples a party could know.
func center(c *pbt.C, tape *pbt.Tape) (*big.Int, string) {
	switch pbt.Kind(c, "center", 8) {
	case 0, 1:
		return new(big.Int), "zero"
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(pbt.IntN(c, "e", 16, 253))), "power of two"
	case 3, 4: // randomness of the setup, as an integer
		if len(tape.Bytes) > 0 {
			b := tape.Bytes[pbt.Kind(c, "read", len(tape.Bytes))]
			x := new(big.Int).SetBytes(b)
			if pbt.Chance(c, "mask", 50) {
				x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bnx.Order.BitLen())), big.NewInt(1)))
			}
			return x.Mod(x, bnx.Order), "randomness of the setup"
		}
	case 5:
		return new(big.Int).Set(known), "the scalar of the known finding"
	case 6:
		return pbt.Pick(c, "modulus", new(big.Int).Mod(bnx.P, bnx.Order), new(big.Int).Mod(ref.N, bnx.Order), new(big.Int).Mod(ref.P, bnx.Order)), "a modulus"
	}
	return new(big.Int).Mod(ref.Signed(pbt.BytesN(c, "c", 8)), bnx.Order), "64 bits"
}

// within says whether H = (center + k) G2 for some |k| <= w*w, by baby and giant steps.
func within(h *bn256.G2, center *big.Int, w int64) (*big.Int, bool) {
	g := new(bn256.G2).ScalarBaseMult(big.NewInt(1))
	baby := map[string]int64{}
	p := new(bn256.G2).ScalarBaseMult(new(big.Int))
	for i := int64(0); i < w; i++ {
		baby[string(ccx.CopyG2(p).Marshal())] = i
		p = new(bn256.G2).Add(p, g)
	}
	// h - (center - w*w) G2 = j w G2 + i G2
	off := new(big.Int).Sub(center, big.NewInt(w*w))
	d := new(bn256.G2).Add(h, new(bn256.G2).ScalarBaseMult(new(big.Int).Sub(bnx.Order, bnx.Mod(off))))
	step := new(bn256.G2).ScalarBaseMult(new(big.Int).Sub(bnx.Order, big.NewInt(w)))
	for j := int64(0); j <= 2*w; j++ {
		if i, ok := baby[string(ccx.CopyG2(d).Marshal())]; ok {
			return off.Add(off, big.NewInt(j*w+i)), true
		}
		d = new(bn256.G2).Add(d, step)
	}
	return nil, false
}

// The second generator of the pairing based schemes.
func TestSecondGenerator(t *testing.T) {
	want := string(bnx.Enc2(known))
	pbt.Check(t, 64, 1500, func(c *pbt.C) {
		type gen struct {
			name string
			h    *bn256.G2
		}
		var hs []gen
		tape := c.Tape(pbt.SeedOf(c, "tape"))
		for i := 0; i < 2; i++ {
			var s *ccx.Scheme
			var err error
			name := ""
			switch pbt.Kind(c, "scheme", 2) {
			case 0:
				name = "set"
				s, err = ccx.NewSet([]int64{int64(pbt.IntN(c, "e", -9, 9))})
			case 1:
				name = "digits"
				s, err = ccx.NewUL(int64(pbt.IntN(c, "u", 2, 3)), int64(pbt.IntN(c, "l", 1, 3)))
			}
			if err != nil {
				c.Fatalf("setup: %v", err)
			}
			h, ok := ccx.Lookup[*bn256.G2](s.Params, "H")
			if !ok {
				c.Undecided("the parameters have no element H")
				return
			}
			hs = append(hs, gen{name, h})
		}
		h := hs[0].h
		enc := ccx.CopyG2(h).Marshal()
		if _, ok := new(bn256.G2).Unmarshal(enc); !ok {
			c.Fatalf("%s: the second generator is not an element of the group", hs[0].name)
		}
		if string(enc) != string(ccx.CopyG2(hs[1].h).Marshal()) {
			c.Fatalf("two setups (%s, %s) have different second generators: whoever ran them may know relations", hs[0].name, hs[1].name)
		}
		x, what := center(c, tape)
		c.Label("center: " + what)
		c.Eval(fmt.Sprint(hs[0].name, hs[1].name, x))
		c.Sample(map[string]any{"schemes": hs[0].name + "," + hs[1].name, "center": x.String(), "kind": what})
		if k, found := within(h, x, 220); found {
			if bnx.Mod(k).Cmp(bnx.Mod(known)) == 0 && string(enc) == want {
				c.Label("known finding: H is the known multiple of the base point")
				return
			}
			c.Fatalf("the second generator is a known multiple of the base point: %v (near %s)", k, what)
		}
	})
}
