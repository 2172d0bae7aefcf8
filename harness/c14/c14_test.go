package c14

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one attempt to prove membership of an integer in a generated set and, if a proof results, its verification under parameters of this or another setup; non-trivial = distinct (set, integer, randomness, random tape)")
}

func element(c *pbt.C) int64 {
	switch pbt.Kind(c, "e.kind", 5) {
	case 0:
		return int64(pbt.IntN(c, "e", -3, 3))
	case 1:
		return pbt.Pick(c, "e", int64(1)<<62, 1<<63-1, -1<<63, -1<<63+1, 1<<32, 1<<31, -1<<31, 1<<53)
	case 2:
		return pbt.Int64N(c, "e", -1<<63, 1<<63-1)
	}
	return int64(pbt.IntN(c, "e", -200, 200))
}

// Order and its multiples do not fit in an int64, so distinct elements are distinct
// modulo the order.
func set(c *pbt.C) []int64 {
	n := pbt.Pick(c, "size", 1, 1, 2, 3, 4, 5, 8, 0)
	if pbt.Chance(c, "large", 4) {
		n = pbt.Pick(c, "size", 9, 10, 11, 17, 33)
	}
	s := make([]int64, n)
	for i := range s {
		if i > 0 && pbt.Chance(c, "dup", 10) {
			s[i] = s[i-1]
		} else {
			s[i] = element(c)
		}
	}
	return s
}

func contains(s []int64, x int64) bool {
	for _, e := range s {
		if e == x {
			return true
		}
	}
	return false
}

func setup(c *pbt.C, s []int64) *ccx.Scheme {
	t := append([]int64{}, s...)
	var p *ccx.Scheme
	var err error
	if pan, st := pbt.Guard(func() { p, err = ccx.NewSet(t) }); pan != nil {
		c.Fatalf("SetupSet(%v) panics: %v\n%s", s, pan, st)
	}
	if err != nil {
		c.Fatalf("SetupSet(%v): %v", s, err)
	}
	if fmt.Sprint(s) != fmt.Sprint(t) {
		c.Fatalf("SetupSet changed %v to %v", s, t)
	}
	return p
}

func randomness(c *pbt.C) *big.Int { return pbt.IntSigned(c, "r", bnx.Order) }

func TestMembership(t *testing.T) {
	pbt.Check(t, 420, 9000, func(c *pbt.C) {
		s := set(c)
		p := setup(c, s)
		tries := pbt.IntN(c, "tries", 1, 2)
		for i := 0; i < tries; i++ {
			var x int64
			switch {
			case len(s) > 0 && pbt.Chance(c, "member", 60):
				x = s[pbt.Kind(c, "which", len(s))]
			case len(s) > 0 && pbt.Chance(c, "near", 60): // close to an element
				e := s[pbt.Kind(c, "which", len(s))]
				x = pbt.Pick(c, "near by", e+1, e-1, -e, e^(1<<32), e^(1<<63-1), 2*e, e^(-1<<63), int64(int32(e)))
			default:
				x = element(c)
			}
			r := randomness(c)
			seed := pbt.SeedOf(c, "tape")
			c.Tape(seed)
			arg := new(big.Int).Set(r)
			var o ccx.Obj
			var err error
			if pan, st := pbt.Guard(func() { o, err = p.Prove(big.NewInt(x), arg) }); pan != nil {
				c.Fatalf("ProveSet(%d) for %v panics: %v\n%s", x, s, pan, st)
			}
			if arg.Cmp(r) != 0 {
				c.Fatalf("ProveSet changed the randomness from %v to %v", r, arg)
			}
			in := contains(s, x)
			if (err == nil) != in {
				c.Fatalf("ProveSet(%d) for %v: error %v", x, s, err)
			}
			c.Label(fmt.Sprintf("member=%v", in))
			c.Eval(fmt.Sprint(s, x, r, seed))
			c.Sample(map[string]any{"set": s, "x": x, "randomness": pbt.Clip(r.String(), 40)})
			if !in {
				if err == nil && p.Accepts(o) {
					c.Fatalf("%d is not in %v, but was proved to be", x, s)
				}
				continue
			}
			ok, err := p.Verify(o)
			if !ok || err != nil {
				c.Fatalf("proof of %d in %v with randomness %v rejected: %v, %v", x, s, r, ok, err)
			}
			if parts, good := p.Parts(o); good {
				pub, good := p.Public()
				if !good {
					c.Undecided("parameters")
				} else if want, err := util.Commit(big.NewInt(x), r, pub.H); err == nil && !bytes.Equal(want.Marshal(), parts.C.Marshal()) {
					c.Fatalf("the proof of %d in %v is about another commitment", x, s)
				}
			} else {
				c.Undecided("elements of the proof")
			}
		}
	})
}

// A commitment to something that is not in the set, for which the prover uses the
// signature of an element: everything else is computed as usual.
func TestNotMember(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		s := set(c)
		if len(s) == 0 {
			s = []int64{5}
		}
		p := setup(c, s)
		pub, good := p.Public()
		if !good {
			c.Undecided("parameters")
			return
		}
		e := s[pbt.Kind(c, "which", len(s))]
		x := big.NewInt(e)
		x.Add(x, big.NewInt(pbt.Pick(c, "off", int64(1), -1, 2, 1<<40)))
		if contains(s, x.Int64()) && x.IsInt64() {
			x.Lsh(big.NewInt(1), 100)
		}
		sig := pub.Sigs[e]
		if sig == nil {
			c.Undecided("signatures")
			return
		}
		ps := ccx.Parts{}
		m, v, ss, tt, r := rnd(c, "m"), rnd(c, "v"), rnd(c, "s"), rnd(c, "t"), rnd(c, "r")
		V := new(bn256.G2).ScalarMult(sig, v)
		D := new(bn256.G2).ScalarMult(pub.H, m)
		D.Add(D, new(bn256.G2).ScalarBaseMult(ss))
		a := bn256.Pair(util.G1, V)
		a.ScalarMult(a, bnx.Mod(new(big.Int).Neg(ss)))
		a.Add(a, new(bn256.GT).ScalarMult(util.E, tt))
		C, _ := util.Commit(x, r, pub.H)
		ch, err := util.HashSet(a, D, C, V)
		if err != nil {
			c.Fatalf("HashSet: %v", err)
		}
		ch = bnx.Mod(ch)
		resp := func(k, w *big.Int) *big.Int { return bnx.Mod(new(big.Int).Sub(k, new(big.Int).Mul(w, ch))) }
		z := big.NewInt(e)
		how := pbt.Pick(c, "response", "for the element", "for the integer")
		if how == "for the integer" {
			z = x
		}
		ps = ccx.Parts{V: []*bn256.G2{V}, D: D, C: C, A: []*bn256.GT{a}, Zsig: []*big.Int{resp(ss, z)}, Zv: []*big.Int{resp(tt, v)}, Ch: ch, Zr: resp(m, r)}
		o, good := p.Build(ps)
		if !good {
			c.Undecided("elements of the proof")
			return
		}
		if p.Accepts(o) {
			c.Fatalf("%v is not in %v, but a proof with the signature of %d (response %s) is accepted", x, s, e, how)
		}
		// the same with the element itself is fine: this validates the construction
		if pbt.Chance(c, "control", 30) {
			C, _ := util.Commit(big.NewInt(e), r, pub.H)
			ch, _ = util.HashSet(a, D, C, V)
			ch = bnx.Mod(ch)
			ps.C, ps.Ch, ps.Zsig, ps.Zv, ps.Zr = C, ch, []*big.Int{resp(ss, big.NewInt(e))}, []*big.Int{resp(tt, v)}, resp(m, r)
			o, _ = p.Build(ps)
			if p.Accepts(o) {
				c.Label("control accepted")
			} else {
				c.Undecided("the protocol has changed: constructed proof of an element is rejected")
			}
		}
		c.Label(how)
		c.Eval(fmt.Sprint(s, x, how, m))
	})
}

func rnd(c *pbt.C, label string) *big.Int {
	x := pbt.Uniform(c, label, new(big.Int).Sub(bnx.Order, big.NewInt(1)))
	return x.Add(x, big.NewInt(1))
}

// Parameters of another setup, for the same or another set.
func TestOtherSetup(t *testing.T) {
	pbt.Check(t, 160, 3500, func(c *pbt.C) {
		s := set(c)
		if len(s) == 0 {
			s = []int64{element(c)}
		}
		s2 := s
		if pbt.Chance(c, "other set", 50) {
			s2 = set(c)
		}
		p, q := setup(c, s), setup(c, s2)
		x := s[pbt.Kind(c, "which", len(s))]
		o, err := p.Prove(big.NewInt(x), randomness(c))
		if err != nil {
			c.Fatalf("ProveSet(%d) for %v: %v", x, s, err)
		}
		if !p.Accepts(o) {
			c.Fatalf("proof of %d in %v rejected", x, s)
		}
		if q.Accepts(o) {
			c.Fatalf("the proof of %d in %v is accepted under the parameters of another setup, for %v", x, s, s2)
		}
		c.Label("other setup")
		c.Eval(fmt.Sprint(s, s2, x))
	})
}
