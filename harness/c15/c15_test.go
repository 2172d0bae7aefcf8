package c15

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/util"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one attempt to prove that an integer has l digits in base u, and the verdict of the verifier; non-trivial = distinct (base, length, integer, randomness, random tape)")
}

func setup(c *pbt.C, u, l int64) *ccx.Scheme {
	var p *ccx.Scheme
	var err error
	if pan, st := pbt.Guard(func() { p, err = ccx.NewUL(u, l) }); pan != nil {
		c.Fatalf("SetupUL(%d, %d) panics: %v\n%s", u, l, pan, st)
	}
	if err != nil {
		c.Fatalf("SetupUL(%d, %d): %v", u, l, err)
	}
	return p
}

func size(c *pbt.C) (u, l int64) {
	u = int64(pbt.IntN(c, "u", 2, 12))
	l = int64(pbt.IntN(c, "l", 1, 4))
	if pbt.Chance(c, "big", 5) {
		u = int64(pbt.IntN(c, "u", 13, 60))
		l = int64(pbt.IntN(c, "l", 1, 2))
	} else if pbt.Chance(c, "long", 6) {
		u = int64(pbt.IntN(c, "u", 2, 3))
		l = int64(pbt.IntN(c, "l", 5, 10))
	} else if pbt.Chance(c, "wide", 5) {
		// more integers than a machine word has
		switch pbt.Kind(c, "wide.kind", 5) {
		case 0:
			return 2, int64(pbt.IntN(c, "l", 62, 66))
		case 1:
			return int64(pbt.IntN(c, "u", 150, 260)), int64(pbt.IntN(c, "l", 8, 10))
		case 2:
			return 10, int64(pbt.IntN(c, "l", 16, 21))
		case 3:
			return 57, int64(pbt.IntN(c, "l", 9, 12))
		default:
			return 16, int64(pbt.IntN(c, "l", 13, 17))
		}
	}
	return
}

func top(u, l int64) *big.Int { return new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil) }

func inside(c *pbt.C, u, l int64) *big.Int {
	t := top(u, l)
	x := new(big.Int)
	switch pbt.Kind(c, "in", 5) {
	case 0:
		x.SetInt64(int64(pbt.IntN(c, "x", 0, 1)))
	case 1:
		x.Sub(t, big.NewInt(int64(pbt.IntN(c, "x", 1, 2))))
	case 2: // extreme digits
		for i := int64(0); i < l; i++ {
			x.Mul(x, big.NewInt(u)).Add(x, big.NewInt(pbt.Pick(c, "d", 0, 1, u-1)))
		}
	default:
		return pbt.Uniform(c, "x", t)
	}
	return x.Mod(x, t)
}

// outside draws an integer that is out of range; some have an in-range residue modulo
// the number of representable integers.
func outside(c *pbt.C, u, l int64) *big.Int {
	t := top(u, l)
	x := new(big.Int)
	switch pbt.Kind(c, "out", 8) {
	case 7: // an integer in range plus a multiple of the order
		x = inside(c, u, l)
		k := big.NewInt(int64(1 + pbt.Kind(c, "k", 3)))
		if pbt.Chance(c, "neg", 50) {
			k.Neg(k)
		}
		x.Add(x, k.Mul(k, bnx.Order))
		r := new(big.Int).Mod(x, t)
		if x.Sign() >= 0 && x.Cmp(t) < 0 || r.Cmp(bnx.Mod(x)) == 0 {
			// in range, or the digits happen to agree with the residue
			x.Set(t)
		}
	case 0:
		x.Set(t)
	case 1:
		x.Add(t, pbt.Uniform(c, "x", t))
	case 2:
		x.SetInt64(int64(-1 - pbt.Kind(c, "x", 3)))
	case 3:
		x.Neg(pbt.Uniform(c, "x", t))
		x.Sub(x, big.NewInt(1))
	case 4:
		x.Mul(t, big.NewInt(u)).Sub(x, big.NewInt(1))
	case 5:
		x.Add(t, pbt.Uniform(c, "x", new(big.Int).Lsh(t, 100)))
	default:
		x = pbt.IntSigned(c, "x", bnx.Order)
		if m := bnx.Mod(x); m.Cmp(t) < 0 { // in range modulo the order
			x.Set(t)
		}
	}
	return x
}

func TestDigits(t *testing.T) {
	pbt.Check(t, 260, 6000, func(c *pbt.C) {
		u, l := size(c)
		p := setup(c, u, l)
		for i, n := 0, pbt.IntN(c, "tries", 1, 2); i < n; i++ {
			in := pbt.Chance(c, "inside", 60)
			var x *big.Int
			if in {
				x = inside(c, u, l)
			} else {
				x = outside(c, u, l)
			}
			r := pbt.IntSigned(c, "r", bnx.Order)
			seed := pbt.SeedOf(c, "tape")
			c.Tape(seed)
			ax, ar := new(big.Int).Set(x), new(big.Int).Set(r)
			var o ccx.Obj
			var err error
			what := fmt.Sprintf("u=%d l=%d x=%v r=%v", u, l, x, r)
			if pan, st := pbt.Guard(func() { o, err = p.Prove(ax, ar) }); pan != nil && in {
				c.Fatalf("%s: ProveUL panics: %v\n%s", what, pan, st)
			} else if pan != nil {
				err = fmt.Errorf("panic")
			}
			if ax.Cmp(x) != 0 || ar.Cmp(r) != 0 {
				c.Fatalf("%s: ProveUL changed its arguments to %v, %v", what, ax, ar)
			}
			c.Label(fmt.Sprintf("in range %v", in))
			c.Eval(what + fmt.Sprint(seed))
			c.Sample(map[string]any{"base": u, "digits": l, "x": pbt.Clip(x.String(), 50), "randomness": pbt.Clip(r.String(), 40)})
			if !in {
				if err == nil && p.Accepts(o) {
					c.Fatalf("%s: out of range, but accepted", what)
				}
				continue
			}
			if err != nil {
				c.Fatalf("%s: ProveUL: %v", what, err)
			}
			ok, err := p.Verify(o)
			if !ok || err != nil {
				c.Fatalf("%s: honest proof rejected: %v, %v", what, ok, err)
			}
			parts, a := p.Parts(o)
			pub, b := p.Public()
			if !a || !b {
				c.Undecided("elements")
				continue
			}
			if want, err := util.Commit(x, r, pub.H); err == nil && !bytes.Equal(want.Marshal(), parts.C.Marshal()) {
				c.Fatalf("%s: the proof is about another commitment", what)
			}
		}
	})
}

// Another number of digits, or another base, with the same signatures.
func TestOtherShape(t *testing.T) {
	pbt.Check(t, 220, 5000, func(c *pbt.C) {
		u, l := int64(pbt.IntN(c, "u", 3, 8)), int64(pbt.IntN(c, "l", 1, 3))
		p := setup(c, u, l)
		own := p.Params.Clone() // the verifier's
		how := pbt.Pick(c, "how", "more digits", "fewer digits", "smaller base", "larger base", "cut", "padded", "one list cut")
		l2, u2 := l, u
		switch how {
		case "more digits":
			l2 = l + int64(pbt.IntN(c, "more", 1, 2))
		case "fewer digits":
			if l == 1 {
				l2 = 2
			} else {
				l2 = int64(pbt.IntN(c, "l2", 1, int(l)-1))
			}
		case "smaller base":
			u2 = int64(pbt.IntN(c, "u2", 2, int(u)-1))
		case "larger base":
			u2 = u + int64(pbt.IntN(c, "u2", 1, 50))
		}
		if how == "smaller base" || how == "larger base" {
			l2 = int64(pbt.IntN(c, "l2", 2, 3))
			ccx.Put(own, "l", l2)
		}
		q := p.WithParams(c)
		if !ccx.Put(q.Params, "l", l2) || !ccx.Put(q.Params, "u", u2) {
			c.Undecided("size in the parameters")
			return
		}
		// digits below both bases, so that signatures exist
		lim := u
		if u2 < u {
			lim = u2
		}
		x := new(big.Int)
		for i := int64(0); i < l2; i++ {
			d := int64(pbt.IntN(c, "d", 0, int(lim-1)))
			if i == 0 {
				d = int64(pbt.IntN(c, "d0", 1, int(lim-1))) // leading
			}
			x.Mul(x, big.NewInt(u2)).Add(x, big.NewInt(d))
		}
		o, err := q.Prove(x, pbt.Uniform(c, "r", bnx.Order))
		if err != nil {
			c.Fatalf("ProveUL(%v) u=%d l=%d: %v", x, u2, l2, err)
		}
		if how != "cut" && how != "padded" && how != "one list cut" && !q.Accepts(o) {
			c.Fatalf("honest proof of %v for u=%d l=%d rejected", x, u2, l2)
		}
		parts, ok := q.Parts(o)
		if !ok {
			c.Undecided("elements")
			return
		}
		switch how {
		case "cut":
			if l == 1 && pbt.Chance(c, "all", 50) || l > 1 {
				k := l - 1
				parts.V, parts.A, parts.Zsig, parts.Zv = parts.V[:k], parts.A[:k], parts.Zsig[:k], parts.Zv[:k]
			} else {
				parts.V = nil
			}
		case "padded":
			parts.V, parts.A = append(parts.V, parts.V[0]), append(parts.A, parts.A[0])
			parts.Zsig, parts.Zv = append(parts.Zsig, parts.Zsig[0]), append(parts.Zv, parts.Zv[0])
		case "one list cut":
			switch pbt.Kind(c, "list", 4) {
			case 0:
				parts.V = parts.V[:l-1]
			case 1:
				parts.A = parts.A[:l-1]
			case 2:
				parts.Zsig = parts.Zsig[:l-1]
			case 3:
				parts.Zv = parts.Zv[:l-1]
			}
		}
		o, ok = q.Build(parts)
		if !ok {
			c.Undecided("elements")
			return
		}
		v := q.WithParams(c)
		v.Params.Assign(own)
		if v.Accepts(o) {
			c.Fatalf("u=%d l=%d: a proof of %v (%s: u=%d l=%d) is accepted", u, l, x, how, u2, l2)
		}
		c.Label(how)
		c.Eval(fmt.Sprint(u, l, how, u2, l2, x))
		c.Sample(map[string]any{"base": u, "digits": l, "change": how})
	})
}

// Parameters of another setup.
func TestOtherSetup(t *testing.T) {
	pbt.Check(t, 60, 1500, func(c *pbt.C) {
		u, l := int64(pbt.IntN(c, "u", 2, 6)), int64(pbt.IntN(c, "l", 1, 3))
		p, q := setup(c, u, l), setup(c, u, l)
		x := inside(c, u, l)
		o, err := p.Prove(x, pbt.Uniform(c, "r", bnx.Order))
		if err != nil {
			c.Fatalf("ProveUL: %v", err)
		}
		if !p.Accepts(o) {
			c.Fatalf("honest proof of %v for u=%d l=%d rejected", x, u, l)
		}
		if q.Accepts(o) {
			c.Fatalf("the proof of %v for u=%d l=%d is accepted under the parameters of another setup", x, u, l)
		}
		c.Label("other setup")
		c.Eval(fmt.Sprint(u, l, x))
	})
}
