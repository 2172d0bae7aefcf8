package c18

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one range proof assembled from halves of different origin, each valid on its own, given to the verifier; non-trivial = distinct (interval, secrets, randomness, way of assembling)")
}

type key struct{ a, b int64 }

var cache = map[key]*ccx.Range{}

// scheme returns shared parameters: a function of the bounds only.
func scheme(c *pbt.C, a, b int64) *ccx.Range {
	k := key{a, b}
	if z := cache[k]; z != nil {
		return z.Copy()
	}
	c.Tape(uint64(a*1000003 + b))
	z, err := ccx.NewRange(a, b)
	if err != nil {
		c.Fatalf("Setup(%d, %d): %v", a, b, err)
	}
	cache[k] = z
	return z.Copy()
}

func half(c *pbt.C, z *ccx.Range, i int) (ccx.Obj, bool) {
	o, ok := z.Half(i)
	if !ok {
		c.Undecided("halves of the proof")
	}
	return o, ok
}

func TestHalves(t *testing.T) {
	pbt.Check(t, 200, 5000, func(c *pbt.C) {
		k := pbt.Pick(c, "bounds", key{0, 57 - 1}, key{3, 50}, key{10, 2000}, key{0, 58}, key{18, 200})
		if pbt.Thorough && pbt.Chance(c, "other bounds", 30) {
			b := int64(pbt.IntN(c, "b", 3, 3000))
			k = key{int64(pbt.IntN(c, "a", 0, int(b-2))), b}
		}
		z := scheme(c, k.a, k.b)
		c.Tape(pbt.SeedOf(c, "tape2"))
		u := big.NewInt(57)
		top := new(big.Int).Set(u)
		for top.Cmp(big.NewInt(k.b)) <= 0 {
			top.Mul(top, u)
		}
		A, B := big.NewInt(k.a), big.NewInt(k.b)
		// x1 is below b and x2 is at least a, so that the half taken from each is valid.
		draw := func(label string) (*big.Int, *big.Int) {
			x1 := new(big.Int).Sub(B, pbt.Uniform(c, label+"1", top))
			x1.Sub(x1, big.NewInt(1))
			x2 := new(big.Int).Add(A, pbt.Uniform(c, label+"2", top))
			return x1, x2
		}
		x1, x2 := draw("x")
		r1, r2 := pbt.Uniform(c, "r1", bnx.Order), pbt.Uniform(c, "r2", bnx.Order)
		how := pbt.Pick(c, "how", "secrets", "secrets, same randomness", "randomness", "both out of range", "exchanged", "same half twice", "order apart")
		w := big.NewInt(k.b - k.a)
		in := new(big.Int).Add(A, pbt.Uniform(c, "in", w))
		switch how {
		case "secrets, same randomness":
			r2 = r1
			x1 = in
			x2 = new(big.Int).Add(A, pbt.Uniform(c, "in2", w))
		case "secrets":
		case "randomness":
			x1, x2 = in, in
			if pbt.Chance(c, "near", 50) {
				r2 = new(big.Int).Add(r1, big.NewInt(pbt.Pick(c, "d", int64(1), -1, 2)))
			}
		case "both out of range": // x1 < a and x2 >= b
			x1 = new(big.Int).Sub(A, big.NewInt(int64(pbt.IntN(c, "d1", 1, 3))))
			x2 = new(big.Int).Add(B, big.NewInt(int64(pbt.IntN(c, "d2", 0, 3))))
			r2 = r1
		case "exchanged":
			x1, x2, r2 = in, in, r1
		case "same half twice":
			x1, x2, r2 = in, in, r1
		case "order apart": // equal modulo the order, different digits: never both valid
			x1, x2, r2 = in, in, new(big.Int).Add(r1, big.NewInt(1))
		}
		if x1.Cmp(x2) == 0 && r1.Cmp(r2) == 0 && how != "exchanged" && how != "same half twice" {
			r2 = new(big.Int).Add(r1, big.NewInt(1))
		}
		p, q := z.Copy(), z.Copy()
		if err, _ := p.Prove(x1, r1); err != nil {
			c.Fatalf("Prove(%v) for [%d, %d): %v", x1, k.a, k.b, err)
		}
		if err, _ := q.Prove(x2, r2); err != nil {
			c.Fatalf("Prove(%v) for [%d, %d): %v", x2, k.a, k.b, err)
		}
		h1, ok1 := half(c, p, 0)
		h2, ok2 := half(c, q, 1)
		if !ok1 || !ok2 {
			return
		}
		m := z.Copy()
		d1, ok1 := half(c, m, 0)
		d2, ok2 := half(c, m, 1)
		if !ok1 || !ok2 {
			return
		}
		switch how {
		case "exchanged":
			// the halves differ by the constant a - b + u^l
			off := new(big.Int).Sub(new(big.Int).Add(top, A), B)
			if off.Sign() == 0 {
				return
			}
			d1.Assign(h2)
			d2.Assign(h1)
		case "same half twice":
			if pbt.Chance(c, "first", 50) {
				d1.Assign(h1)
				d2.Assign(h1)
			} else {
				d1.Assign(h2)
				d2.Assign(h2)
			}
			if new(big.Int).Sub(new(big.Int).Add(top, A), B).Sign() == 0 {
				return
			}
		default:
			d1.Assign(h1)
			d2.Assign(h2)
		}
		what := fmt.Sprintf("[%d, %d): x1=%v r1=%v x2=%v r2=%v: %s", k.a, k.b, x1, r1, x2, r2, how)
		if ok, _ := m.Accepts(); ok {
			c.Fatalf("%s: assembled proof accepted", what)
		}
		// Control: the halves of one proof belong together.
		if x1.Cmp(in) == 0 && pbt.Chance(c, "control", 30) {
			d2, _ = half(c, m, 1)
			d1, _ = half(c, m, 0)
			g2, _ := half(c, p, 1)
			d1.Assign(h1)
			d2.Assign(g2)
			if ok, err := m.Accepts(); !ok {
				c.Fatalf("[%d, %d): honest proof of %v rejected when its halves are put together: %v", k.a, k.b, x1, err)
			}
			c.Label("control")
		}
		c.Label(how)
		c.Eval(what)
		c.Sample(map[string]any{"a": k.a, "b": k.b, "x1": x1.String(), "x2": x2.String(), "how": how})
	})
}

// Both halves count: a change of either one, and commitments that are fitted to each
// other, are noticed.
func TestAltered(t *testing.T) {
	pbt.Check(t, 64, 2000, func(c *pbt.C) {
		k := pbt.Pick(c, "bounds", key{3, 50}, key{0, 58}, key{10, 2000}, key{18, 200})
		z := scheme(c, k.a, k.b)
		c.Tape(pbt.SeedOf(c, "tape2"))
		prove := func(label string) (*ccx.Range, *big.Int) {
			p := z.Copy()
			x := new(big.Int).Add(big.NewInt(k.a), pbt.Uniform(c, label, big.NewInt(k.b-k.a)))
			if err, _ := p.Prove(x, pbt.Uniform(c, label+".r", bnx.Order)); err != nil {
				c.Fatalf("Prove(%v) for [%d, %d): %v", x, k.a, k.b, err)
			}
			return p, x
		}
		p, x := prove("x")
		q, y := prove("y")
		build := func(first, second ccx.Obj) (*ccx.Range, ccx.Obj, ccx.Obj) {
			m := z.Copy()
			d1, _ := half(c, m, 0)
			d2, _ := half(c, m, 1)
			d1.Assign(first.Clone())
			d2.Assign(second.Clone())
			return m, d1, d2
		}
		p1, ok1 := half(c, p, 0)
		p2, ok2 := half(c, p, 1)
		q1, ok3 := half(c, q, 0)
		q2, ok4 := half(c, q, 1)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return
		}
		if m, _, _ := build(p1, p2); true {
			if ok, err := m.Accepts(); !ok {
				c.Fatalf("[%d, %d): honest proof of %v rejected: %v", k.a, k.b, x, err)
			}
		}
		// the commitment of the one half is set to that which fits the other
		com := func(o ccx.Obj) *bn256.G2 {
			v, ok := ccx.Lookup[*bn256.G2](o, "C")
			if !ok {
				c.Undecided("commitment of a half")
				return nil
			}
			return ccx.CopyG2(v)
		}
		a1, a2, b1, b2 := com(p1), com(p2), com(q1), com(q2)
		if a1 == nil || a2 == nil || b1 == nil || b2 == nil {
			return
		}
		off := new(bn256.G2).Add(a1, new(bn256.G2).Neg(ccx.CopyG2(a2)))
		for i, n := 0, pbt.IntN(c, "alterations", 3, 5); i < n; i++ {
			m, d1, d2 := build(p1, p2)
			what := ""
			switch pbt.Kind(c, "how", 6) {
			case 0, 1:
				what = "first half: "
				s := ccx.Alter(c, d1.Leaves())
				if s == "" {
					continue
				}
				what += s
			case 2, 3:
				what = "second half: "
				s := ccx.Alter(c, d2.Leaves())
				if s == "" {
					continue
				}
				what += s
			case 4: // halves of two proofs; one commitment fitted to the other
				if pbt.Chance(c, "which", 50) {
					d2.Assign(q2.Clone())
					ccx.Put(d2, "C", ccx.CopyG2(a2))
					what = "second half of another proof with the commitment of the first"
				} else {
					d1.Assign(q1.Clone())
					ccx.Put(d1, "C", ccx.CopyG2(a1))
					what = "first half of another proof with the commitment of the second"
				}
			case 5: // both commitments moved
				k := pbt.Uniform(c, "k", bnx.Order)
				d := new(bn256.G2).ScalarBaseMult(k)
				if bnx.Zero(k) {
					continue
				}
				c2 := new(bn256.G2).Add(ccx.CopyG2(a2), d)
				ccx.Put(d2, "C", c2)
				ccx.Put(d1, "C", new(bn256.G2).Add(ccx.CopyG2(c2), ccx.CopyG2(off)))
				what = "both commitments moved"
			}
			c.Eval(fmt.Sprint(k, x, y, what, i))
			c.Label("altered: " + strings.SplitN(what, ":", 2)[0])
			if ok, _ := m.Accepts(); ok {
				c.Fatalf("[%d, %d), proofs of %v and %v: accepted with %s", k.a, k.b, x, y, what)
			}
		}
	})
}

// The interval of the verifier is another one.
func TestOtherInterval(t *testing.T) {
	pbt.Check(t, 100, 2500, func(c *pbt.C) {
		k := pbt.Pick(c, "bounds", key{3, 50}, key{10, 2000}, key{18, 200})
		z := scheme(c, k.a, k.b)
		c.Tape(pbt.SeedOf(c, "tape2"))
		x := big.NewInt(k.a + int64(pbt.IntN(c, "x", 0, int(k.b-k.a-1))))
		if err, _ := z.Prove(x, pbt.Uniform(c, "r", bnx.Order)); err != nil {
			c.Fatalf("Prove(%v): %v", x, err)
		}
		// the verifier's copy of the parameters
		f, ok := z.Obj().Field("p")
		if !ok {
			c.Undecided("parameters")
			return
		}
		v := z.Copy()
		g, _ := v.Obj().Field("p")
		own := ccx.Obj{Ptr: f.Interface()}.Clone()
		d := int64(pbt.IntN(c, "d", 1, 5)) * pbt.Pick(c, "sign", int64(1), -1)
		name := pbt.Pick(c, "which", "a", "b")
		old, ok := ccx.Lookup[int64](own, name)
		if !ok || !ccx.Put(own, name, old+d) {
			c.Undecided("bounds")
			return
		}
		g.Set(valueOf(own))
		if ok, _ := v.Accepts(); ok {
			c.Fatalf("the proof of %v in [%d, %d) is accepted with %s changed by %d", x, k.a, k.b, name, d)
		}
		if ok, err := z.Accepts(); !ok {
			c.Fatalf("honest proof of %v in [%d, %d) rejected: %v", x, k.a, k.b, err)
		}
		c.Label("interval changed")
		c.Eval(fmt.Sprint(k, x, name, d))
	})
}

func valueOf(o ccx.Obj) reflect.Value { return reflect.ValueOf(o.Ptr) }
