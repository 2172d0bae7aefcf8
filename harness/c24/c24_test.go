package c24

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one operation on points of secp256k1 in a generated history, result and registers compared with an independent implementation; non-trivial = distinct (operation, operands, aliasing)")
}

func zero(c *pbt.C, label string) *p256.P256 {
	switch pbt.Kind(c, label, 4) {
	case 0:
		return new(p256.P256).SetInfinity()
	case 1:
		return &p256.P256{X: new(big.Int), Y: new(big.Int)}
	case 2:
		return new(p256.P256)
	}
	return new(p256.P256).ScalarBaseMult(new(big.Int))
}

// point draws a point: small and large multiples of G, points with extreme abscissas,
// hashed points and the identity.
func point(c *pbt.C, label string) (*p256.P256, ref.Pt) {
	switch pbt.Kind(c, label+".kind", 8) {
	case 0, 1:
		return zero(c, label), ref.O
	case 2:
		r := ref.G.Mul(big.NewInt(int64(pbt.IntN(c, label, -5, 5))))
		return bpx.Lib(r), r
	case 3: // extreme abscissa
		x := big.NewInt(int64(pbt.IntN(c, label, 1, 60)))
		if pbt.Chance(c, label+".top", 50) {
			x.Sub(ref.P, x)
		}
		for i := 0; i < 200; i++ {
			if r, ok := ref.Lift(x, pbt.Chance(c, label+".odd", 50)); ok {
				return bpx.Lib(r), r
			}
			x = new(big.Int).Add(x, big.NewInt(1))
			x.Mod(x, ref.P)
		}
		return bpx.Lib(ref.G), ref.G
	case 4:
		s := pbt.Word(c, label)
		r, _ := ref.HashToPoint(s)
		return bpx.Lib(r), r
	}
	r := ref.G.Mul(pbt.Uniform(c, label, ref.N))
	return bpx.Lib(r), r
}

func scalar(c *pbt.C, label string) *big.Int { return pbt.IntSigned(c, label, ref.N) }

func same(p *p256.P256, r ref.Pt) bool { return bpx.Ref(p).Eq(r) }

func TestHistory(t *testing.T) {
	pbt.Check(t, 4800, 60000, func(c *pbt.C) {
		const R = 4
		var reg [R]*p256.P256
		var mod [R]ref.Pt
		log := ""
		for i := range reg {
			reg[i], mod[i] = point(c, "init")
			log += fmt.Sprintf("r%d = %v\n", i, mod[i])
		}
		check := func(i int, what string) {
			if !same(reg[i], mod[i]) {
				c.Fatalf("r%d is %v, expected %v, after %s\n%s", i, bpx.Ref(reg[i]), mod[i], what, log)
			}
			if reg[i].IsZero() != mod[i].Inf {
				c.Fatalf("IsZero(r%d) = %v for %v after %s\n%s", i, reg[i].IsZero(), mod[i], what, log)
			}
			if !mod[i].Inf && !reg[i].IsOnCurve() {
				c.Fatalf("r%d = %v is reported off the curve after %s\n%s", i, mod[i], what, log)
			}
		}
		for s, steps := 0, pbt.IntN(c, "steps", 3, 12); s < steps; s++ {
			d, a, b := pbt.Kind(c, "d", R), pbt.Kind(c, "a", R), pbt.Kind(c, "b", R)
			if a != b && pbt.Chance(c, "related", 30) {
				m := mod[a]
				if pbt.Chance(c, "opposite", 50) {
					m = m.Neg()
				}
				mod[b], reg[b] = m, bpx.Lib(m)
				log += fmt.Sprintf("r%d = %v\n", b, m)
			}
			dst := reg[d]
			fresh := pbt.Chance(c, "fresh", 40)
			if fresh {
				dst = new(p256.P256)
			}
			ma, mb := mod[a], mod[b]
			op := pbt.Pick(c, "op", "multiply", "multiply", "multiply", "add", "add", "double", "neg", "neg", "mul", "mul", "base", "inf", "print")
			if op == "add" && ma.Eq(mb) && !ma.Inf {
				op = "multiply" // Add requires distinct points
			}
			var res *p256.P256
			var k *big.Int
			what := ""
			switch op {
			case "multiply":
				res, mod[d] = dst.Multiply(reg[a], reg[b]), ma.Add(mb)
				what = fmt.Sprintf("r%d = Multiply(r%d, r%d)", d, a, b)
			case "add":
				res, mod[d] = dst.Add(reg[a], reg[b]), ma.Add(mb)
				what = fmt.Sprintf("r%d = Add(r%d, r%d)", d, a, b)
			case "double":
				res, mod[d] = dst.Double(reg[a]), ma.Add(ma)
				what = fmt.Sprintf("r%d = Double(r%d)", d, a)
			case "neg":
				res, mod[d] = dst.Neg(reg[a]), ma.Neg()
				what = fmt.Sprintf("r%d = Neg(r%d)", d, a)
			case "mul":
				k = scalar(c, "k")
				arg := new(big.Int).Set(k)
				res, mod[d] = dst.ScalarMult(reg[a], arg), ma.Mul(k)
				if arg.Cmp(k) != 0 {
					c.Fatalf("ScalarMult changed the scalar %v", k)
				}
				what = fmt.Sprintf("r%d = %v r%d", d, k, a)
			case "base":
				k = scalar(c, "k")
				arg := new(big.Int).Set(k)
				res, mod[d] = dst.ScalarBaseMult(arg), ref.G.Mul(k)
				if arg.Cmp(k) != 0 {
					c.Fatalf("ScalarBaseMult changed the scalar %v", k)
				}
				what = fmt.Sprintf("r%d = %v G", d, k)
			case "inf":
				res, mod[d] = dst.SetInfinity(), ref.O
				what = fmt.Sprintf("r%d = O", d)
			case "print":
				_ = reg[a].String()
				res, dst, d, fresh = reg[a], reg[a], a, false
				what = fmt.Sprintf("print r%d", a)
			}
			if fresh {
				what += " (new variable)"
			}
			if res != dst {
				c.Fatalf("the operation does not return its receiver: %s", what)
			}
			reg[d] = res
			log += what + "\n"
			c.Label(op)
			if op == "multiply" && !ma.Inf && ma.Eq(mb) {
				c.Label("equal operands")
			}
			if (op == "multiply" || op == "add") && !ma.Inf && ma.Eq(mb.Neg()) {
				c.Label("opposite operands")
			}
			if ma.Inf || op == "multiply" && mb.Inf {
				c.Label("identity operand")
			}
			if !fresh && (d == a || d == b) {
				c.Label("result over operand")
			}
			c.Eval(fmt.Sprint(op, ma, mb, k, d == a, d == b, fresh))
			for i := range reg {
				check(i, what)
			}
		}
		c.Sample(map[string]any{"history": log})
	})
}

// Multiples of every size of points of every kind.
func TestMultiples(t *testing.T) {
	pbt.Check(t, 24000, 300000, func(c *pbt.C) {
		k := scalar(c, "k")
		p, r := point(c, "p")
		want := r.Mul(k)
		if got := new(p256.P256).ScalarMult(p, k); !same(got, want) || got.IsZero() != want.Inf {
			c.Fatalf("%v times %v is %v, expected %v", k, r, bpx.Ref(got), want)
		}
		if !same(p, r) {
			c.Fatalf("ScalarMult changed its operand %v", r)
		}
		if got := new(p256.P256).ScalarBaseMult(k); !same(got, ref.G.Mul(k)) {
			c.Fatalf("%v times G is %v", k, bpx.Ref(got))
		}
		if got := new(p256.P256).Neg(p); !same(got, r.Neg()) || !same(p, r) {
			c.Fatalf("the opposite of %v is %v", r, bpx.Ref(got))
		}
		if got := new(p256.P256).Double(p); !same(got, r.Add(r)) || !same(p, r) {
			c.Fatalf("twice %v is %v", r, bpx.Ref(got))
		}
		if got := new(p256.P256).Multiply(p, p); !same(got, r.Add(r)) || !same(p, r) {
			c.Fatalf("%v plus itself is %v", r, bpx.Ref(got))
		}
		c.Eval(fmt.Sprint(k, r))
		c.Sample(map[string]any{"k": k.String(), "point": r.String()})
	})
}

// Membership of the curve.
func TestOnCurve(t *testing.T) {
	pbt.Check(t, 24000, 300000, func(c *pbt.C) {
		_, r := point(c, "p")
		if r.Inf {
			r = ref.G
		}
		q := ref.Pt{X: new(big.Int).Set(r.X), Y: new(big.Int).Set(r.Y)}
		switch pbt.Kind(c, "how", 6) {
		case 0:
			q.X.Xor(q.X, new(big.Int).Lsh(big.NewInt(1), uint(pbt.Kind(c, "bit", 256))))
		case 1:
			q.Y.Xor(q.Y, new(big.Int).Lsh(big.NewInt(1), uint(pbt.Kind(c, "bit", 256))))
		case 2:
			q.X, q.Y = q.Y, q.X
		case 3:
			q.Y.Sub(ref.P, q.Y)
		case 4:
			q.X, q.Y = pbt.Uniform(c, "x", ref.P), pbt.Uniform(c, "y", ref.P)
		}
		if q.X.Cmp(ref.P) >= 0 || q.Y.Cmp(ref.P) >= 0 || q.X.Sign() == 0 && q.Y.Sign() == 0 {
			return
		}
		want := q.OnCurve()
		p := &p256.P256{X: new(big.Int).Set(q.X), Y: new(big.Int).Set(q.Y)}
		if p.IsOnCurve() != want {
			c.Fatalf("IsOnCurve(%v) = %v", q, !want)
		}
		if p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
			c.Fatalf("IsOnCurve changed %v", q)
		}
		c.Label(fmt.Sprintf("on the curve %v", want))
		c.Eval(q.String())
	})
}

// The curve addition of distinct points, by coordinates.
func TestCurveAdd(t *testing.T) {
	pbt.Check(t, 8000, 100000, func(c *pbt.C) {
		p, r := point(c, "p")
		q, s := point(c, "q")
		if r.Inf || s.Inf || r.Eq(s) {
			return
		}
		if pbt.Chance(c, "opposite", 10) {
			q, s = bpx.Lib(r.Neg()), r.Neg()
		}
		x, y := p256.CURVE.Add(p.X, p.Y, q.X, q.Y)
		if !same(&p256.P256{X: x, Y: y}, r.Add(s)) {
			c.Fatalf("%v + %v is (%v, %v)", r, s, x, y)
		}
		if !same(p, r) || !same(q, s) {
			c.Fatalf("the addition of %v and %v changed an operand", r, s)
		}
		c.Eval(fmt.Sprint(r, s))
	})
}
