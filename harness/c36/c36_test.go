package c36

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one operation on elements of the field with p^12 elements inside a generated history, compared with polynomial arithmetic; non-trivial = distinct (operation, operands, exponent, aliasing)")
}

// The field with p^2 elements: x i + y with i^2 = -1.
type f2 struct{ x, y *big.Int }

func mod(x *big.Int) *big.Int { return x.Mod(x, bnx.P) }

func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

func (a f2) mul(b f2) f2 {
	x := mul(a.x, b.y)
	y := mul(a.y, b.y)
	return f2{mod(x.Add(x, mul(a.y, b.x))), mod(y.Sub(y, mul(a.x, b.x)))}
}

func (a f2) add(b f2) f2 {
	return f2{mod(new(big.Int).Add(a.x, b.x)), mod(new(big.Int).Add(a.y, b.y))}
}

// The field with p^12 elements: polynomials in w modulo w^6 - (i + 9).
type f12 [6]f2

func constant(k int64) (r f12) {
	for i := range r {
		r[i] = f2{new(big.Int), new(big.Int)}
	}
	r[0].y.SetInt64(k)
	return r
}

func (a f12) mul(b f12) f12 {
	r := constant(0)
	xi := f2{big.NewInt(1), big.NewInt(9)}
	for i := range a {
		for j := range b {
			t := a[i].mul(b[j])
			if i+j >= 6 {
				t = t.mul(xi)
			}
			r[(i+j)%6] = r[(i+j)%6].add(t)
		}
	}
	return r
}

func (a f12) exp(k *big.Int) f12 {
	r := constant(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if k.Bit(i) != 0 {
			r = r.mul(a)
		}
	}
	return r
}

// encode follows the order of the library's encoding: coefficients of w times t^2, t, 1
// and then of t^2, t, 1, where t = w^2.
func (a f12) encode() []byte {
	r := make([]byte, 0, 384)
	for _, i := range []int{5, 3, 1, 4, 2, 0} {
		r = append(r, a[i].x.FillBytes(make([]byte, 32))...)
		r = append(r, a[i].y.FillBytes(make([]byte, 32))...)
	}
	return r
}

func decode(m []byte) (a f12) {
	for n, i := range []int{5, 3, 1, 4, 2, 0} {
		a[i] = f2{new(big.Int).SetBytes(m[64*n : 64*n+32]), new(big.Int).SetBytes(m[64*n+32 : 64*n+64])}
	}
	return a
}

func (a f12) is(k int64) bool { return bytes.Equal(a.encode(), constant(k).encode()) }

func coefficient(c *pbt.C) *big.Int {
	switch pbt.Kind(c, "coefficient", 8) {
	case 0:
		return big.NewInt(1)
	case 1:
		return new(big.Int).Sub(bnx.P, big.NewInt(1))
	case 2:
		return big.NewInt(int64(pbt.IntN(c, "small", 0, 20)))
	case 3:
		return mod(pbt.Int(c, "special", bnx.P))
	case 4:
		h := new(big.Int).Rsh(bnx.P, 1)
		return h.Add(h, big.NewInt(int64(pbt.IntN(c, "half", 0, 1))))
	}
	return pbt.Uniform(c, "c", bnx.P)
}

// element draws elements of the field and of its subfields, with many coefficients zero.
func element(c *pbt.C, label string) (f12, string) {
	a := constant(0)
	shape := pbt.Pick(c, label+".shape", "any", "any", "sparse", "one coefficient", "p", "p^2", "p^6", "line", "zero", "one", "minus one", "root of unity")
	fill := func(js ...int) {
		for _, j := range js {
			if j%2 == 0 {
				a[j/2].y = coefficient(c)
			} else {
				a[j/2].x = coefficient(c)
			}
		}
	}
	switch shape {
	case "any":
		fill(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
	case "sparse":
		for j := 0; j < 12; j++ {
			if pbt.Chance(c, label+".in", 30) {
				fill(j)
			}
		}
	case "one coefficient":
		fill(pbt.Kind(c, label+".which", 12))
	case "p":
		fill(0)
	case "p^2":
		fill(0, 1)
	case "p^6":
		fill(0, 1, 4, 5, 8, 9)
	case "line":
		fill(0, 1, 2, 3, 6, 7)
	case "one":
		a = constant(1)
	case "minus one":
		a[0].y = new(big.Int).Sub(bnx.P, big.NewInt(1))
	case "root of unity":
		a = decode(bnx.EncT(bnx.Exponent(c, label+".k")))
	}
	return a, shape
}

func exponent(c *pbt.C) *big.Int {
	if pbt.Chance(c, "long", 30) {
		return pbt.IntSigned(c, "k", bnx.P)
	}
	return big.NewInt(int64(pbt.IntN(c, "k", -20, 40)))
}

func lib(c *pbt.C, a f12, over *bn256.GT) *bn256.GT {
	if over == nil {
		over = new(bn256.GT)
	}
	r, ok := over.Unmarshal(a.encode())
	if !ok {
		c.Fatalf("the encoding %x of a field element does not decode", a.encode())
	}
	return r
}

func TestField(t *testing.T) {
	pbt.Check(t, 12000, 120000, func(c *pbt.C) {
		const R = 3
		var reg [R]*bn256.GT
		var val [R]f12
		log := ""
		for i := range reg {
			a, shape := element(c, "init")
			reg[i], val[i] = lib(c, a, nil), a
			log += fmt.Sprintf("r%d = %x (%s)\n", i, a.encode(), shape)
		}
		check := func(i int, what string) {
			if !bytes.Equal(reg[i].Marshal(), val[i].encode()) {
				c.Fatalf("r%d is %x, not %x, after %s\n%s", i, reg[i].Marshal(), val[i].encode(), what, log)
			}
			if reg[i].IsOne() != val[i].is(1) || reg[i].IsZero() != val[i].is(0) {
				c.Fatalf("IsOne(r%d) = %v, IsZero(r%d) = %v after %s\n%s", i, reg[i].IsOne(), i, reg[i].IsZero(), what, log)
			}
		}
		for i := range reg {
			check(i, "decoding")
		}
		for s, steps := 0, pbt.IntN(c, "steps", 2, 8); s < steps; s++ {
			d, a, b := pbt.Kind(c, "d", R), pbt.Kind(c, "a", R), pbt.Kind(c, "b", R)
			dst := reg[d]
			fresh := pbt.Chance(c, "fresh", 30)
			if fresh {
				dst = new(bn256.GT)
			}
			va, vb := val[a], val[b]
			var res *bn256.GT
			var k *big.Int
			op := pbt.Pick(c, "op", "product", "product", "product", "square", "inverse", "inverse", "power", "load", "print")
			what := fmt.Sprintf("r%d = %s r%d r%d", d, op, a, b)
			switch op {
			case "product", "square":
				if op == "square" {
					b, vb = a, va
				}
				res = dst.Add(reg[a], reg[b])
				val[d] = va.mul(vb)
			case "inverse":
				if va.is(0) {
					continue
				}
				if pbt.Chance(c, "neg", 50) {
					res = dst.Neg(reg[a])
				} else {
					res = dst.Invert(reg[a])
				}
				got := res.Marshal()
				val[d] = decode(got)
				if !val[d].mul(va).is(1) || !bytes.Equal(val[d].mul(constant(1)).encode(), got) {
					c.Fatalf("%x is not the inverse of %x\n%s", got, va.encode(), log)
				}
			case "power":
				k = exponent(c)
				if k.Sign() < 0 && va.is(0) {
					continue
				}
				if pbt.Chance(c, "exp", 50) {
					res = dst.Exp(reg[a], k)
				} else {
					res = dst.ScalarMult(reg[a], k)
				}
				want := va.exp(new(big.Int).Abs(k))
				if k.Sign() < 0 {
					got := decode(res.Marshal())
					if !got.mul(want).is(1) {
						c.Fatalf("%x^%v is not %x\n%s", va.encode(), k, res.Marshal(), log)
					}
					want = got
				}
				val[d] = want
				what += " " + k.String()
			case "load":
				v, shape := element(c, "load")
				res, val[d] = lib(c, v, dst), v
				what = fmt.Sprintf("r%d = %x (%s)", d, v.encode(), shape)
			case "print":
				_ = reg[a].String()
				res, dst, d, fresh = reg[a], reg[a], a, false
			}
			if res != dst {
				c.Fatalf("the operation does not return its receiver: %s", what)
			}
			reg[d] = res
			log += what + "\n"
			c.Label(op)
			c.Eval(fmt.Sprintf("%s %x %x %v %v %v %v", op, va.encode(), vb.encode(), k, d == a, d == b, fresh))
			for i := range reg {
				check(i, what)
			}
		}
		c.Sample(map[string]any{"history": pbt.Clip(log, 1500)})
	})
}
