package c22

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one operation in the target group inside a generated history, result and registers compared with exponent arithmetic and an independent implementation; non-trivial = distinct (operation, exponents, aliasing)")
}

func TestHistory(t *testing.T) {
	pbt.Check(t, 640, 16000, func(c *pbt.C) {
		const R = 3
		var reg [R]*bn256.GT
		var exp [R]*big.Int
		log := ""
		for i := range reg {
			k := bnx.Exponent(c, "init")
			e, how := bnx.MakeT(c, "init", k)
			reg[i], exp[i] = e, bnx.Mod(k)
			log += fmt.Sprintf("r%d = %v (%s)\n", i, k, how)
		}
		check := func(i int, what string) {
			if !bytes.Equal(reg[i].Marshal(), bnx.EncT(exp[i])) {
				c.Fatalf("r%d is not the base to the power %v after %s\n%s", i, exp[i], what, log)
			}
			if reg[i].IsOne() != (exp[i].Sign() == 0) {
				c.Fatalf("IsOne(r%d) = %v, exponent %v, after %s\n%s", i, reg[i].IsOne(), exp[i], what, log)
			}
			if reg[i].IsZero() {
				c.Fatalf("an element of the target group is zero after %s\n%s", what, log)
			}
		}
		always := pbt.Chance(c, "always", 50)
		for s, steps := 0, pbt.IntN(c, "steps", 3, 9); s < steps; s++ {
			d, a, b := pbt.Kind(c, "d", R), pbt.Kind(c, "a", R), pbt.Kind(c, "b", R)
			if a != b && pbt.Chance(c, "related", 20) {
				k := exp[a]
				if pbt.Chance(c, "opposite", 60) {
					k = bnx.Mod(new(big.Int).Neg(k))
				}
				e, how := bnx.MakeT(c, "rel", k)
				reg[b], exp[b] = e, k
				log += fmt.Sprintf("r%d = %v (%s)\n", b, k, how)
			}
			dst := reg[d]
			fresh := pbt.Chance(c, "fresh", 30)
			if fresh {
				dst = new(bn256.GT)
			}
			da, db := exp[a], exp[b]
			var res *bn256.GT
			var k *big.Int
			op := pbt.Pick(c, "op", "add", "add", "power", "power", "exp", "neg", "invert", "decode", "print")
			what := ""
			switch op {
			case "add":
				res = dst.Add(reg[a], reg[b])
				exp[d] = bnx.Mod(new(big.Int).Add(da, db))
				what = fmt.Sprintf("r%d = r%d * r%d", d, a, b)
			case "power", "exp":
				k = bnx.Exponent(c, "k")
				arg := new(big.Int).Set(k)
				if op == "exp" {
					res = dst.Exp(reg[a], arg)
				} else {
					res = dst.ScalarMult(reg[a], arg)
				}
				if arg.Cmp(k) != 0 {
					c.Fatalf("the exponent %v was changed", k)
				}
				exp[d] = bnx.Mod(new(big.Int).Mul(da, k))
				what = fmt.Sprintf("r%d = r%d ^ %v", d, a, k)
			case "neg":
				res = dst.Neg(reg[a])
				exp[d] = bnx.Mod(new(big.Int).Neg(da))
				what = fmt.Sprintf("r%d = Neg r%d", d, a)
			case "invert":
				res = dst.Invert(reg[a])
				exp[d] = bnx.Mod(new(big.Int).Neg(da))
				what = fmt.Sprintf("r%d = Invert r%d", d, a)
			case "decode":
				var ok bool
				res, ok = dst.Unmarshal(reg[a].Marshal())
				if !ok {
					c.Fatalf("the encoding of an element does not decode\n%s", log)
				}
				exp[d] = da
				what = fmt.Sprintf("r%d = decode(encode(r%d))", d, a)
			case "print":
				_ = reg[a].String()
				res, dst, d, fresh = reg[a], reg[a], a, false
				what = fmt.Sprintf("print r%d", a)
			}
			if fresh {
				what += " (new variable)"
			}
			if res != dst {
				c.Fatalf("the operation does not return its receiver: %s", what)
			}
			reg[d] = res
			log += what + "\n"
			c.Label(op)
			if k != nil && k.Sign() < 0 {
				c.Label("negative exponent")
			}
			if !fresh && op != "print" && (d == a || op == "add" && d == b) {
				c.Label("result over operand")
			}
			c.Eval(fmt.Sprint(op, da, db, k, d == a, d == b, fresh))
			check(d, what)
			if always {
				for i := range reg {
					check(i, what)
				}
			}
		}
		for i := range reg {
			check(i, "the last step")
		}
		c.Sample(map[string]any{"history": log})
	})
}

// Exponents of all shapes.
func TestPowers(t *testing.T) {
	pbt.Check(t, 640, 16000, func(c *pbt.C) {
		k, j := pbt.IntSigned(c, "k", bnx.Order), bnx.Exponent(c, "j")
		x, how := bnx.MakeT(c, "x", j)
		want := bnx.EncT(new(big.Int).Mul(k, j))
		if got := new(bn256.GT).ScalarMult(x, k); !bytes.Equal(got.Marshal(), want) {
			c.Fatalf("(base^%v (%s))^%v is wrong", j, how, k)
		}
		if !bytes.Equal(x.Marshal(), bnx.EncT(j)) {
			c.Fatalf("the power %v changed its operand base^%v (%s)", k, j, how)
		}
		if got := new(bn256.GT).Exp(x, k); !bytes.Equal(got.Marshal(), want) {
			c.Fatalf("Exp(base^%v (%s), %v) is wrong", j, how, k)
		}
		if got := x.ScalarMult(x, k); !bytes.Equal(got.Marshal(), want) {
			c.Fatalf("(base^%v (%s))^%v over the operand is wrong", j, how, k)
		}
		if got := x.Add(x, new(bn256.GT).Neg(x)); !got.IsOne() {
			c.Fatalf("x * 1/x is not the identity, x = base^(%v*%v)", j, k)
		}
		c.Label(how)
		c.Eval(fmt.Sprint(k, j, how))
		c.Sample(map[string]any{"k": k.String(), "exponent": j.String(), "representation": how})
	})
}
