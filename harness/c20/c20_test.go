package c20

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one group operation in a generated history, result and all registers compared with multiples computed by an independent implementation; non-trivial = distinct (operation, operand exponents, aliasing)")
}

// group lets one state machine drive both source groups.
type group[E any] struct {
	name    string
	fresh   func() E
	add     func(e, a, b E) E
	neg     func(e, a E) E
	mul     func(e, a E, k *big.Int) E
	bas     func(e E, k *big.Int) E
	inf     func(e E) E
	marshal func(E) []byte
	decode  func(e E, b []byte) (E, bool)
	zero    func(E) bool
	text    func(E) string
	enc     func(*big.Int) []byte
	make    func(*pbt.C, string, *big.Int) (E, string)
}

var g1 = group[*bn256.G1]{"G1", func() *bn256.G1 { return new(bn256.G1) },
	(*bn256.G1).Add, (*bn256.G1).Neg, (*bn256.G1).ScalarMult, (*bn256.G1).ScalarBaseMult, (*bn256.G1).SetInfinity,
	(*bn256.G1).Marshal, (*bn256.G1).Unmarshal, (*bn256.G1).IsZero, (*bn256.G1).String, bnx.Enc1, bnx.Make1}

var g2 = group[*bn256.G2]{"G2", func() *bn256.G2 { return new(bn256.G2) },
	(*bn256.G2).Add, (*bn256.G2).Neg, (*bn256.G2).ScalarMult, (*bn256.G2).ScalarBaseMult, (*bn256.G2).SetInfinity,
	(*bn256.G2).Marshal, (*bn256.G2).Unmarshal, (*bn256.G2).IsZero, (*bn256.G2).String, bnx.Enc2, bnx.Make2}

func history[E comparable](c *pbt.C, g group[E]) {
	const R = 4
	var reg [R]E
	var exp [R]*big.Int
	log := ""
	for i := range reg {
		k := bnx.Exponent(c, "init")
		e, how := g.make(c, "init", k)
		reg[i], exp[i] = e, bnx.Mod(k)
		log += fmt.Sprintf("r%d = %v (%s)\n", i, k, how)
	}
	check := func(i int, what string) {
		if !bytes.Equal(g.marshal(reg[i]), g.enc(exp[i])) {
			c.Fatalf("%s: r%d is not %v times the generator after %s\n%s", g.name, i, exp[i], what, log)
		}
		if g.zero(reg[i]) != (exp[i].Sign() == 0) {
			c.Fatalf("%s: IsZero(r%d) = %v for %v times the generator after %s\n%s", g.name, i, g.zero(reg[i]), exp[i], what, log)
		}
	}
	always := pbt.Chance(c, "always", 50)
	steps := pbt.IntN(c, "steps", 3, 12)
	for s := 0; s < steps; s++ {
		d, a, b := pbt.Kind(c, "d", R), pbt.Kind(c, "a", R), pbt.Kind(c, "b", R)
		if pbt.Chance(c, "related", 25) {
			// make the operands equal or opposite in value, in another representation
			k := exp[a]
			if pbt.Chance(c, "opposite", 50) {
				k = bnx.Mod(new(big.Int).Neg(k))
			}
			if b != a {
				e, how := g.make(c, "rel", k)
				reg[b], exp[b] = e, k
				log += fmt.Sprintf("r%d = %v (%s)\n", b, k, how)
			}
		}
		// the result goes into a register (possibly an operand) or a new variable
		dst := reg[d]
		fresh := pbt.Chance(c, "fresh", 30)
		if fresh {
			dst = g.fresh()
		}
		var res E
		var k *big.Int
		op := pbt.Pick(c, "op", "add", "add", "add", "mul", "mul", "neg", "neg", "base", "decode", "print", "inf")
		what := ""
		da, db := exp[a], exp[b]
		switch op {
		case "add":
			res = g.add(dst, reg[a], reg[b])
			exp[d] = bnx.Mod(new(big.Int).Add(da, db))
			what = fmt.Sprintf("r%d = r%d + r%d", d, a, b)
		case "neg":
			res = g.neg(dst, reg[a])
			exp[d] = bnx.Mod(new(big.Int).Neg(da))
			what = fmt.Sprintf("r%d = -r%d", d, a)
		case "mul":
			k = bnx.Exponent(c, "k")
			arg := new(big.Int).Set(k)
			res = g.mul(dst, reg[a], arg)
			if arg.Cmp(k) != 0 {
				c.Fatalf("%s: ScalarMult changed the scalar %v", g.name, k)
			}
			exp[d] = bnx.Mod(new(big.Int).Mul(da, k))
			what = fmt.Sprintf("r%d = %v r%d", d, k, a)
		case "base":
			k = bnx.Exponent(c, "k")
			arg := new(big.Int).Set(k)
			res = g.bas(dst, arg)
			if arg.Cmp(k) != 0 {
				c.Fatalf("%s: ScalarBaseMult changed the scalar %v", g.name, k)
			}
			exp[d] = bnx.Mod(k)
			what = fmt.Sprintf("r%d = %v G", d, k)
		case "decode":
			var ok bool
			res, ok = g.decode(dst, g.marshal(reg[a]))
			if !ok {
				c.Fatalf("%s: the encoding of %v G does not decode\n%s", g.name, da, log)
			}
			exp[d] = da
			what = fmt.Sprintf("r%d = decode(encode(r%d))", d, a)
		case "print":
			_ = g.text(reg[a])
			res, d = reg[a], a
			fresh = false
			what = fmt.Sprintf("print r%d", a)
			dst = reg[a]
		case "inf":
			res = g.inf(dst)
			exp[d] = new(big.Int)
			what = fmt.Sprintf("r%d = identity", d)
		}
		if fresh {
			what += " (new variable)"
		}
		if res != dst {
			c.Fatalf("%s: the operation does not return its receiver: %s", g.name, what)
		}
		reg[d] = res
		log += what + "\n"
		c.Eval(fmt.Sprint(g.name, op, da, db, k, d == a, d == b, a == b, fresh))
		c.Label(g.name + " " + op)
		switch {
		case op == "add" && da.Cmp(db) == 0:
			c.Label("equal operands")
		case op == "add" && exp[d].Sign() == 0 && da.Sign() != 0:
			c.Label("opposite operands")
		}
		if !fresh && op != "base" && op != "inf" && op != "print" && (d == a || op == "add" && d == b) {
			c.Label("result over operand")
		}
		if da.Sign() == 0 || op == "add" && db.Sign() == 0 {
			c.Label("identity operand")
		}
		check(d, what)
		if always {
			for i := range reg {
				check(i, what)
			}
		}
	}
	for i := range reg {
		check(i, "the last step")
	}
	c.Sample(map[string]any{"group": g.name, "history": log})
}

func TestHistoryG1(t *testing.T) {
	pbt.Check(t, 800, 20000, func(c *pbt.C) { history(c, g1) })
}

func TestHistoryG2(t *testing.T) {
	pbt.Check(t, 480, 12000, func(c *pbt.C) { history(c, g2) })
}

// Multiples of every size, of the generator and of other elements.
func mult[E comparable](c *pbt.C, g group[E]) {
	k := pbt.IntSigned(c, "k", bnx.Order)
	j := bnx.Exponent(c, "j")
	if !bytes.Equal(g.marshal(g.bas(g.fresh(), k)), g.enc(k)) {
		c.Fatalf("%s: ScalarBaseMult(%v) is wrong", g.name, k)
	}
	p, how := g.make(c, "p", j)
	want := g.enc(new(big.Int).Mul(k, j))
	if !bytes.Equal(g.marshal(g.mul(g.fresh(), p, k)), want) {
		c.Fatalf("%s: ScalarMult(%v G (%s), %v) is wrong", g.name, j, how, k)
	}
	if !bytes.Equal(g.marshal(p), g.enc(j)) {
		c.Fatalf("%s: ScalarMult changed its operand %v G (%s), scalar %v", g.name, j, how, k)
	}
	if !bytes.Equal(g.marshal(g.mul(p, p, k)), want) {
		c.Fatalf("%s: ScalarMult over its operand %v G (%s), %v is wrong", g.name, j, how, k)
	}
	c.Eval(fmt.Sprint(g.name, k, j, how))
	c.Sample(map[string]any{"group": g.name, "k": k.String(), "operand": j.String(), "representation": how})
}

func TestMultiplesG1(t *testing.T) {
	pbt.Check(t, 1200, 30000, func(c *pbt.C) { mult(c, g1) })
}
func TestMultiplesG2(t *testing.T) {
	pbt.Check(t, 480, 12000, func(c *pbt.C) { mult(c, g2) })
}

// Random elements are the multiples they claim to be.
func TestRandom(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		tape := pbt.NewTape(pbt.SeedOf(c, "seed"))
		if pbt.Chance(c, "zero first", 50) {
			tape.Over = map[int][]byte{0: make([]byte, 32)}
		}
		k, e, err := bn256.RandomG1(tape)
		if err != nil || k.Sign() <= 0 || k.Cmp(bnx.Order) >= 0 || !bytes.Equal(e.Marshal(), bnx.Enc1(k)) {
			c.Fatalf("RandomG1: k=%v err=%v", k, err)
		}
		k2, e2, err := bn256.RandomG2(tape)
		if err != nil || k2.Sign() <= 0 || k2.Cmp(bnx.Order) >= 0 || !bytes.Equal(e2.Marshal(), bnx.Enc2(k2)) {
			c.Fatalf("RandomG2: k=%v err=%v", k2, err)
		}
		c.Eval(k.String() + k2.String())
	})
}
