// Package bnx connects the pairing groups of the library with an independent
// implementation of the same curve (the assembly one of go-ethereum).
package bnx

import (
	"math/big"

	cf "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/pbt"
)

// Order of the groups and characteristic of the field (independent constants).
var (
	Order, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	P, _     = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
)

// Mod reduces modulo the order.
func Mod(k *big.Int) *big.Int { return new(big.Int).Mod(k, Order) }

// Zero tells whether k is a multiple of the order.
func Zero(k *big.Int) bool { return Mod(k).Sign() == 0 }

// Enc1 is the expected encoding of k times the generator of G1. The library's
// generator is the negative of the reference's.
func Enc1(k *big.Int) []byte {
	if Zero(k) {
		r := make([]byte, 64)
		r[63] = 1
		return r
	}
	return new(cf.G1).ScalarBaseMult(Mod(new(big.Int).Neg(k))).Marshal()
}

// Enc2 is the expected encoding of k times the generator of G2.
func Enc2(k *big.Int) []byte {
	if Zero(k) {
		return make([]byte, 128)
	}
	return new(cf.G2).ScalarBaseMult(Mod(k)).Marshal()
}

var base *cf.GT

func init() {
	one := big.NewInt(1)
	base = cf.Pair(new(cf.G1).Neg(new(cf.G1).ScalarBaseMult(one)), new(cf.G2).ScalarBaseMult(one))
}

// EncT is the expected encoding of the pairing of the generators to the power k.
func EncT(k *big.Int) []byte {
	return new(cf.GT).ScalarMult(base, Mod(k)).Marshal()
}

// Kinds of representations Make1 and Make2 produce.
var Kinds = []string{"base", "base of negative", "base of long", "scaled", "scaled by negative", "sum", "doubled", "negated", "decoded", "printed", "alias sum", "difference"}

// Make1 builds k times the generator of G1 in one of many internal representations.
func Make1(c *pbt.C, label string, k *big.Int) (*bn256.G1, string) {
	k = Mod(k)
	if k.Sign() == 0 && pbt.Chance(c, label+".inf", 50) {
		switch pbt.Kind(c, label+".how", 4) {
		case 0:
			return new(bn256.G1).SetInfinity(), "SetInfinity"
		case 1:
			e := new(bn256.G1).ScalarBaseMult(pbt.Uniform(c, label+".a", Order))
			e.SetZero()
			return e, "SetZero"
		case 2:
			e, ok := new(bn256.G1).Unmarshal(make([]byte, 64))
			if !ok {
				c.Fatalf("the encoding of the identity is rejected")
			}
			return e, "decoded zeros"
		default:
			return new(bn256.G1).ScalarMult(new(bn256.G1).SetInfinity(), pbt.Uniform(c, label+".a", Order)), "multiple of identity"
		}
	}
	how := Kinds[pbt.Kind(c, label+".how", len(Kinds))]
	a := pbt.Uniform(c, label+".a", Order)
	if a.Sign() == 0 {
		a.SetInt64(1)
	}
	b := Mod(new(big.Int).Mul(k, new(big.Int).ModInverse(a, Order)))
	d := Mod(new(big.Int).Sub(k, a))
	neg := new(big.Int).Sub(k, Order)
	base := func(x *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(x) }
	switch how {
	case "base of negative":
		return base(neg), how
	case "base of long":
		return base(new(big.Int).Add(k, new(big.Int).Mul(Order, big.NewInt(int64(pbt.IntN(c, label+".q", 1, 3)))))), how
	case "scaled":
		return new(bn256.G1).ScalarMult(base(a), b), how
	case "scaled by negative":
		return new(bn256.G1).ScalarMult(base(a), new(big.Int).Sub(b, Order)), how
	case "sum":
		return new(bn256.G1).Add(base(a), base(d)), how
	case "difference":
		x := Mod(new(big.Int).Add(k, a))
		return new(bn256.G1).Add(base(x), new(bn256.G1).Neg(base(a))), how
	case "doubled":
		h := base(Mod(new(big.Int).Mul(k, new(big.Int).ModInverse(big.NewInt(2), Order))))
		return new(bn256.G1).Add(h, h), how
	case "negated":
		return new(bn256.G1).Neg(base(new(big.Int).Neg(k))), how
	case "decoded":
		e, ok := new(bn256.G1).Unmarshal(Enc1(k))
		if !ok {
			c.Fatalf("Unmarshal rejects the encoding of %v G1", k)
		}
		return e, how
	case "printed":
		e := base(k)
		_ = e.String()
		e.Marshal()
		return e, how
	case "alias sum":
		e := base(a)
		return e.Add(e, base(d)), how
	}
	return base(k), how
}

// Make2 is Make1 for G2.
func Make2(c *pbt.C, label string, k *big.Int) (*bn256.G2, string) {
	k = Mod(k)
	if k.Sign() == 0 && pbt.Chance(c, label+".inf", 50) {
		switch pbt.Kind(c, label+".how", 3) {
		case 0:
			return new(bn256.G2).SetInfinity(), "SetInfinity"
		case 1:
			e, ok := new(bn256.G2).Unmarshal(make([]byte, 128))
			if !ok {
				c.Fatalf("the encoding of the identity is rejected")
			}
			return e, "decoded zeros"
		default:
			return new(bn256.G2).ScalarMult(new(bn256.G2).SetInfinity(), pbt.Uniform(c, label+".a", Order)), "multiple of identity"
		}
	}
	how := Kinds[pbt.Kind(c, label+".how", len(Kinds))]
	a := pbt.Uniform(c, label+".a", Order)
	if a.Sign() == 0 {
		a.SetInt64(1)
	}
	b := Mod(new(big.Int).Mul(k, new(big.Int).ModInverse(a, Order)))
	d := Mod(new(big.Int).Sub(k, a))
	neg := new(big.Int).Sub(k, Order)
	base := func(x *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(x) }
	switch how {
	case "base of negative":
		return base(neg), how
	case "base of long":
		return base(new(big.Int).Add(k, new(big.Int).Mul(Order, big.NewInt(int64(pbt.IntN(c, label+".q", 1, 3)))))), how
	case "scaled":
		return new(bn256.G2).ScalarMult(base(a), b), how
	case "scaled by negative":
		return new(bn256.G2).ScalarMult(base(a), new(big.Int).Sub(b, Order)), how
	case "sum":
		return new(bn256.G2).Add(base(a), base(d)), how
	case "difference":
		x := Mod(new(big.Int).Add(k, a))
		return new(bn256.G2).Add(base(x), new(bn256.G2).Neg(base(a))), how
	case "doubled":
		h := base(Mod(new(big.Int).Mul(k, new(big.Int).ModInverse(big.NewInt(2), Order))))
		return new(bn256.G2).Add(h, h), how
	case "negated":
		return new(bn256.G2).Neg(base(new(big.Int).Neg(k))), how
	case "decoded":
		e, ok := new(bn256.G2).Unmarshal(Enc2(k))
		if !ok {
			c.Fatalf("Unmarshal rejects the encoding of %v G2", k)
		}
		return e, how
	case "printed":
		e := base(k)
		_ = e.String()
		e.Marshal()
		return e, how
	case "alias sum":
		e := base(a)
		return e.Add(e, base(d)), how
	}
	return base(k), how
}

// MakeT builds the pairing of the generators to the power k.
func MakeT(c *pbt.C, label string, k *big.Int) (*bn256.GT, string) {
	k = Mod(k)
	one := big.NewInt(1)
	dec := func(x *big.Int) *bn256.GT {
		e, ok := new(bn256.GT).Unmarshal(EncT(x))
		if !ok {
			c.Fatalf("Unmarshal rejects the encoding of an element of GT")
		}
		return e
	}
	a := pbt.Uniform(c, label+".a", Order)
	switch pbt.Kind(c, label+".how", 6) {
	case 0:
		return bn256.Pair(new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(one)), "paired left"
	case 1:
		return bn256.Pair(new(bn256.G1).ScalarBaseMult(one), new(bn256.G2).ScalarBaseMult(k)), "paired right"
	case 2:
		return new(bn256.GT).Add(dec(a), dec(Mod(new(big.Int).Sub(k, a)))), "product"
	case 3:
		return new(bn256.GT).Invert(dec(new(big.Int).Neg(k))), "inverse"
	case 4:
		return new(bn256.GT).ScalarMult(dec(one), k), "power"
	}
	return dec(k), "decoded"
}

// Exponent draws an exponent: small ones, boundaries and uniform ones.
func Exponent(c *pbt.C, label string) *big.Int {
	switch pbt.Kind(c, label+".k", 8) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(pbt.IntN(c, label, -9, 9)))
	case 2:
		return new(big.Int).Add(Order, big.NewInt(int64(pbt.IntN(c, label, -3, 3))))
	case 3, 4:
		return pbt.IntSigned(c, label, Order)
	}
	return pbt.Uniform(c, label, Order)
}
