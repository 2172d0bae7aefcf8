package ccx

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"

	"verif/bnx"
	"verif/pbt"
)

// GroupValue is the value of an element; integers count modulo the group order.
func GroupValue(l Leaf) string {
	if l.IsInt() && !l.Nil() {
		return bnx.Mod(l.Int()).String()
	}
	return l.Value()
}

func g2(k int64) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(big.NewInt(k)) }

// Alter changes the value of one element and says which one and how. The answer is
// empty if nothing changed.
func Alter(c *pbt.C, ls []Leaf) string {
	i := pbt.Kind(c, "leaf", len(ls))
	l := ls[i]
	old := GroupValue(l)
	how := ""
	var same []Leaf
	for j, m := range ls {
		if j != i && m.Ref.Type() == l.Ref.Type() {
			same = append(same, m)
		}
	}
	switch {
	case l.IsG2():
		q := CopyG2(l.G2())
		switch pbt.Kind(c, "g2", 8) {
		case 0:
			l.Set(new(bn256.G2).Neg(q))
			how = "negated"
		case 1:
			l.Set(new(bn256.G2).Add(q, g2(1)))
			how = "plus the base point"
		case 2:
			l.Set(new(bn256.G2).ScalarBaseMult(new(big.Int)))
			how = "identity"
		case 3:
			z := new(bn256.G2)
			z.SetInfinity()
			l.Set(z)
			how = "identity (SetInfinity)"
		case 4:
			l.Set(new(bn256.G2).ScalarBaseMult(pbt.Uniform(c, "k", bnx.Order)))
			how = "random"
		case 5:
			if len(same) > 0 {
				l.Set(CopyG2(same[pbt.Kind(c, "same", len(same))].G2()))
				how = "another element"
			}
		case 6:
			l.Set(new(bn256.G2).ScalarMult(q, big.NewInt(int64(pbt.IntN(c, "m", 2, 5)))))
			how = "multiplied"
		case 7:
			l.Set(new(bn256.G2).Add(q, new(bn256.G2).ScalarBaseMult(pbt.Uniform(c, "k", bnx.Order))))
			how = "plus a random element"
		}
	case l.IsGT():
		q := CopyGT(l.GT())
		switch pbt.Kind(c, "gt", 5) {
		case 0:
			l.Set(new(bn256.GT).Invert(q))
			how = "inverted"
		case 1:
			l.Set(new(bn256.GT).Add(q, util.E))
			how = "times the generator"
		case 2:
			l.Set(new(bn256.GT).ScalarMult(util.E, new(big.Int)))
			how = "identity"
		case 3:
			l.Set(new(bn256.GT).ScalarMult(util.E, pbt.Uniform(c, "k", bnx.Order)))
			how = "random"
		case 4:
			if len(same) > 0 {
				l.Set(CopyGT(same[pbt.Kind(c, "same", len(same))].GT()))
				how = "another element"
			}
		}
	case l.IsInt():
		x := l.Int()
		n := new(big.Int)
		switch pbt.Kind(c, "int", 8) {
		case 0:
			n.Add(x, big.NewInt(1))
			how = "+1"
		case 1:
			n.Sub(x, big.NewInt(1))
			how = "-1"
		case 2:
			n.Neg(x)
			how = "negated"
		case 3:
			how = "zero"
		case 4:
			n = pbt.Uniform(c, "u", bnx.Order)
			how = "random"
		case 5:
			if len(same) > 0 {
				n.Set(same[pbt.Kind(c, "same", len(same))].Int())
				how = "another element"
			} else {
				n.Add(x, big.NewInt(2))
				how = "+2"
			}
		case 6:
			n.Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(pbt.Kind(c, "bit", 254))))
			how = "bit flipped"
		case 7:
			n = pbt.IntSigned(c, "any", bnx.Order)
			how = "any integer"
		}
		l.Set(n)
	}
	if how == "" || GroupValue(l) == old {
		return ""
	}
	return l.Path + " " + how
}
