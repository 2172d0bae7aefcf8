package bnx

import "math/big"

// F2 is re + im i in the field with P^2 elements.
type F2 struct{ Re, Im *big.Int }

func m(x *big.Int) *big.Int { return x.Mod(x, P) }

// Mul is the product.
func (a F2) Mul(b F2) F2 {
	re := new(big.Int).Sub(new(big.Int).Mul(a.Re, b.Re), new(big.Int).Mul(a.Im, b.Im))
	im := new(big.Int).Add(new(big.Int).Mul(a.Re, b.Im), new(big.Int).Mul(a.Im, b.Re))
	return F2{m(re), m(im)}
}

// Add is the sum.
func (a F2) Add(b F2) F2 {
	return F2{m(new(big.Int).Add(a.Re, b.Re)), m(new(big.Int).Add(a.Im, b.Im))}
}

// Eq compares values.
func (a F2) Eq(b F2) bool {
	return new(big.Int).Mod(a.Re, P).Cmp(new(big.Int).Mod(b.Re, P)) == 0 && new(big.Int).Mod(a.Im, P).Cmp(new(big.Int).Mod(b.Im, P)) == 0
}

// Inv is the inverse.
func (a F2) Inv() F2 {
	n := new(big.Int).Add(new(big.Int).Mul(a.Re, a.Re), new(big.Int).Mul(a.Im, a.Im))
	n.ModInverse(m(n), P)
	return F2{m(new(big.Int).Mul(a.Re, n)), m(new(big.Int).Mul(new(big.Int).Neg(a.Im), n))}
}

// Sqrt is a square root, if there is one.
func (a F2) Sqrt() (F2, bool) {
	if a.Re.Sign() == 0 && a.Im.Sign() == 0 {
		return F2{new(big.Int), new(big.Int)}, true
	}
	n := new(big.Int).Add(new(big.Int).Mul(a.Re, a.Re), new(big.Int).Mul(a.Im, a.Im))
	s := new(big.Int).ModSqrt(m(n), P)
	if s == nil {
		return F2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), P)
	for i := 0; i < 2; i++ {
		t := m(new(big.Int).Mul(new(big.Int).Add(a.Re, s), half))
		if r := new(big.Int).ModSqrt(t, P); r != nil && r.Sign() != 0 {
			im := new(big.Int).Mul(a.Im, new(big.Int).ModInverse(new(big.Int).Lsh(r, 1), P))
			c := F2{r, m(im)}
			if c.Mul(c).Eq(a) {
				return c, true
			}
		}
		s = new(big.Int).Neg(s)
	}
	// a purely imaginary root
	t := m(new(big.Int).Neg(a.Re))
	if a.Im.Sign() == 0 {
		if r := new(big.Int).ModSqrt(t, P); r != nil {
			return F2{new(big.Int), r}, true
		}
	}
	return F2{}, false
}

// TwistB is 3/(9+i), the constant of the curve of G2.
var TwistB = F2{big.NewInt(3), new(big.Int)}.Mul(F2{big.NewInt(9), big.NewInt(1)}.Inv())

// OnTwist checks y^2 = x^3 + 3/(9+i).
func OnTwist(x, y F2) bool { return y.Mul(y).Eq(x.Mul(x).Mul(x).Add(TwistB)) }

// TwistY finds an ordinate for x.
func TwistY(x F2) (F2, bool) { return x.Mul(x).Mul(x).Add(TwistB).Sqrt() }

// Enc writes coordinates like an encoding of a point of G2: imaginary part first.
func Enc(x, y F2) []byte {
	r := make([]byte, 128)
	x.Im.FillBytes(r[0:32])
	x.Re.FillBytes(r[32:64])
	y.Im.FillBytes(r[64:96])
	y.Re.FillBytes(r[96:128])
	return r
}

// Dec reads the coordinates.
func Dec(b []byte) (x, y F2) {
	n := func(i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
	return F2{n(1), n(0)}, F2{n(3), n(2)}
}

// OnCurve1 checks y^2 = x^3 + 3 for an encoding of G1.
func OnCurve1(b []byte) bool {
	x, y := new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Exp(x, big.NewInt(3), P)
	r.Add(r, big.NewInt(3))
	return m(l).Cmp(m(r)) == 0
}
