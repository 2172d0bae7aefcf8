package ref

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestFe(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	pick := func() *big.Int {
		x := new(big.Int).Rand(r, P)
		switch r.Intn(4) {
		case 0:
			x = big.NewInt(int64(r.Intn(5)))
		case 1:
			x = new(big.Int).Sub(P, big.NewInt(int64(1+r.Intn(5))))
		}
		return x
	}
	m := func(x *big.Int) *big.Int { return x.Mod(x, P) }
	for i := 0; i < 200000; i++ {
		a, b := pick(), pick()
		x, y := toFe(a), toFe(b)
		if x.mul(y).big().Cmp(m(new(big.Int).Mul(a, b))) != 0 || x.add(y).big().Cmp(m(new(big.Int).Add(a, b))) != 0 || x.sub(y).big().Cmp(m(new(big.Int).Sub(a, b))) != 0 {
			t.Fatal(a, b)
		}
		// unreduced operands
		z := x.sub(y).add(y)
		if z.mul(y).big().Cmp(m(new(big.Int).Mul(a, b))) != 0 || z.sub(x).zero() != true {
			t.Fatal(a, b)
		}
	}
}
