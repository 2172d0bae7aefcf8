package ref

import (
	"math/big"
	"testing"
)

func TestBP(t *testing.T) {
	for _, n := range []int{1, 2, 4} {
		for v := int64(-1); v < 1<<uint(n)+1; v++ {
			p := Setup(n)
			k := int64(11)
			r := func() *big.Int { k = k*7 + 3; return p.H.Mul(num(k)).X }
			vec := func() (s []*big.Int) {
				for i := 0; i < n; i++ {
					s = append(s, r())
				}
				return
			}
			w := Witness{V: num(v), Gamma: r(), Alpha: r(), Rho: r(), Tau1: r(), T2: r(), SL: vec(), SR: vec()}
			w.AL, w.AR = Bits(w.V, n)
			a, b, c := p.Verify(p.Prove(w))
			in := v >= 0 && v < 1<<uint(n)
			if a != in || !b || !c {
				t.Fatal(n, v, a, b, c)
			}
		}
	}
}
