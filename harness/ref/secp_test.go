package ref

import (
	"math/big"
	"testing"
)

func TestRef(t *testing.T) {
	p := O
	for i := int64(0); i < 40; i++ {
		if !p.Eq(G.Mul(big.NewInt(i))) || !p.OnCurve() {
			t.Fatal(i)
		}
		if !G.Mul(new(big.Int).Sub(N, big.NewInt(i))).Eq(p.Neg()) {
			t.Fatal(i)
		}
		if !Sum([]Pt{G, p, G.Mul(big.NewInt(3))}, []*big.Int{big.NewInt(2), big.NewInt(5), big.NewInt(-7)}).Eq(G.Mul(big.NewInt(2 + 5*i - 21))) {
			t.Fatal(i)
		}
		p = p.Add(G)
	}
}
func BenchmarkMul(b *testing.B) {
	for i := 0; i < b.N; i++ {
		G.Mul(new(big.Int).Sub(N, big.NewInt(int64(i+5))))
	}
}
