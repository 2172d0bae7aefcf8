package c05

import (
	"fmt"
	"math/big"
	"testing"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

// The factors that keep the constraints of the digits and of the value apart coincide:
// errors in two of the constraints cancel each other.
func TestWeights(t *testing.T) {
	check(t, 240, 5000, func(e env) {
		c := e.c
		one := ref.Num(1)
		v := e.out()
		w := e.witness(bpx.InRange(c, "v0", e.n))
		two := ref.Powers(ref.Num(2), e.n)
		sum := func() *big.Int { return ref.Inner(w.AL, two) }
		var k ref.Verifier
		name := ""
		switch pbt.Kind(c, "weights", 6) {
		case 0, 1: // two digits have one weight
			if e.n == 1 {
				return
			}
			i := pbt.Kind(c, "i", e.n)
			j := pbt.Kind(c, "j", e.n)
			switch pbt.Kind(c, "pattern", 5) {
			case 0, 1:
				p := 1 << pbt.Kind(c, "period", 5)
				if p >= e.n {
					p = e.n / 2
				}
				name = fmt.Sprintf("powers of y repeat after %d", p)
				k.Y = func(y *big.Int, i int) *big.Int { return ref.Powers(y, e.n)[i%p] }
				i %= p
				j = i + p
			case 2:
				m := pbt.Kind(c, "cap", e.n-1)
				name = fmt.Sprintf("powers of y up to %d only", m)
				k.Y = func(y *big.Int, i int) *big.Int { return ref.Powers(y, e.n)[min(i, m)] }
				i, j = m, e.n-1
			case 3:
				name = "each power of y twice"
				k.Y = func(y *big.Int, i int) *big.Int { return ref.Powers(y, e.n)[i/2] }
				i &^= 1
				j = i + 1
			case 4:
				name = "1 and y"
				k.Y = func(y *big.Int, i int) *big.Int { return ref.Powers(y, 2)[min(i, 1)] }
				if e.n == 2 {
					return
				}
				i, j = 1, e.n-1
			}
			if i == j {
				return
			}
			// al_i ar_i + al_j ar_j = 0, al_i + al_j - 2 - ar_i - ar_j = 0, sum al 2^i = v
			w.AL[i], w.AL[j] = zero, zero
			b := e.rnd()
			a := ref.Mul(ref.Sub(ref.Sub(v, sum()), ref.Mul(b, two[j])), ref.Inv(two[i]))
			if a.Cmp(b) == 0 {
				return
			}
			s := ref.Sub(ref.Add(a, b), ref.Num(2))
			w.AL[i], w.AL[j] = a, b
			w.AR[i] = ref.Neg(ref.Mul(b, s, ref.Inv(ref.Sub(a, b))))
			w.AR[j] = ref.Sub(s, w.AR[i])
		case 2, 3: // the weight of the value is that of al - 1 - ar of one digit
			i := pbt.Kind(c, "i", min(e.n, 2))
			name = "weight of the value is z"
			k.Z2 = func(y, z *big.Int) *big.Int { return z }
			if i == 1 {
				name = "weight of the value is y z"
				k.Z2 = func(y, z *big.Int) *big.Int { return ref.Mul(y, z) }
			}
			if pbt.Chance(c, "left", 50) {
				w.AL[i] = zero
				w.AR[i] = ref.Sub(ref.Sub(sum(), v), one)
			} else {
				// ar = 0, al - 1 + sum - v = 0
				w.AL[i], w.AR[i] = zero, zero
				w.AL[i] = ref.Mul(ref.Sub(ref.Add(v, one), sum()), ref.Inv(ref.Add(two[i], one)))
			}
		case 4, 5: // it is that of al ar of one digit
			i := pbt.Kind(c, "i", min(e.n, 2))
			name = "weight of the value is 1"
			k.Z2 = func(y, z *big.Int) *big.Int { return one }
			if i == 1 {
				name = "weight of the value is y"
				k.Z2 = func(y, z *big.Int) *big.Int { return y }
			}
			// al (al - 1) + sum = v
			a := e.rnd()
			w.AL[i], w.AR[i] = a, ref.Sub(a, one)
			v = ref.Add(sum(), ref.Mul(a, ref.Sub(a, one)))
			top := new(big.Int).Lsh(big.NewInt(1), uint(e.n))
			if v.Cmp(top) < 0 {
				return
			}
		}
		w.V = v
		pr := ref.Proof{N: e.n, V: e.rp.Commit(v, w.Gamma)}
		pr.A, pr.S = e.rp.AS(w)
		y, z, _ := k.Challenges(pr)
		q := k.Polynomials(w, y, z)
		pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
		_, _, x := k.Challenges(pr)
		l, r := q.At(x)
		pr.Tprime = ref.Inner(l, r)
		z2 := ref.Mul(z, z)
		if k.Z2 != nil {
			z2 = k.Z2(y, z)
		}
		pr.Taux = ref.Add(ref.Mul(w.T2, x, x), ref.Mul(w.Tau1, x), ref.Mul(z2, w.Gamma))
		pr.Mu = ref.Add(w.Alpha, ref.Mul(w.Rho, x))
		hp := k.HPrime(e.rp.Hh, y)
		pr.Commit = ref.VecCommit(e.rp.Gg, hp, l, r)
		pr.IP = ref.ProveIP(e.rp.Gg, hp, e.rp.U, pr.Commit, pr.Tprime, l, r)
		e.forged(name, k, pr)
	})
}
