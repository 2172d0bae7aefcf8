package c05

import (
	"math/big"
	"testing"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

// Elements chosen after the challenges that should depend on them.

// late describes what the challenges of the weakened verifier depend on.
func TestLateElements(t *testing.T) {
	check(t, 500, 9600, func(e env) {
		c := e.c
		gamma := e.rnd()
		v := e.out()
		switch pbt.Kind(c, "what", 12) {
		case 0: // V is in no challenge: choose it last
			k := ref.Verifier{
				YZ: func(p ref.Proof) (*big.Int, *big.Int) { return ref.Challenges2(p.A, p.S) },
				X:  func(p ref.Proof) *big.Int { x, _ := ref.Challenges2(p.T1, p.T2, p.A, p.S); return x },
			}
			e.lateV(k, "commitment not hashed")
		case 1:
			k := ref.Verifier{
				YZ: func(p ref.Proof) (*big.Int, *big.Int) { return ref.Challenges2(p.A, p.S) },
				X:  func(p ref.Proof) *big.Int { x, _ := ref.Challenges2(p.T1, p.T2); return x },
			}
			e.lateV(k, "commitment not hashed, x from T1 and T2 only")
		case 2: // y, z do not depend on V, x does: digits that are not bits
			yz := func(p ref.Proof) (*big.Int, *big.Int) { return ref.Challenges2(p.A, p.S) }
			w := e.witness(zero)
			w.AL, w.AR, w.Gamma = e.vec(), e.vec(), gamma
			pr := ref.Proof{N: e.n}
			pr.A, pr.S = e.rp.AS(w)
			y, z := yz(pr)
			q := ref.Polynomials(w, y, z)
			w.V = ref.Mul(ref.Sub(q.T0, ref.Delta(e.n, y, z)), ref.Inv(ref.Mul(z, z)))
			pr.V = e.rp.Commit(w.V, gamma)
			pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
			k := ref.Verifier{YZ: yz}
			_, _, x := k.Challenges(pr)
			e.finish(&pr, w, q, y, z, x)
			e.forged("y and z do not depend on the commitment", k, pr)
		case 3, 4: // y, z do not depend on A
			yz := func(p ref.Proof) (*big.Int, *big.Int) { return ref.Challenges2(p.S, p.V) }
			name := "y and z do not depend on A"
			if pbt.Chance(c, "only S", 50) {
				yz = func(p ref.Proof) (*big.Int, *big.Int) { return ref.Challenges2(p.S, p.S) }
				name = "y and z do not depend on A and V"
			}
			w := e.witness(v)
			w.Gamma = gamma
			pr := ref.Proof{N: e.n, V: e.rp.Commit(v, gamma)}
			_, pr.S = e.rp.AS(w)
			y, z := yz(pr)
			e.solveT0(&w, y, z, v)
			pr.A, _ = e.rp.AS(w)
			q := ref.Polynomials(w, y, z)
			pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
			k := ref.Verifier{YZ: yz}
			_, _, x := k.Challenges(pr)
			e.finish(&pr, w, q, y, z, x)
			e.forged(name, k, pr)
		case 5: // x does not depend on T1, or on T2
			first := pbt.Chance(c, "T1", 50)
			name := "x does not depend on T2"
			xf := func(p ref.Proof) *big.Int { x, _ := ref.Challenges2(p.T1, p.A, p.S, p.V); return x }
			if first {
				name = "x does not depend on T1"
				xf = func(p ref.Proof) *big.Int { x, _ := ref.Challenges2(p.T2, p.A, p.S, p.V); return x }
			}
			e.lateT(ref.Verifier{X: xf}, first, v, name)
		case 6: // x equals y or z, or a function of A, S and V only
			name, xf := "x is the hash of A and S", func(p ref.Proof) *big.Int { x, _ := ref.Challenges2(p.A, p.S, p.V); return x }
			if pbt.Chance(c, "second", 50) {
				name, xf = "x is the second hash of A and S", func(p ref.Proof) *big.Int { _, x := ref.Challenges2(p.A, p.S, p.V); return x }
			}
			e.lateT(ref.Verifier{X: xf}, pbt.Chance(c, "T1", 50), v, name)
		case 7: // y equals z
			if e.n == 1 {
				return
			}
			for _, name := range []string{"z equals y", "y equals z"} {
				yz := func(p ref.Proof) (*big.Int, *big.Int) { y, _ := ref.YZ(p.A, p.S, p.V); return y, y }
				if name == "y equals z" {
					yz = func(p ref.Proof) (*big.Int, *big.Int) { _, z := ref.YZ(p.A, p.S, p.V); return z, z }
				}
				w := e.witness(zero)
				// (see DESIGN.md) all coefficients of t0(z) - z^2 v vanish
				s := e.rnd()
				qq := ref.Sub(ref.Sub(ref.Mul(ref.Num(3), s), ref.Num(1)), v)
				w.AL[0], w.AR[0] = zero, ref.Sub(ref.Mul(s, qq), ref.Num(1))
				w.AL[1], w.AR[1] = s, qq
				e.direct(w, v, ref.Verifier{YZ: yz}, name)
			}
		case 8: // z is known in advance
			zc := ref.Add(e.rnd(), ref.Num(2))
			yz := func(p ref.Proof) (*big.Int, *big.Int) { y, _ := ref.YZ(p.A, p.S, p.V); return y, zc }
			w := e.witness(zero)
			for i := range w.AL {
				if i > 0 && pbt.Chance(c, "bit", 50) {
					continue
				}
				w.AL[i] = e.rnd()
			}
			// sum AL 2^i = v
			w.AL[0] = zero
			w.AL[0] = ref.Sub(v, ref.Inner(w.AL, ref.Powers(ref.Num(2), e.n)))
			for i := range w.AL {
				w.AR[i] = ref.Mul(zc, ref.Sub(ref.Num(1), w.AL[i]), ref.Inv(ref.Sub(w.AL[i], zc)))
			}
			e.direct(w, v, ref.Verifier{YZ: yz}, "z known in advance")
		case 9: // y is known in advance
			if e.n == 1 {
				return
			}
			yc := ref.Add(e.rnd(), ref.Num(2))
			if pbt.Chance(c, "one", 30) {
				yc = ref.Num(1)
			}
			yz := func(p ref.Proof) (*big.Int, *big.Int) { _, z := ref.YZ(p.A, p.S, p.V); return yc, z }
			w := e.witness(zero)
			// aL_0 + 2 aL_1 = v, <aL-1-aR, y> = 0, <aL o aR, y> = 0 with the other
			// digits zero: aR_1 = aL_1 - 1 + (aL_0 - 1 - aR_0)/y and
			// aL_0 aR_0 + y aL_1 aR_1 = 0 is linear in aR_0.
			a1 := e.rnd()
			a0 := ref.Sub(v, ref.Mul(ref.Num(2), a1))
			// aL_0 aR_0 + y a1 (a1-1) + a1 (a0-1) - a1 aR_0 = 0
			r0 := ref.Mul(ref.Neg(ref.Add(ref.Mul(yc, a1, ref.Sub(a1, ref.Num(1))), ref.Mul(a1, ref.Sub(a0, ref.Num(1))))), ref.Inv(ref.Sub(a0, a1)))
			r1 := ref.Add(ref.Sub(a1, ref.Num(1)), ref.Mul(ref.Sub(ref.Sub(a0, ref.Num(1)), r0), ref.Inv(yc)))
			w.AL[0], w.AL[1], w.AR[0], w.AR[1] = a0, a1, r0, r1
			e.direct(w, v, ref.Verifier{YZ: yz}, "y known in advance")
		case 10, 11: // x does not depend on V: the commitment follows x, before y and z
			from := pbt.Pick(c, "from", "T1, T2, A and S", "T1 and T2", "T1, T2 and S", "T1, T2 and A")
			k := ref.Verifier{X: func(p ref.Proof) *big.Int {
				in := []ref.Pt{p.T1, p.T2}
				switch from {
				case "T1, T2, A and S":
					in = append(in, p.A, p.S)
				case "T1, T2 and S":
					in = append(in, p.S)
				case "T1, T2 and A":
					in = append(in, p.A)
				}
				x, _ := ref.Challenges2(in...)
				return x
			}}
			// The first digit becomes s = sigma x, which is not a bit; the difference
			// s (s - 1) that this makes to t(x) is t1 x + t2 x^2.
			sigma := e.rnd()
			w := e.witness(bpx.InRange(c, "v0", e.n))
			for i := range w.SL {
				w.SL[i], w.SR[i] = zero, zero
			}
			w.AL[0], w.AR[0] = zero, ref.Num(-1)
			w.SL[0], w.SR[0] = sigma, sigma
			pr := ref.Proof{N: e.n}
			pr.A, pr.S = e.rp.AS(w)
			pr.T1, pr.T2 = e.rp.Commit(ref.Neg(sigma), w.Tau1), e.rp.Commit(ref.Mul(sigma, sigma), w.T2)
			x := k.X(pr)
			w.V = ref.Add(ref.Inner(w.AL, ref.Powers(ref.Num(2), e.n)), ref.Mul(sigma, x))
			pr.V = e.rp.Commit(w.V, w.Gamma)
			y, z, _ := k.Challenges(pr)
			e.finish(&pr, w, ref.Polynomials(w, y, z), y, z, x)
			e.forged("x does not depend on the commitment but on "+from, k, pr)
		}
	})
}

// direct runs the protocol with the given digits, for commitment v.
func (e env) direct(w ref.Witness, v *big.Int, k ref.Verifier, name string) {
	w.V = v
	pr := ref.Proof{N: e.n, V: e.rp.Commit(v, w.Gamma)}
	pr.A, pr.S = e.rp.AS(w)
	y, z, _ := k.Challenges(pr)
	q := ref.Polynomials(w, y, z)
	pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
	_, _, x := k.Challenges(pr)
	e.finish(&pr, w, q, y, z, x)
	e.forged(name, k, pr)
}

// solveT0 chooses digits such that t0 = z^2 v + delta for known y and z.
func (e env) solveT0(w *ref.Witness, y, z, v *big.Int) {
	w.AL, w.AR = e.vec(), e.vec()
	want := ref.Add(ref.Mul(z, z, v), ref.Delta(e.n, y, z))
	q := ref.Polynomials(*w, y, z)
	d := ref.Sub(want, q.T0)
	w.AL[0] = ref.Add(w.AL[0], ref.Mul(d, ref.Inv(q.R0[0])))
}

// lateV makes an honest proof of v0 with arbitrary T1 and T2 and solves (65) for V.
func (e env) lateV(k ref.Verifier, name string) {
	w := e.witness(bpx.InRange(e.c, "v0", e.n))
	pr := ref.Proof{N: e.n}
	pr.A, pr.S = e.rp.AS(w)
	y, z, _ := k.Challenges(pr)
	q := ref.Polynomials(w, y, z)
	t1, t2 := e.rnd(), e.rnd()
	pr.T1, pr.T2 = e.rp.Commit(t1, w.Tau1), e.rp.Commit(t2, w.T2)
	_, _, x := k.Challenges(pr)
	e.finish(&pr, w, q, y, z, x)
	// z^2 V = g^(tprime - delta) h^taux - x T1 - x^2 T2
	r := ref.Sum([]ref.Pt{ref.G, e.rp.H, pr.T1, pr.T2}, []*big.Int{ref.Sub(pr.Tprime, ref.Delta(e.n, y, z)), pr.Taux, ref.Neg(x), ref.Neg(ref.Mul(x, x))})
	pr.V = r.Mul(ref.Inv(ref.Mul(z, z)))
	e.forged(name, k, pr)
}

// lateT makes an honest proof of v0 for a commitment to v and solves (65) for T1 or T2.
func (e env) lateT(k ref.Verifier, first bool, v *big.Int, name string) {
	w := e.witness(bpx.InRange(e.c, "v0", e.n))
	pr := ref.Proof{N: e.n, V: e.rp.Commit(v, w.Gamma)}
	pr.A, pr.S = e.rp.AS(w)
	pr.T1, pr.T2 = e.pt(), e.pt()
	y, z, x := k.Challenges(pr)
	q := ref.Polynomials(w, y, z)
	e.finish(&pr, w, q, y, z, x)
	d := ref.Delta(e.n, y, z)
	x2 := ref.Mul(x, x)
	if first {
		r := ref.Sum([]ref.Pt{ref.G, e.rp.H, pr.V, pr.T2}, []*big.Int{ref.Sub(pr.Tprime, d), pr.Taux, ref.Neg(ref.Mul(z, z)), ref.Neg(x2)})
		pr.T1 = r.Mul(ref.Inv(x))
	} else {
		r := ref.Sum([]ref.Pt{ref.G, e.rp.H, pr.V, pr.T1}, []*big.Int{ref.Sub(pr.Tprime, d), pr.Taux, ref.Neg(ref.Mul(z, z)), ref.Neg(x)})
		pr.T2 = r.Mul(ref.Inv(x2))
	}
	e.forged(name, k, pr)
}

// An accepted proof is turned into another one with the same challenges: two elements
// change so that all equations still hold.
func TestStaleChallenges(t *testing.T) {
	check(t, 420, 8000, func(e env) {
		c := e.c
		w := e.witness(bpx.InRange(c, "v0", e.n))
		pr := e.rp.Prove(w)
		y0, z0 := ref.YZ(pr.A, pr.S, pr.V)
		x0 := ref.X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
		k := ref.Verifier{
			YZ: func(ref.Proof) (*big.Int, *big.Int) { return y0, z0 },
			X:  func(ref.Proof) *big.Int { return x0 },
		}
		d := e.rnd()
		if pbt.Chance(c, "small", 40) {
			d = ref.Num(int64(pbt.IntN(c, "d", 1, 5)))
		}
		D := ref.G.Mul(d)
		dH := e.rp.H.Mul(d)
		z2 := ref.Mul(z0, z0)
		x2 := ref.Mul(x0, x0)
		name := ""
		switch pbt.Kind(c, "pair", 9) {
		case 0:
			name = "commitment rerandomised"
			pr.V, pr.Taux = pr.V.Add(dH), ref.Add(pr.Taux, ref.Mul(z2, d))
		case 1:
			name = "commitment shifted against T1"
			pr.V = pr.V.Add(D)
			pr.T1 = pr.T1.Add(D.Mul(ref.Neg(ref.Mul(z2, ref.Inv(x0)))))
		case 2:
			name = "commitment shifted against T2"
			pr.V = pr.V.Add(D)
			pr.T2 = pr.T2.Add(D.Mul(ref.Neg(ref.Mul(z2, ref.Inv(x2)))))
		case 3:
			name = "T1 against T2"
			pr.T1 = pr.T1.Add(D)
			pr.T2 = pr.T2.Add(D.Mul(ref.Neg(ref.Inv(x0))))
		case 4:
			name = "A against S"
			pr.A = pr.A.Add(D)
			pr.S = pr.S.Add(D.Mul(ref.Neg(ref.Inv(x0))))
		case 5:
			name = "A rerandomised"
			pr.A, pr.Mu = pr.A.Add(dH), ref.Add(pr.Mu, d)
		case 6:
			name = "S rerandomised"
			pr.S, pr.Mu = pr.S.Add(dH), ref.Add(pr.Mu, ref.Mul(d, x0))
		case 7:
			name = "T1 rerandomised"
			pr.T1, pr.Taux = pr.T1.Add(dH), ref.Add(pr.Taux, ref.Mul(d, x0))
		case 8:
			name = "T2 rerandomised"
			pr.T2, pr.Taux = pr.T2.Add(dH), ref.Add(pr.Taux, ref.Mul(d, x2))
		}
		e.forged(name, k, pr)
	})
}

// The same inside of the inner product argument, whose elements are checked with the
// challenges of the original rounds.
func TestStaleRounds(t *testing.T) {
	check(t, 160, 3000, func(e env) {
		if e.n == 1 {
			return
		}
		c := e.c
		w := e.witness(bpx.InRange(c, "v0", e.n))
		pr := e.rp.Prove(w)
		y, _ := ref.YZ(pr.A, pr.S, pr.V)
		hp := ref.HPrime(e.rp.Hh, y)
		u := e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, pr.Commit, pr.Tprime))
		p := pr.Commit.Add(u.Mul(pr.Tprime))
		j := pbt.Kind(c, "round", len(pr.IP.Ls))
		// challenge of that round
		q := p
		var x *big.Int
		for i := 0; i <= j; i++ {
			x, _ = ref.Challenges2(pr.IP.Ls[i], pr.IP.Rs[i], q)
			q = ref.Sum([]ref.Pt{q, pr.IP.Ls[i], pr.IP.Rs[i]}, []*big.Int{ref.Num(1), ref.Mul(x, x), ref.Inv(ref.Mul(x, x))})
		}
		D := ref.G.Mul(e.rnd())
		name := ""
		switch pbt.Kind(c, "pair", 3) {
		case 0:
			name = "L against R"
			pr.IP.Ls[j] = pr.IP.Ls[j].Add(D)
			pr.IP.Rs[j] = pr.IP.Rs[j].Add(D.Mul(ref.Neg(ref.Mul(x, x, x, x))))
		case 1:
			name = "vector commitment against L"
			pr.Commit = pr.Commit.Add(D)
			pr.IP.Ls[j] = pr.IP.Ls[j].Add(D.Mul(ref.Neg(ref.Inv(ref.Mul(x, x)))))
		case 2:
			name = "vector commitment against mu"
			d := e.rnd()
			pr.Commit = pr.Commit.Add(e.rp.H.Mul(d))
			pr.Mu = ref.Sub(pr.Mu, d)
		}
		lib := bpx.LibProof(pr, e.rp)
		e.rejected("stale rounds: "+name, lib, D.String())
	})
}
