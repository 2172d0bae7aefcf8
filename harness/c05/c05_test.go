package c05

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one forged proof, built by an adversarial prover that succeeds against the named weakened verifier (this is checked in the model), given to the library; non-trivial = distinct (attack, size, random choices)")
}

var zero = new(big.Int)

type env struct {
	c  *pbt.C
	n  int
	rp ref.Params
}

func (e env) rnd() *big.Int { return pbt.Uniform(e.c, "r", ref.N) }
func (e env) vec() []*big.Int {
	seed := pbt.SeedOf(e.c, "vec")
	r := make([]*big.Int, e.n)
	for i := range r {
		x := new(big.Int).SetBytes(pbt.Expand(seed*64+uint64(i), 40))
		r[i] = x.Mod(x, ref.N)
	}
	return r
}
func (e env) pt() ref.Pt { return ref.G.Mul(e.rnd()) }

// out is a secret that is outside of the range modulo the order.
func (e env) out() *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), uint(e.n))
	switch pbt.Kind(e.c, "out", 4) {
	case 0:
		return top
	case 1:
		return new(big.Int).Sub(ref.N, big.NewInt(1))
	case 2:
		return new(big.Int).Add(top, pbt.Uniform(e.c, "out.x", top))
	}
	v := e.rnd()
	if v.Cmp(top) < 0 {
		v.Add(v, top)
	}
	return v
}

func (e env) witness(v *big.Int) ref.Witness {
	w := ref.Witness{V: v, Gamma: e.rnd(), Alpha: e.rnd(), Rho: e.rnd(), Tau1: e.rnd(), T2: e.rnd(), SL: e.vec(), SR: e.vec()}
	w.AL, w.AR = ref.Bits(v, e.n)
	return w
}

// finish computes responses and the inner product argument from witness and challenges.
func (e env) finish(pr *ref.Proof, w ref.Witness, q ref.Poly, y, z, x *big.Int) {
	l, r := q.At(x)
	pr.Tprime = ref.Inner(l, r)
	pr.Taux = ref.Add(ref.Mul(w.T2, x, x), ref.Mul(w.Tau1, x), ref.Mul(z, z, w.Gamma))
	pr.Mu = ref.Add(w.Alpha, ref.Mul(w.Rho, x))
	hp := ref.HPrime(e.rp.Hh, y)
	pr.Commit = ref.VecCommit(e.rp.Gg, hp, l, r)
	pr.IP = ref.ProveIP(e.rp.Gg, hp, e.rp.U, pr.Commit, pr.Tprime, l, r)
}

// forged checks that the attack works against the weakened verifier and not against
// the model, and that the library rejects it.
func (e env) forged(name string, k ref.Verifier, pr ref.Proof) {
	e.forgedLib(name, k, pr, bpx.LibProof(pr, e.rp))
}

func (e env) forgedLib(name string, k ref.Verifier, pr ref.Proof, lib bp.BulletProof) {
	if a, b, d := e.rp.VerifyAs(k, pr); !a || !b || !d {
		pbt.Broken("attack %q does not fool its verifier (n=%d): %v %v %v", name, e.n, a, b, d)
	}
	if a, b, d := e.rp.Verify(pr); a && b && d {
		pbt.Broken("attack %q fools the model (n=%d)", name, e.n)
	}
	e.rejected(name, lib, fmt.Sprint(pr))
}

func (e env) rejected(name string, lib bp.BulletProof, key string) {
	c := e.c
	c.Eval(name + fmt.Sprint(e.n) + key)
	c.Label(name)
	c.Sample(map[string]any{"attack": name, "n": e.n})
	for i, p := range []bp.BulletProof{lib, bpx.ViaJSON(c, lib)} {
		var ok bool
		pbt.Guard(func() { ok, _ = p.Verify() }) // panics are the subject of C07
		if ok {
			c.Fatalf("forged proof accepted (n=%d, transport %d): %s", e.n, i, name)
		}
	}
}

func check(t *testing.T, quick, thorough int, f func(e env)) {
	pbt.Check(t, quick, thorough, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 2, 4, 8, 1, 2, 4, 2, 4, 8, 1, 2, 4, 8, 16, 32)
		f(env{c, n, ref.Setup(n)})
	})
}

// One of the three checks of the verifier is not made.
func TestOneCheckMissing(t *testing.T) {
	check(t, 300, 6000, func(e env) {
		v := e.out()
		switch pbt.Kind(e.c, "which", 4) {
		case 0: // (65): honest proof for another value
			w := e.witness(bpx.InRange(e.c, "v0", e.n))
			pr := ref.Proof{N: e.n, V: e.rp.Commit(v, w.Gamma)}
			pr.A, pr.S = e.rp.AS(w)
			y, z := ref.YZ(pr.A, pr.S, pr.V)
			q := ref.Polynomials(w, y, z)
			pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
			x := ref.X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
			e.finish(&pr, w, q, y, z, x)
			e.forged("value not tied to the bits", ref.Verifier{Any65: true}, pr)
		case 1: // (67): vectors not tied to A and S
			pr, y, z, x := e.open65(v)
			_ = z
			_ = x
			l, r := e.vec(), e.vec()
			e.fixInner(l, r, pr.Tprime)
			hp := ref.HPrime(e.rp.Hh, y)
			pr.Mu = e.rnd()
			pr.Commit = ref.VecCommit(e.rp.Gg, hp, l, r)
			pr.IP = ref.ProveIP(e.rp.Gg, hp, e.rp.U, pr.Commit, pr.Tprime, l, r)
			e.forged("vectors not tied to the bits", ref.Verifier{Any67: true}, pr)
		case 2: // no inner product argument
			pr, y, z, x := e.open65(v)
			pr.Mu = e.rnd()
			pr.Commit = e.rp.RHS67(pr.A, pr.S, x, y, z).Add(e.rp.H.Mul(ref.Neg(pr.Mu)))
			l, r := e.vec(), e.vec()
			pr.IP = ref.ProveIP(e.rp.Gg, ref.HPrime(e.rp.Hh, y), e.rp.U, pr.Commit, pr.Tprime, l, r)
			e.forged("inner product argument not checked", ref.Verifier{AnyIP: true}, pr)
		case 3: // (67) up to sign
			w := e.witness(bpx.InRange(e.c, "v0", e.n))
			pr := e.rp.Prove(w)
			y, z := ref.YZ(pr.A, pr.S, pr.V)
			x := ref.X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
			l, r := ref.Polynomials(w, y, z).At(x)
			for i := range l {
				l[i], r[i] = ref.Neg(l[i]), ref.Neg(r[i])
			}
			pr.Mu, pr.Commit = ref.Neg(pr.Mu), pr.Commit.Neg()
			pr.IP = ref.ProveIP(e.rp.Gg, ref.HPrime(e.rp.Hh, y), e.rp.U, pr.Commit, pr.Tprime, l, r)
			e.forged("negated vectors", ref.Verifier{Sign67: true}, pr)
		}
	})
}

// open65 makes a proof of v with arbitrary A and S that satisfies (65).
func (e env) open65(v *big.Int) (pr ref.Proof, y, z, x *big.Int) {
	gamma, t1, t2, tau1, tau2 := e.rnd(), e.rnd(), e.rnd(), e.rnd(), e.rnd()
	pr = ref.Proof{N: e.n, V: e.rp.Commit(v, gamma), A: e.pt(), S: e.pt()}
	if pbt.Chance(e.c, "plain", 30) { // identities where possible
		t1, t2, tau1, tau2 = zero, zero, zero, zero
		pr.A, pr.S = ref.O, ref.O
	}
	y, z = ref.YZ(pr.A, pr.S, pr.V)
	pr.T1, pr.T2 = e.rp.Commit(t1, tau1), e.rp.Commit(t2, tau2)
	x = ref.X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
	pr.Tprime = ref.Add(ref.Mul(z, z, v), ref.Delta(e.n, y, z), ref.Mul(t1, x), ref.Mul(t2, x, x))
	pr.Taux = ref.Add(ref.Mul(z, z, gamma), ref.Mul(tau1, x), ref.Mul(tau2, x, x))
	return
}

// fixInner changes r so that <l, r> = t.
func (e env) fixInner(l, r []*big.Int, t *big.Int) {
	d := ref.Sub(t, ref.Inner(l, r))
	r[0] = ref.Add(r[0], ref.Mul(d, ref.Inv(l[0])))
}

// The inner product proof is about a statement of its own, which it carries along.
func TestUnboundInnerProduct(t *testing.T) {
	check(t, 320, 6000, func(e env) {
		v := e.out()
		pr, y, z, x := e.open65(v)
		pr.Mu = e.rnd()
		pr.Commit = e.rp.RHS67(pr.A, pr.S, x, y, z).Add(e.rp.H.Mul(ref.Neg(pr.Mu)))
		hp := ref.HPrime(e.rp.Hh, y)
		l, r := e.vec(), e.vec()
		com := ref.VecCommit(e.rp.Gg, hp, l, r)
		own := ref.Inner(l, r)
		g, h, u := e.rp.Gg, hp, e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, com, own))
		name := ""
		p := com.Add(u.Mul(own))
		var ip ref.IPProof
		switch pbt.Kind(e.c, "how", 8) {
		case 0:
			name = "own statement"
		case 1:
			name, u, p = "own statement, u is the identity", ref.O, com
		case 2:
			name = "own generators"
			g, h = make([]ref.Pt, e.n), make([]ref.Pt, e.n)
			for i := range g {
				g[i], h[i] = e.pt(), e.pt()
			}
			p = ref.VecCommit(g, h, l, r).Add(u.Mul(own))
		case 3:
			name = "all zero"
			for i := range l {
				l[i], r[i] = zero, zero
			}
			p = ref.O
		case 4: // the statement of the proof, except that u cancels it
			name, u = "u chosen to fit", ref.O
			com = pr.Commit
			p = com
			ip.A, ip.B = zero, zero
		case 5:
			name = "hash of the real statement, vectors of another"
			u = e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, pr.Commit, pr.Tprime))
			p = com.Add(u.Mul(own))
		case 6, 7: // the statement of the proof, the last unknown of the argument is u
			name, com = "u solved for", pr.Commit
			if pbt.Chance(e.c, "true binding", 60) {
				p = com.Add(e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, com, pr.Tprime)).Mul(pr.Tprime))
			} else {
				p = com
			}
			ip.A, ip.B = add1(e.rnd()), add1(e.rnd())
			for i := 1; i < e.n; i *= 2 {
				ip.Ls, ip.Rs = append(ip.Ls, e.pt()), append(ip.Rs, e.pt())
			}
			u = ref.FitU(g, h, p, ip)
			if !ref.VerifyIPWith(g, h, u, p, ip) {
				pbt.Broken("the fitted argument is not valid")
			}
		}
		if name == "u solved for" {
			// nothing left
		} else if name != "u chosen to fit" {
			ip = ref.ProveIPWith(g, h, u, p, l, r)
			if !ref.VerifyIPWith(g, h, u, p, ip) {
				pbt.Broken("unbound inner product proof %q is not valid", name)
			}
		} else {
			// rounds that absorb everything
			ip = ref.ProveIPWith(g, h, u, p, l, r)
		}
		pr.IP = ip
		lib := bpx.LibProof(pr, e.rp)
		ipp := &lib.InnerProductProof
		ipp.U, ipp.P = bpx.Lib(u), bpx.Lib(p)
		ipp.Params.P, ipp.Params.Gg, ipp.Params.Hh, ipp.Params.Cc = bpx.Lib(p), bpx.Libs(g), bpx.Libs(h), own
		if pbt.Chance(e.c, "also in the parameters", 50) {
			lib.Params.InnerProductParams = bpx.Clone(ipp.Params)
		}
		e.forgedLib("unbound inner product: "+name, ref.Verifier{AnyIP: true}, pr, lib)
	})
}

func add1(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return ref.Num(1)
	}
	return x
}

// The evaluation is not the inner product of the committed vectors.
func TestWrongEvaluation(t *testing.T) {
	check(t, 220, 4000, func(e env) {
		v := e.out()
		w := e.witness(bpx.InRange(e.c, "v0", e.n))
		pr := ref.Proof{N: e.n, V: e.rp.Commit(v, w.Gamma)}
		pr.A, pr.S = e.rp.AS(w)
		y, z := ref.YZ(pr.A, pr.S, pr.V)
		q := ref.Polynomials(w, y, z)
		pr.T1, pr.T2 = e.rp.Commit(q.T1, w.Tau1), e.rp.Commit(q.T2, w.T2)
		x := ref.X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
		e.finish(&pr, w, q, y, z, x)
		l, r := q.At(x)
		real := ref.Inner(l, r)
		pr.Tprime = ref.Add(ref.Mul(z, z, v), ref.Delta(e.n, y, z), ref.Mul(q.T1, x), ref.Mul(q.T2, x, x))
		hp := ref.HPrime(e.rp.Hh, y)
		name, cc := "", real
		var u, p ref.Pt
		switch pbt.Kind(e.c, "how", 3) {
		case 0:
			name = "argument for the real inner product"
			u = e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, pr.Commit, real))
			p = pr.Commit.Add(u.Mul(real))
		case 1:
			name, cc = "argument with the hash of the claimed evaluation", pr.Tprime
			u = e.rp.U.Mul(ref.HashIP(e.rp.Gg, hp, pr.Commit, pr.Tprime))
			p = pr.Commit.Add(u.Mul(real))
		case 2:
			name, u, p = "argument without u", ref.O, pr.Commit
		}
		pr.IP = ref.ProveIPWith(e.rp.Gg, hp, u, p, l, r)
		if !ref.VerifyIPWith(e.rp.Gg, hp, u, p, pr.IP) {
			pbt.Broken("%s: invalid", name)
		}
		lib := bpx.LibProof(pr, e.rp)
		ipp := &lib.InnerProductProof
		ipp.U, ipp.P, ipp.Params.P, ipp.Params.Cc = bpx.Lib(u), bpx.Lib(p), bpx.Lib(p), cc
		lib.Params.InnerProductParams = bpx.Clone(ipp.Params)
		e.forgedLib("evaluation is not the inner product: "+name, ref.Verifier{AnyIP: true}, pr, lib)
	})
}

// Generators with relations that the prover knows, and ranges that are not supported.
func TestOwnGenerators(t *testing.T) {
	check(t, 200, 4000, func(e env) {
		rp := e.rp
		rp.Gg, rp.Hh = append([]ref.Pt{}, rp.Gg...), append([]ref.Pt{}, rp.Hh...)
		name := ""
		k := e.rnd()
		i := pbt.Kind(e.c, "i", e.n)
		libG := ref.G
		switch pbt.Kind(e.c, "how", 8) {
		case 0:
			name, rp.H = "H is a known multiple of G", ref.G.Mul(k)
		case 1:
			name, rp.Gg[i] = "g_i is a known multiple of G", ref.G.Mul(k)
		case 2:
			name, rp.Hh[i] = "h_i is a known multiple of G", ref.G.Mul(k)
		case 3:
			name, rp.Gg[i] = "g_i is a multiple of H", rp.H.Mul(k)
		case 4:
			name, rp.Hh[i] = "h_i equals g_i", rp.Gg[i]
		case 5:
			name, rp.Gg[i] = "g_i is the identity", ref.O
		case 6:
			if e.n == 1 {
				name, rp.Gg[0] = "g_0 is h_0", rp.Hh[0]
			} else {
				name = "two g_i are equal"
				rp.Gg[i] = rp.Gg[(i+1)%e.n]
			}
		case 7:
			name, rp.H = "H is the identity", ref.O
		}
		w := e.witness(bpx.InRange(e.c, "v", e.n))
		pr := rp.Prove(w)
		if a, b, d := rp.Verify(pr); !a || !b || !d {
			pbt.Broken("%s: not valid for its own generators", name)
		}
		lib := bpx.LibProof(pr, rp)
		lib.Params.G = bpx.Lib(libG)
		e.rejected("own generators: "+name, lib, fmt.Sprint(pr))
	})
}

func TestUnsupportedSize(t *testing.T) {
	pbt.Check(t, 24, 300, func(c *pbt.C) {
		// 64 bits; the inner product argument needs a power of two
		n := pbt.Pick(c, "n", 64, 64, 128)
		e := env{c, n, ref.Setup(n)}
		v := pbt.Uniform(c, "v", new(big.Int).Lsh(big.NewInt(1), uint(n)))
		v.SetBit(v, n-1, 1)
		pr := e.rp.Prove(e.witness(v))
		lib := bpx.LibProof(pr, e.rp)
		how := pbt.Kind(c, "how", 3)
		switch how {
		case 1:
			lib.Params.N = 32
		case 2:
			lib.Params.N, lib.InnerProductProof.N, lib.InnerProductProof.Params.N = 32, 32, 32
		}
		e.rejected(fmt.Sprintf("proof for %d bits (%d)", n, how), lib, fmt.Sprint(pr.A))
	})
}
