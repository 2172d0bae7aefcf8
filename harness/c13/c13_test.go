package c13

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one inner product argument made for generated vectors, generators, commitment and claimed value, or altered, and verified; non-trivial = distinct (vectors, generators, commitment, claim, alteration)")
}

// statement is what an argument is about.
type statement struct {
	g, h []ref.Pt
	a, b []*big.Int
}

// entry draws vector entries; all integers are allowed.
func entry(c *pbt.C, plain bool) *big.Int {
	if plain {
		return pbt.Uniform(c, "entry", ref.N)
	}
	return pbt.IntSigned(c, "entry", ref.N)
}

func vectors(c *pbt.C, n int) (a, b []*big.Int) {
	plain := pbt.Chance(c, "plain", 40)
	for i := 0; i < n; i++ {
		if n > 8 { // long vectors: from one seed
			x := pbt.Expand(pbt.SeedOf(c, "entries"), 64)
			a, b = append(a, new(big.Int).SetBytes(x[:32])), append(b, new(big.Int).SetBytes(x[32:]))
			continue
		}
		a, b = append(a, entry(c, plain)), append(b, entry(c, plain))
	}
	if pbt.Chance(c, "structure", 25) {
		switch pbt.Kind(c, "structured", 5) {
		case 0: // a zero vector
			for i := range a {
				a[i] = new(big.Int)
			}
		case 1: // orthogonal by blocks
			for i := range a {
				if i < n/2 {
					a[i] = new(big.Int)
				} else {
					b[i] = new(big.Int)
				}
			}
		case 2: // constant
			for i := range a {
				a[i], b[i] = a[0], b[0]
			}
		case 3: // one non-zero entry
			k := pbt.Kind(c, "at", n)
			for i := range b {
				if i != k {
					b[i] = new(big.Int)
				}
			}
		case 4: // bits
			for i := range a {
				a[i] = big.NewInt(int64(pbt.Kind(c, "bit", 2)))
				b[i] = new(big.Int).Sub(a[i], big.NewInt(1))
			}
		}
	}
	return
}

func gens(c *pbt.C, n int) (g, h []ref.Pt) {
	r := ref.Setup(n)
	switch pbt.Kind(c, "gens", 4) {
	case 0:
		return ref.HPrime(r.Gg, pbt.Uniform(c, "y", ref.N)), ref.HPrime(r.Hh, pbt.Uniform(c, "y", ref.N))
	case 1:
		for i := 0; i < n; i++ {
			g = append(g, ref.G.Mul(pbt.Uniform(c, "g", ref.N)))
			h = append(h, ref.G.Mul(pbt.Uniform(c, "h", ref.N)))
		}
		return
	}
	return r.Gg, r.Hh
}

func draw(c *pbt.C) statement {
	n := pbt.Pick(c, "n", 1, 2, 4, 8, 1, 2, 4, 16, 32, 64)
	if pbt.Chance(c, "longer", 2) {
		n = pbt.Pick(c, "n", 128, 256)
	}
	a, b := vectors(c, n)
	g, h := gens(c, n)
	return statement{g, h, a, b}
}

func (s statement) n() int            { return len(s.a) }
func (s statement) product() *big.Int { return ref.Inner(s.a, s.b) }
func (s statement) com() ref.Pt       { return ref.VecCommit(s.g, s.h, s.a, s.b) }
func (s statement) key() string       { return fmt.Sprint(s.a, s.b, s.g[0].X) }
func (s statement) sample() map[string]any {
	return map[string]any{"length": s.n(), "a": pbt.Clip(fmt.Sprint(s.a), 120), "b": pbt.Clip(fmt.Sprint(s.b), 120)}
}

func copies(v []*big.Int) (w []*big.Int) {
	for _, x := range v {
		w = append(w, new(big.Int).Set(x))
	}
	return
}

func prove(c *pbt.C, s statement, com ref.Pt, claim *big.Int) (bp.InnerProductProof, bp.InnerProductParams, error) {
	params, err := bp.VerifSetupInnerProduct(bpx.Lib(ref.Setup(1).H), bpx.Libs(s.g), bpx.Libs(s.h), new(big.Int).Set(claim), int64(s.n()))
	if err != nil {
		c.Fatalf("setup for length %d: %v", s.n(), err)
	}
	a, b := copies(s.a), copies(s.b)
	var pr bp.InnerProductProof
	if p, st := pbt.Guard(func() { pr, err = bp.VerifProveInnerProduct(a, b, bpx.Lib(com), params) }); p != nil {
		c.Fatalf("the prover panics for length %d: %v\n%s", s.n(), p, st)
	}
	if fmt.Sprint(a, b) != fmt.Sprint(s.a, s.b) {
		c.Fatalf("the prover changed its vectors")
	}
	return pr, params, err
}

func accepts(p bp.InnerProductProof) (ok bool) {
	pbt.Guard(func() { ok, _ = p.Verify() })
	return
}

func refProof(p bp.InnerProductProof) ref.IPProof {
	return ref.IPProof{Ls: bpx.Refs(p.Ls), Rs: bpx.Refs(p.Rs), A: p.A, B: p.B}
}

func log2(n int) (k int) {
	for ; n > 1; n /= 2 {
		k++
	}
	return
}

// True statements: accepted, short, and a proof for an independent verifier.
func TestTrue(t *testing.T) {
	pbt.Check(t, 640, 16000, func(c *pbt.C) {
		s := draw(c)
		claim := s.product()
		com := s.com()
		if lib := bp.VerifCommitInnerProduct(bpx.Libs(s.g), bpx.Libs(s.h), copies(s.a), copies(s.b)); !bpx.Ref(lib).Eq(com) {
			c.Fatalf("the commitment to %v and %v is wrong", s.a, s.b)
		}
		p, _, err := prove(c, s, com, claim)
		if err != nil {
			c.Fatalf("the prover fails: %v", err)
		}
		c.Eval("true " + s.key())
		c.Label(fmt.Sprintf("true n=%d", s.n()))
		c.Sample(s.sample())
		ok, err := p.Verify()
		if !ok || err != nil {
			c.Fatalf("<%v, %v> = %v rejected: %v", s.a, s.b, claim, err)
		}
		if k := log2(s.n()); len(p.Ls) != k || len(p.Rs) != k {
			c.Fatalf("length %d: %d and %d points, want %d", s.n(), len(p.Ls), len(p.Rs), k)
		}
		if !ref.VerifyIP(s.g, s.h, ref.Setup(1).U, com, claim, refProof(p)) {
			c.Fatalf("<%v, %v> = %v: the proof does not convince an independent verifier", s.a, s.b, claim)
		}
	})
}

// False statements: the library's prover is run with a wrong claim or commitment.
func TestFalse(t *testing.T) {
	pbt.Check(t, 640, 16000, func(c *pbt.C) {
		s := draw(c)
		claim, com := s.product(), s.com()
		what := ""
		switch pbt.Kind(c, "what", 7) {
		case 0, 1:
			d, how := bpx.NewScalar(c, claim, []*big.Int{s.a[0], s.b[0]})
			claim, what = d, "claim "+how
		case 2:
			q, how := bpx.NewPoint(c, bpx.Lib(com), nil)
			if !bpx.Ref(q).OnCurve() && !bpx.Ref(q).Inf {
				return // an element of the group is required
			}
			com, what = bpx.Ref(q), "commitment "+how
		case 3: // other vectors with the same inner product
			o := statement{s.g, s.h, copies(s.a), copies(s.b)}
			o.a, o.b = o.b, o.a
			com, what = o.com(), "vectors exchanged in the commitment"
		case 4:
			i := pbt.Kind(c, "i", s.n())
			o := statement{s.g, s.h, copies(s.a), copies(s.b)}
			o.a[i].Add(o.a[i], big.NewInt(int64(pbt.IntN(c, "d", 1, 5))))
			com, what = o.com(), "another entry in the commitment"
		case 5:
			// other vectors with their own inner product: the claim fits the
			// commitment, the witness does not
			o := statement{s.g, s.h, copies(s.a), copies(s.b)}
			i := pbt.Kind(c, "i", s.n())
			o.b[i].Add(o.b[i], big.NewInt(1))
			com, claim, what = o.com(), o.product(), "another witness"
		case 6: // reversed order
			o := statement{s.g, s.h, nil, nil}
			for i := range s.a {
				o.a, o.b = append(o.a, s.a[s.n()-1-i]), append(o.b, s.b[s.n()-1-i])
			}
			com, what = o.com(), "order reversed in the commitment"
		}
		d := new(big.Int).Sub(claim, s.product())
		if d.Mod(d, ref.N).Sign() == 0 && com.Eq(s.com()) {
			c.Label("the statement remained true")
			return
		}
		p, _, err := prove(c, s, com, claim)
		c.Eval("false " + s.key() + what)
		c.Label("false: " + what)
		c.Sample(map[string]any{"length": s.n(), "false": what})
		if err == nil && accepts(p) {
			c.Fatalf("accepted with %s: vectors %v and %v, claim %v", what, s.a, s.b, claim)
		}
	})
}

// Statements with another commitment or claim than the argument was made for.
func TestAltered(t *testing.T) {
	pbt.Check(t, 480, 12000, func(c *pbt.C) {
		s := draw(c)
		p, _, err := prove(c, s, s.com(), s.product())
		if err != nil {
			c.Fatalf("the prover fails: %v", err)
		}
		for i, k := 0, pbt.IntN(c, "alterations", 2, 5); i < k; i++ {
			q := bpx.Clone(p)
			var pts []bpx.Slot
			for j := range q.Ls {
				pts = append(pts, bpx.Slot{Name: fmt.Sprintf("L%d", j), Pt: &q.Ls[j]})
			}
			for j := range q.Rs {
				pts = append(pts, bpx.Slot{Name: fmt.Sprintf("R%d", j), Pt: &q.Rs[j]})
			}
			zero := func(x *big.Int) bool { return new(big.Int).Mod(x, ref.N).Sign() == 0 }
			if !zero(p.A) && !zero(p.B) {
				pts = append(pts, bpx.Slot{Name: "U", Pt: &q.U})
			}
			pts = append(pts, bpx.Slot{Name: "P", Pt: &q.Params.P})
			if !zero(p.A) {
				j := pbt.Kind(c, "g", s.n())
				pts = append(pts, bpx.Slot{Name: fmt.Sprintf("g%d", j), Pt: &q.Params.Gg[j]})
			}
			if !zero(p.B) {
				j := pbt.Kind(c, "h", s.n())
				pts = append(pts, bpx.Slot{Name: fmt.Sprintf("h%d", j), Pt: &q.Params.Hh[j]})
			}
			what := ""
			switch kind := pbt.Kind(c, "kind", 9); {
			case kind < 5:
				sl := pts[pbt.Kind(c, "slot", len(pts))]
				n, how := bpx.NewPoint(c, *sl.Pt, p.Ls)
				*sl.Pt = n
				what = sl.Name + " " + how
			case kind < 7:
				name, sc := "A", &q.A
				if pbt.Chance(c, "B", 50) {
					name, sc = "B", &q.B
				}
				n, how := bpx.NewScalar(c, *sc, []*big.Int{q.A, q.B})
				// a scalar without effect on the equation: its generator is the identity
				*sc = n
				what = name + " " + how
			case kind == 7 && len(q.Ls) > 0:
				q.Ls, q.Rs = q.Rs, q.Ls
				same := true
				for j := range q.Ls {
					same = same && bpx.Ref(q.Ls[j]).Eq(bpx.Ref(q.Rs[j]))
				}
				if same {
					continue
				}
				what = "Ls and Rs exchanged"
			case kind == 8 && len(q.Ls) > 1:
				j := pbt.Kind(c, "j", len(q.Ls)-1)
				q.Ls[j], q.Ls[j+1] = q.Ls[j+1], q.Ls[j]
				q.Rs[j], q.Rs[j+1] = q.Rs[j+1], q.Rs[j]
				if bpx.Ref(q.Ls[j]).Eq(bpx.Ref(q.Ls[j+1])) && bpx.Ref(q.Rs[j]).Eq(bpx.Ref(q.Rs[j+1])) {
					continue
				}
				what = "rounds exchanged"
			default:
				continue
			}
			c.Eval("altered " + s.key() + what)
			c.Label("altered")
			if accepts(q) {
				c.Fatalf("altered argument accepted (%s): vectors %v and %v", what, s.a, s.b)
			}
		}
	})
}

// Forgeries: whatever the prover can compute in advance must not help.
func TestForged(t *testing.T) {
	pbt.Check(t, 320, 8000, func(c *pbt.C) {
		s := draw(c)
		k := pbt.Uniform(c, "k", ref.N)
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
		claim := new(big.Int).Mod(new(big.Int).Sub(s.product(), k), ref.N)
		what := ""
		U := ref.Setup(1).U
		var com ref.Pt
		switch pbt.Kind(c, "attack", 3) {
		case 0:
			// If u^x did not depend on the commitment, a component k u^x hidden in it
			// would make up for the wrong claim.
			what = "component of u in the commitment"
			p0, _, err := prove(c, s, s.com(), claim)
			if err != nil || p0.U == nil {
				return
			}
			com = s.com().Add(bpx.Ref(p0.U).Mul(k))
		case 1:
			// The same if u^x did not depend on the claim (or on the generators).
			what = "claim chosen after the challenge"
			com = s.com().Add(U.Mul(k))
			p0, _, err := prove(c, s, com, new(big.Int))
			if err != nil || p0.U == nil {
				return
			}
			// which number is the challenge? It is one of the weaker hashes.
			for _, x := range []*big.Int{ref.HashIP(s.g, s.h, com, new(big.Int)), ref.HashIP(nil, nil, com, new(big.Int))} {
				if U.Mul(x).Eq(bpx.Ref(p0.U)) {
					// k U = (k/x) u^x
					d := new(big.Int).ModInverse(new(big.Int).Mod(x, ref.N), ref.N)
					claim = new(big.Int).Sub(s.product(), d.Mul(d, k))
					claim.Mod(claim, ref.N)
				}
			}
		case 2:
			// If u had a known relation to the generators (here: if the challenge were
			// trivial), the inner product could hide in the commitment.
			what = "trivial challenge"
			com = s.com().Add(U.Mul(k))
		}
		p, _, err := prove(c, s, com, claim)
		c.Eval("forged " + s.key() + what)
		c.Label("forged: " + what)
		if err == nil && accepts(p) {
			c.Fatalf("forged argument accepted (%s): vectors %v and %v, claim %v", what, s.a, s.b, claim)
		}
	})
}

// The argument inside of a range proof has the same shape.
func TestShape(t *testing.T) {
	pbt.Check(t, 60, 1500, func(c *pbt.C) {
		n := pbt.Pick(c, "n", bpx.Sizes...)
		p, err := bp.Prove(bpx.InRange(c, "v", n), bpx.Params(c, n))
		if err != nil {
			c.Fatalf("Prove: %v", err)
		}
		c.Eval(fmt.Sprint("shape", n, bpx.Ref(p.A).X))
		if k := log2(n); len(p.InnerProductProof.Ls) != k || len(p.InnerProductProof.Rs) != k {
			c.Fatalf("n=%d: %d and %d points, want %d", n, len(p.InnerProductProof.Ls), len(p.InnerProductProof.Rs), k)
		}
	})
}

// Lists whose lengths do not fit: there is one pair of points per halving.
func TestMisfit(t *testing.T) {
	pbt.Check(t, 240, 5000, func(c *pbt.C) {
		s := draw(c)
		for s.n() > 16 {
			s = statement{s.g[:8], s.h[:8], s.a[:8], s.b[:8]}
		}
		p, _, err := prove(c, s, s.com(), s.product())
		if err != nil {
			c.Fatalf("vectors %v and %v: %v", s.a, s.b, err)
		}
		for i := 0; i < 3; i++ {
			q := bpx.Clone(p)
			what := bpx.Misfit(c, &q)
			c.Eval("misfit " + s.key() + what)
			c.Label("misfit: " + what)
			if accepts(q) {
				c.Fatalf("argument for vectors of length %d accepted although the lengths do not fit: %s (%d, %d points, %d, %d generators, size %d)",
					s.n(), what, len(q.Ls), len(q.Rs), len(q.Params.Gg), len(q.Params.Hh), q.N)
			}
		}
	})
}

// Vectors of different lengths are an error.
func TestLengths(t *testing.T) {
	pbt.Check(t, 120, 2000, func(c *pbt.C) {
		n, m := pbt.Pick(c, "n", 1, 2, 4, 8), pbt.Pick(c, "m", 1, 2, 4, 8)
		if n == m {
			return
		}
		a, _ := vectors(c, n)
		_, b := vectors(c, m)
		k := n
		if pbt.Chance(c, "by b", 50) {
			k = m
		}
		r := ref.Setup(k)
		params, err := bp.VerifSetupInnerProduct(nil, bpx.Libs(r.Gg), bpx.Libs(r.Hh), big.NewInt(1), int64(k))
		if err != nil {
			c.Fatalf("setup: %v", err)
		}
		c.Eval(fmt.Sprint("lengths", n, m, a, b))
		var pr bp.InnerProductProof
		if p, st := pbt.Guard(func() { pr, err = bp.VerifProveInnerProduct(a, b, new(p256.P256).SetInfinity(), params) }); p != nil {
			c.Fatalf("vectors of length %d and %d: panic %v\n%s", n, m, p, st)
		}
		if err == nil {
			c.Fatalf("vectors of length %d and %d: no error, accepted: %v", n, m, accepts(pr))
		}
	})
}
