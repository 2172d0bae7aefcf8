package c33

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one proof exchanged as a JSON document between the library and the reference implementation and judged by both; non-trivial = distinct (size, secret, randomness, direction, alteration)")
}

// ---- the documents, as the reference implementation reads and writes them

type point struct{ X, Y *big.Int }

func (p *point) ref() ref.Pt {
	if p == nil || p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return ref.O
	}
	return ref.Pt{X: p.X, Y: p.Y}
}

func doc(p ref.Pt) *point {
	if p.Inf {
		return &point{}
	}
	return &point{p.X, p.Y}
}

func docs(ps []ref.Pt) (r []*point) {
	for _, p := range ps {
		r = append(r, doc(p))
	}
	return
}

func refs(ps []*point) (r []ref.Pt) {
	for _, p := range ps {
		r = append(r, p.ref())
	}
	return
}

type ipParams struct {
	N      int64
	Cc     *big.Int
	Uu, H  *point
	Gg, Hh []*point
	P      *point
}

type ipDoc struct {
	N      int64
	Ls, Rs []*point
	U, P   *point
	Gg, Hh *point
	A, B   *big.Int
	Params ipParams
}

type setupDoc struct {
	N                  int64
	G, H               *point
	Gg, Hh             []*point
	InnerProductParams ipParams
}

type proofDoc struct {
	V, A, S, T1, T2   *point
	Taux, Mu, Tprime  *big.Int
	InnerProductProof ipDoc
	Commit            *point
	Params            setupDoc
}

type genericDoc struct {
	A, B   int64
	P1, P2 proofDoc
}

func (d proofDoc) ref() ref.Proof {
	return ref.Proof{N: int(d.Params.N), V: d.V.ref(), A: d.A.ref(), S: d.S.ref(), T1: d.T1.ref(), T2: d.T2.ref(), Commit: d.Commit.ref(),
		Taux: d.Taux, Mu: d.Mu, Tprime: d.Tprime,
		IP: ref.IPProof{Ls: refs(d.InnerProductProof.Ls), Rs: refs(d.InnerProductProof.Rs), A: d.InnerProductProof.A, B: d.InnerProductProof.B}}
}

// write makes the document of a proof.
func write(pr ref.Proof, rp ref.Params) proofDoc {
	n := int64(rp.N)
	y, _ := ref.YZ(pr.A, pr.S, pr.V)
	hp := ref.HPrime(rp.Hh, y)
	u := rp.U.Mul(ref.HashIP(rp.Gg, hp, pr.Commit, pr.Tprime))
	pp := pr.Commit.Add(u.Mul(pr.Tprime))
	ip := ipParams{N: n, Cc: pr.Tprime, Uu: doc(rp.U), H: doc(rp.H), Gg: docs(rp.Gg), Hh: docs(hp), P: doc(pp)}
	return proofDoc{V: doc(pr.V), A: doc(pr.A), S: doc(pr.S), T1: doc(pr.T1), T2: doc(pr.T2), Taux: pr.Taux, Mu: pr.Mu, Tprime: pr.Tprime,
		Commit: doc(pr.Commit), Params: setupDoc{N: n, G: doc(ref.G), H: doc(rp.H), Gg: docs(rp.Gg), Hh: docs(rp.Hh), InnerProductParams: ip},
		InnerProductProof: ipDoc{N: n, Ls: docs(pr.IP.Ls), Rs: docs(pr.IP.Rs), U: doc(u), P: doc(pp), Gg: doc(rp.Gg[0]), Hh: doc(rp.Hh[0]),
			A: pr.IP.A, B: pr.IP.B, Params: ip}}
}

func encode(c *pbt.C, v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("cannot encode %T: %v", v, err)
	}
	return b
}

func decode(c *pbt.C, b []byte, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		c.Fatalf("cannot decode %T: %v", v, err)
	}
}

func scalar(c *pbt.C, label string) *big.Int {
	switch pbt.Kind(c, label+".kind", 12) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(ref.N, big.NewInt(1))
	}
	return pbt.Uniform(c, label, ref.N)
}

// witness draws everything a prover may choose.
func witness(c *pbt.C, n int, v, gamma *big.Int) ref.Witness {
	w := ref.Witness{V: v, Gamma: gamma, Alpha: scalar(c, "alpha"), Rho: scalar(c, "rho"), Tau1: scalar(c, "tau1"), T2: scalar(c, "tau2")}
	w.AL, w.AR = ref.Bits(v, n)
	seed := pbt.SeedOf(c, "s")
	b := pbt.Expand(seed, 64*n)
	for i := 0; i < n; i++ {
		w.SL = append(w.SL, new(big.Int).Mod(new(big.Int).SetBytes(b[64*i:64*i+32]), ref.N))
		w.SR = append(w.SR, new(big.Int).Mod(new(big.Int).SetBytes(b[64*i+32:64*i+64]), ref.N))
	}
	if pbt.Chance(c, "sparse s", 10) {
		for i := range w.SL {
			if pbt.Chance(c, "zero", 50) {
				w.SL[i] = new(big.Int)
			}
			if pbt.Chance(c, "zero", 50) {
				w.SR[i] = new(big.Int)
			}
		}
	}
	return w
}

func all(a, b, d bool) bool { return a && b && d }

// The library's proofs satisfy the reference equations; altered ones get the same answer.
func TestFromLibrary(t *testing.T) {
	pbt.Check(t, 560, 16000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		v := bpx.InRange(c, "v", n)
		outside := pbt.Chance(c, "outside", 12)
		if outside {
			v = pbt.IntSigned(c, "any", ref.N)
			outside = v.Sign() < 0 || v.BitLen() > n
		}
		tape := c.Tape(pbt.SeedOf(c, "seed"))
		if pbt.Chance(c, "odd", 25) {
			bpx.OddTape(c, tape, 5+2*n)
		}
		p, err := bp.Prove(v, bpx.Params(c, n))
		if err != nil {
			if outside {
				return
			}
			c.Fatalf("Prove(%v) for n=%d: %v", v, n, err)
		}
		var d proofDoc
		decode(c, encode(c, p), &d)
		rp := ref.Setup(n)
		c.Eval(fmt.Sprint("lib", n, v, d.V))
		c.Label(fmt.Sprintf("library to reference n=%d", n))
		if d.Params.N != int64(n) || !d.Params.H.ref().Eq(rp.H) || !d.Params.G.ref().Eq(ref.G) {
			c.Fatalf("n=%d: the proof states other parameters: N=%d G=%v H=%v", n, d.Params.N, d.Params.G, d.Params.H)
		}
		for i := 0; i < n; i++ {
			if len(d.Params.Gg) != n || len(d.Params.Hh) != n || !d.Params.Gg[i].ref().Eq(rp.Gg[i]) || !d.Params.Hh[i].ref().Eq(rp.Hh[i]) {
				c.Fatalf("n=%d: the proof states other generators at %d", n, i)
			}
		}
		pr := d.ref()
		a, b, ip := rp.Verify(pr)
		if !outside && !all(a, b, ip) {
			c.Fatalf("n=%d v=%v: the reference rejects the library's proof: t(x) %v, l and r %v, inner product %v", n, v, a, b, ip)
		}
		if outside && all(a, b, ip) {
			c.Fatalf("n=%d v=%v: the reference accepts the library's proof for a secret outside of the range", n, v)
		}
		c.Sample(map[string]any{"direction": "library to reference", "n": n, "secret": v.String(), "t": a, "lr": b, "ip": ip})
		// the same document, altered
		for i, k := 0, pbt.IntN(c, "alterations", 1, 2); i < k; i++ {
			q := bpx.Clone(p)
			how := alter(c, &q)
			if how == "" {
				continue
			}
			judge(c, fmt.Sprintf("n=%d v=%v, library's proof with %s", n, v, how), how, &q, n)
		}
	})
}

// alter changes one element to another group element or another canonical number.
func alter(c *pbt.C, q *bp.BulletProof) string {
	before := bpx.Slots(q)
	vals := make([]string, len(before))
	show := func(s bpx.Slot) string {
		if s.Pt != nil {
			p := bpx.Ref(*s.Pt)
			return fmt.Sprint(p.Inf, p.X, p.Y)
		}
		return (*s.Sc).String()
	}
	for i, s := range before {
		vals[i] = show(s)
	}
	i := pbt.Kind(c, "slot", len(before))
	s := before[i]
	how := s.Name
	if s.Pt != nil {
		n, h := bpx.NewPoint(c, *s.Pt, nil)
		if r := bpx.Ref(n); !r.Inf && !r.OnCurve() {
			return ""
		}
		*s.Pt, how = n, how+" "+h
	} else {
		n, h := bpx.NewScalar(c, *s.Sc, nil)
		*s.Sc, how = n.Mod(n, ref.N), how+" "+h
	}
	if show(s) == vals[i] {
		return ""
	}
	return how
}

// judge asks both implementations.
func judge(c *pbt.C, what, key string, q *bp.BulletProof, n int) {
	var d proofDoc
	decode(c, encode(c, q), &d)
	a, b, ip := ref.Setup(n).Verify(d.ref())
	want := all(a, b, ip)
	var ok bool
	if p, st := pbt.Guard(func() { ok, _ = q.Verify() }); p != nil {
		c.Fatalf("%s: panic %v\n%s", what, p, st)
	}
	c.Eval(what + fmt.Sprint(d.V, d.Taux))
	c.Label(fmt.Sprintf("altered: %v", want))
	if ok != want {
		c.Fatalf("%s: the library answers %v, the reference %v (t(x) %v, l and r %v, inner product %v)", what, ok, want, a, b, ip)
	}
}

// Proofs by the reference prover are accepted by the library, also after transport.
func TestFromReference(t *testing.T) {
	pbt.Check(t, 560, 16000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		v := bpx.InRange(c, "v", n)
		rp := ref.Setup(n)
		w := witness(c, n, v, scalar(c, "gamma"))
		pr := rp.Prove(w)
		if a, b, ip := rp.Verify(pr); !all(a, b, ip) {
			pbt.Broken("the reference rejects its own proof")
		}
		var p bp.BulletProof
		decode(c, encode(c, write(pr, rp)), &p)
		ok, err := p.Verify()
		c.Eval(fmt.Sprint("ref", n, v, pr.V))
		c.Label(fmt.Sprintf("reference to library n=%d", n))
		if !ok || err != nil {
			c.Fatalf("n=%d v=%v: the library rejects the proof of the reference implementation: %v %v", n, v, ok, err)
		}
		// through the library and back
		var d proofDoc
		decode(c, encode(c, p), &d)
		if a, b, ip := rp.Verify(d.ref()); !all(a, b, ip) {
			c.Fatalf("n=%d v=%v: the proof of the reference does not survive its way through the library", n, v)
		}
		if pbt.Chance(c, "dishonest", 40) {
			// a prover that deviates: both verifiers agree
			x, how := w, ""
			switch pbt.Kind(c, "deviation", 7) {
			case 0:
				x.V, how = new(big.Int).Add(v, big.NewInt(1)), "other secret in the commitment"
			case 1:
				x.AL, how = flip(c, w.AL, big.NewInt(2)), "bits that are not bits"
			case 2:
				x.AR, how = flip(c, w.AR, big.NewInt(1)), "bits that do not fit"
			case 3:
				x.V, how = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(n))), "negative secret"
			case 4: // carry between digits: the weighted sum is right, the digits are not bits
				if n > 1 {
					x.AL = append([]*big.Int{}, w.AL...)
					x.AL[0] = new(big.Int).Add(w.AL[0], big.NewInt(2))
					x.AL[1] = new(big.Int).Sub(w.AL[1], big.NewInt(1))
					x.AR = append([]*big.Int{}, w.AR...)
					x.AR[0], x.AR[1] = ref.Sub(x.AL[0], big.NewInt(1)), ref.Sub(x.AL[1], big.NewInt(1))
					how = "digits with a carry"
				} else {
					return
				}
			case 5: // an honest prover with other randomness
				x.Alpha, how = scalar(c, "alpha2"), "honest"
			case 6:
				x.V = new(big.Int).Add(v, ref.N)
				how = "secret plus the order"
			}
			q := rp.Prove(x)
			lib := bpx.LibProof(q, rp)
			judge(c, fmt.Sprintf("n=%d v=%v, reference prover, %s", n, v, how), how, &lib, n)
			c.Label("reference prover: " + how)
		}
		q := bpx.Clone(p)
		if how := alter(c, &q); how != "" {
			judge(c, fmt.Sprintf("n=%d v=%v, reference's proof with %s", n, v, how), how, &q, n)
		}
	})
}

func flip(c *pbt.C, xs []*big.Int, d *big.Int) []*big.Int {
	r := append([]*big.Int{}, xs...)
	i := pbt.Kind(c, "at", len(r))
	r[i] = ref.Add(r[i], d)
	return r
}

// ---- generic proofs

var top = new(big.Int).Lsh(big.NewInt(1), 32)

// verifyGeneric is the reference verifier.
func verifyGeneric(d genericDoc) bool {
	rp := ref.Setup(32)
	for _, h := range []proofDoc{d.P1, d.P2} {
		if a, b, ip := rp.Verify(h.ref()); !all(a, b, ip) {
			return false
		}
	}
	off := new(big.Int).Sub(big.NewInt(d.A), big.NewInt(d.B))
	off.Add(off, top)
	return ref.G.Mul(off).Add(d.P2.V.ref()).Eq(d.P1.V.ref())
}

func bounds(c *pbt.C) (int64, int64, *big.Int) {
	a := pbt.Pick(c, "a", 0, 18, int64(pbt.IntN(c, "a.v", -1<<20, 1<<20)), -1<<40, 1<<50)
	w := pbt.Pick(c, "w", int64(1), 2, int64(pbt.IntN(c, "w.v", 2, 1<<24)), 1<<32, 1<<31+3)
	x := new(big.Int)
	switch pbt.Kind(c, "x", 4) {
	case 0:
	case 1:
		x.SetInt64(w - 1)
	default:
		x = pbt.Uniform(c, "x.v", big.NewInt(w))
	}
	return a, a + w, x.Add(x, big.NewInt(a))
}

func TestGenericFromLibrary(t *testing.T) {
	pbt.Check(t, 40, 1600, func(c *pbt.C) {
		a, b, x := bounds(c)
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		c.Tape(pbt.SeedOf(c, "seed"))
		p, err := bp.ProveGeneric(x, params)
		if err != nil {
			c.Fatalf("ProveGeneric(%v) for [%d,%d): %v", x, a, b, err)
		}
		var d genericDoc
		decode(c, encode(c, p), &d)
		c.Eval(fmt.Sprint("generic lib", a, b, x, d.P1.V))
		c.Label("generic, library to reference")
		if d.A != a || d.B != b {
			c.Fatalf("the proof for [%d,%d) states [%d,%d)", a, b, d.A, d.B)
		}
		if !verifyGeneric(d) {
			c.Fatalf("the reference rejects the library's proof for %v in [%d,%d)", x, a, b)
		}
		// halves carry the secrets the interval demands: the same gamma opens both
		q := bp.ProofBPRP{A: p.A, B: p.B, P1: bpx.Clone(p.P1), P2: bpx.Clone(p.P2)}
		how := alter(c, pbt.Pick(c, "half", &q.P1, &q.P2))
		switch pbt.Kind(c, "bounds", 4) {
		case 0:
			q.A, how = q.A+int64(pbt.IntN(c, "da", 1, 5)), how+" and larger a"
		case 1:
			q.B, how = q.B+int64(pbt.IntN(c, "db", 1, 5)), how+" and larger b"
		}
		both(c, fmt.Sprintf("library's proof for %v in [%d,%d) with %s", x, a, b, how), &q)
	})
}

func both(c *pbt.C, what string, q *bp.ProofBPRP) {
	var d genericDoc
	decode(c, encode(c, q), &d)
	want := verifyGeneric(d)
	var ok bool
	if p, st := pbt.Guard(func() { ok, _ = q.Verify() }); p != nil {
		c.Fatalf("%s: panic %v\n%s", what, p, st)
	}
	c.Eval(what)
	c.Label(fmt.Sprintf("generic altered: %v", want))
	if ok != want {
		c.Fatalf("%s: the library answers %v, the reference %v", what, ok, want)
	}
}

func TestGenericFromReference(t *testing.T) {
	pbt.Check(t, 40, 1600, func(c *pbt.C) {
		a, b, x := bounds(c)
		rp := ref.Setup(32)
		gamma := scalar(c, "gamma")
		xb := new(big.Int).Sub(x, big.NewInt(b))
		xb.Add(xb, top)
		xa := new(big.Int).Sub(x, big.NewInt(a))
		if xb.Sign() < 0 || xb.Cmp(top) >= 0 || xa.Sign() < 0 || xa.Cmp(top) >= 0 {
			return
		}
		g2, how := gamma, "same blinding"
		if pbt.Chance(c, "other blinding", 25) {
			g2, how = new(big.Int).Mod(new(big.Int).Add(gamma, big.NewInt(1)), ref.N), "different blinding"
		}
		one := rp.Prove(witness(c, 32, xb, gamma))
		two := rp.Prove(witness(c, 32, xa, g2))
		d := genericDoc{a, b, write(one, rp), write(two, rp)}
		var p bp.ProofBPRP
		decode(c, encode(c, d), &p)
		c.Label("generic, reference to library, " + how)
		both(c, fmt.Sprintf("reference's proof for %v in [%d,%d), %s", x, a, b, how), &p)
		if g2 == gamma {
			if ok, err := p.Verify(); !ok || err != nil {
				c.Fatalf("the library rejects the reference's proof for %v in [%d,%d): %v %v", x, a, b, ok, err)
			}
		}
	})
}
