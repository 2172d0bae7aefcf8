package c11

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one proof compared with the proof of the same secret made with randomness that differs in one bit (or in one whole read, or everywhere); non-trivial = distinct (size, secret, tape, change)")
}

type snapshot map[string]string

func value(s bpx.Slot) string {
	if s.Pt != nil {
		p := bpx.Ref(*s.Pt)
		return fmt.Sprint(p.Inf, p.X, p.Y)
	}
	return new(big.Int).Mod(*s.Sc, ref.N).String()
}

func shot(p *bp.BulletProof, prefix string, into snapshot) snapshot {
	for _, s := range bpx.Slots(p) {
		into[prefix+s.Name] = value(s)
	}
	return into
}

// diff lists the elements whose values differ.
func diff(a, b snapshot) map[string]bool {
	d := map[string]bool{}
	for k := range a {
		if a[k] != b[k] {
			d[k] = true
		}
	}
	return d
}

func prove(c *pbt.C, v *big.Int, params bp.BulletProofSetupParams, t *pbt.Tape) *bp.BulletProof {
	c.Use(t)
	p, err := bp.Prove(new(big.Int).Set(v), params)
	if err != nil {
		c.Fatalf("Prove(%v): %v", v, err)
	}
	return &p
}

// Every element differs between two proofs of one secret.
func TestFresh(t *testing.T) {
	pbt.Check(t, 320, 8000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		s1, s2 := pbt.SeedOf(c, "first"), pbt.SeedOf(c, "second")
		if s1 == s2 {
			return
		}
		// the randomness alone decides: other proofs in between do not matter
		t1 := pbt.NewTape(s1)
		p := shot(prove(c, v, params, t1), "", snapshot{})
		for i, k := 0, pbt.Kind(c, "between", 2); i < k; i++ {
			prove(c, bpx.InRange(c, "w", n), params, pbt.NewTape(7))
		}
		q := shot(prove(c, v, params, pbt.NewTape(s2)), "", snapshot{})
		c.Eval(fmt.Sprint(n, v, s1, s2))
		c.Label(fmt.Sprintf("fresh n=%d", n))
		for k := range p {
			if p[k] == q[k] {
				c.Fatalf("n=%d v=%v: two proofs share %s = %s", n, v, k, p[k])
			}
		}
		// no two elements of one proof coincide either
		seen := map[string]string{}
		for k, x := range p {
			if seen[x] != "" {
				c.Fatalf("n=%d v=%v: %s and %s of one proof are equal", n, v, k, seen[x])
			}
			seen[x] = k
		}
		r := shot(prove(c, v, params, pbt.NewTape(s1)), "", snapshot{})
		if d := diff(p, r); len(d) > 0 {
			c.Fatalf("n=%d v=%v: the proof is not determined by the secret and the randomness: %v", n, v, d)
		}
	})
}

// The influence of every single read on every element: flipping bits shows which
// elements depend on which randomness.
func TestInfluence(t *testing.T) {
	pbt.Check(t, 64, 1500, func(c *pbt.C) {
		influence(c, pbt.Pick(c, "n", 1, 2, 4, 1, 2, 4, 8), 3)
	})
}

// The same for long vectors, with one change per read.
func TestInfluenceLarge(t *testing.T) {
	pbt.Check(t, 16, 300, func(c *pbt.C) {
		influence(c, pbt.Pick(c, "n", 16, 32, 16), 1)
	})
}

func influence(c *pbt.C, n, flips int) {
	{
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		base := pbt.NewTape(seed)
		p := shot(prove(c, v, params, base), "", snapshot{})
		infl := map[string]map[int]bool{}
		for k := range p {
			infl[k] = map[int]bool{}
		}
		for i := 0; i < base.Reads; i++ {
			bits := 8 * len(base.Bytes[i])
			for _, b := range []int{pbt.Kind(c, "bit", bits), 0, bits - 1}[:flips] {
				t := pbt.NewTape(seed)
				t.Flip = map[int]int{i: b}
				d := diff(p, shot(prove(c, v, params, t), "", snapshot{}))
				c.Eval(fmt.Sprint(n, v, seed, i, b))
				if t.Reads != base.Reads {
					// the flipped number was rejected: probability below 2^-100 for a
					// draw from the whole group
					c.Fatalf("n=%d v=%v: after a change of read %d, bit %d, %d numbers are drawn instead of %d: not uniform over the group order", n, v, i, b, t.Reads, base.Reads)
				}
				if len(d) == 0 {
					c.Fatalf("n=%d v=%v: the proof does not depend on bit %d of read %d", n, v, b, i)
				}
				for k := range d {
					infl[k][i] = true
				}
			}
		}
		c.Label(fmt.Sprintf("influence n=%d", n))
		c.Sample(map[string]any{"n": n, "secret": v.String(), "reads": base.Reads})
		width := func(set map[int]bool) int {
			w := 0
			for i := range set {
				w += len(base.Bytes[i])
			}
			return w
		}
		only := func(a string, others ...string) map[int]bool {
			r := map[int]bool{}
			for i := range infl[a] {
				r[i] = true
				for _, o := range others {
					if infl[o][i] {
						delete(r, i)
					}
				}
			}
			return r
		}
		need := func(what string, set map[int]bool, scalars int) {
			if width(set) < 32*scalars {
				c.Fatalf("n=%d v=%v: %s depends on %d bytes of fresh randomness, needs %d (reads %v)", n, v, what, width(set), 32*scalars, set)
			}
		}
		// each of the first messages has blinding of its own ...
		need("V", only("V", "A", "S"), 1)
		need("A", only("A", "V", "S"), 1)
		need("S", only("S", "V", "A"), 2*n+1)
		// ... the messages of the second round have randomness that is not in the first
		need("T1", only("T1", "V", "A", "S", "T2"), 1)
		need("T2", only("T2", "V", "A", "S", "T1"), 1)
		// the responses depend on all blinding factors they hide
		need("Taux", only("Taux", "A", "S"), 3)
		need("Mu", only("Mu", "V"), 2)
	}
}

// Numbers as large as the group allows are used as they are.
func TestWholeRange(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4)
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		base := pbt.NewTape(seed)
		p := shot(prove(c, v, params, base), "", snapshot{})
		i := pbt.Kind(c, "read", base.Reads)
		if len(base.Bytes[i]) != 32 {
			c.Undecided("random numbers are not read as 32 bytes")
			return
		}
		x := new(big.Int).Sub(ref.N, big.NewInt(int64(pbt.IntN(c, "below", 1, 3))))
		if pbt.Chance(c, "upper half", 50) {
			x.Sub(x, pbt.Uniform(c, "x", new(big.Int).Rsh(ref.N, 1)))
		}
		t := pbt.NewTape(seed)
		t.Over = map[int][]byte{i: x.FillBytes(make([]byte, 32))}
		q := shot(prove(c, v, params, t), "", snapshot{})
		c.Eval(fmt.Sprint(n, v, seed, i, x))
		c.Label("large random number")
		if t.Reads != base.Reads {
			c.Fatalf("n=%d v=%v: the random number %v is not used: not uniform over the group order", n, v, x)
		}
		if len(diff(p, q)) == 0 {
			c.Fatalf("n=%d v=%v: read %d does not matter", n, v, i)
		}
	})
}

// secrets fails if the proof shows a secret number.
func secrets(c *pbt.C, what string, doc string, proofs []*bp.BulletProof, secret *big.Int, tape *pbt.Tape) {
	nums := map[string]string{}
	add := func(name string, x *big.Int) {
		nums[new(big.Int).Mod(x, ref.N).String()] = name
		nums[x.String()] = name
		nums[new(big.Int).Mod(new(big.Int).Neg(x), ref.N).String()] = name
	}
	for i, b := range tape.Bytes {
		if len(b) >= 8 {
			add(fmt.Sprintf("random number %d", i), new(big.Int).SetBytes(b))
		}
	}
	if secret.BitLen() >= 12 {
		add("the secret", secret)
	}
	// numbers of the document
	for _, w := range strings.FieldsFunc(doc, func(r rune) bool { return r != '-' && (r < '0' || r > '9') }) {
		if name, bad := nums[w]; bad {
			c.Fatalf("%s contains %s", what, name)
		}
		if nums[strings.TrimPrefix(w, "-")] != "" {
			c.Fatalf("%s contains %s", what, nums[strings.TrimPrefix(w, "-")])
		}
	}
	// points without blinding
	p := ref.Setup(1)
	pts := map[string]string{}
	point := func(name string, q ref.Pt) {
		if !q.Inf {
			pts[q.X.String()] = name
		}
	}
	for i, b := range tape.Bytes {
		x := new(big.Int).SetBytes(b)
		point(fmt.Sprintf("random number %d times H", i), p.H.Mul(x))
		point(fmt.Sprintf("random number %d times G", i), ref.G.Mul(x))
	}
	if secret.Sign() != 0 {
		point("the secret times G", ref.G.Mul(secret))
	}
	for _, q := range proofs {
		for _, s := range bpx.Slots(q) {
			if s.Pt == nil && ((*s.Sc).Sign() < 0 || (*s.Sc).Cmp(ref.N) >= 0) {
				c.Fatalf("%s: %s = %v is not reduced modulo the group order and shows the size of what it hides", what, s.Name, *s.Sc)
			}
			if s.Pt == nil {
				continue
			}
			r := bpx.Ref(*s.Pt)
			if !r.Inf && pts[r.X.String()] != "" {
				name := pts[r.X.String()]
				if secret.Sign() == 0 && s.Name == "V" && strings.HasSuffix(name, "H") {
					continue // the commitment to zero is blinding alone
				}
				c.Fatalf("%s: %s is %s", what, s.Name, name)
			}
		}
	}
}

func TestNoSecrets(t *testing.T) {
	pbt.Check(t, 200, 5000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 16, 8, 4, 2, 1, 16, 32)
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		tape := pbt.NewTape(seed)
		p := prove(c, v, params, tape)
		c.Eval(fmt.Sprint(n, v, seed))
		c.Label(fmt.Sprintf("no secrets n=%d", n))
		secrets(c, fmt.Sprintf("the proof for %v (n=%d)", v, n), bpx.JSON(c, p), []*bp.BulletProof{p}, v, tape)
	})
}

// Generic proofs: the halves share the blinding factor of the secret and nothing else.
func TestGeneric(t *testing.T) {
	pbt.Check(t, 56, 1500, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -100000, 100000))
		b := a + int64(pbt.IntN(c, "w", 5000, 1<<20))
		x := big.NewInt(a + int64(pbt.IntN(c, "x", 0, int(b-a-1))))
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		seed := pbt.SeedOf(c, "seed")
		gen := func(t *pbt.Tape) (*bp.ProofBPRP, snapshot) {
			c.Use(t)
			p, err := bp.ProveGeneric(x, params)
			if err != nil {
				c.Fatalf("ProveGeneric: %v", err)
			}
			return &p, shot(&p.P2, "P2.", shot(&p.P1, "P1.", snapshot{}))
		}
		base := pbt.NewTape(seed)
		p, s := gen(base)
		c.Label("generic")
		c.Eval(fmt.Sprint(a, b, x, seed))
		seen := map[string]string{}
		for k, v := range s {
			if seen[v] != "" && !(b-a == 1<<32) {
				c.Fatalf("%v in [%d,%d): %s and %s are equal", x, a, b, k, seen[v])
			}
			seen[v] = k
		}
		secrets(c, "the generic proof", bpx.JSON(c, p), []*bp.BulletProof{&p.P1, &p.P2}, x, base)
		for j := 0; j < 4; j++ {
			i := pbt.Kind(c, "read", base.Reads)
			if j == 0 {
				i = 0
			}
			t := pbt.NewTape(seed)
			t.Flip = map[int]int{i: pbt.Kind(c, "bit", 8*len(base.Bytes[i]))}
			_, q := gen(t)
			d := diff(s, q)
			c.Eval(fmt.Sprint(a, b, x, seed, i, t.Flip[i]))
			if len(d) == 0 {
				c.Fatalf("%v in [%d,%d): read %d does not matter", x, a, b, i)
			}
			// a random number that blinds the bits of one half blinds nothing of the other
			if d["P1.A"] && d["P2.A"] || d["P1.S"] && d["P2.S"] {
				c.Fatalf("%v in [%d,%d): read %d is used for both halves", x, a, b, i)
			}
			if d["P1.V"] != d["P2.V"] {
				c.Fatalf("%v in [%d,%d): read %d blinds the secret in one half only", x, a, b, i)
			}
		}
		_, q := gen(pbt.NewTape(seed ^ 1))
		for k := range s {
			if s[k] == q[k] {
				c.Fatalf("%v in [%d,%d): two proofs share %s", x, a, b, k)
			}
		}
	})
}

// A source that returns fewer bytes than it was asked for, as io.Reader allows, is
// read until every random number has its full width.
func TestShortReads(t *testing.T) {
	pbt.Check(t, 96, 2000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8)
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		chunk := pbt.IntN(c, "chunk", 1, 31)
		base, short := pbt.NewTape(seed), pbt.NewTape(seed)
		short.Chunk = chunk
		prove(c, v, params, base)
		p := prove(c, v, params, short)
		c.Eval(fmt.Sprint("short", n, v, seed, chunk))
		c.Label("source returns few bytes at a time")
		if short.Width() < base.Width() {
			c.Fatalf("n=%d v=%v: from a source that returns %d bytes at a time %d bytes are read instead of %d", n, v, chunk, short.Width(), base.Width())
		}
		if ok, err := p.Verify(); !ok || err != nil {
			c.Fatalf("n=%d v=%v: the proof made from a source that returns %d bytes at a time is rejected: %v", n, v, chunk, err)
		}
	})
}
