package c06

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one generic range proof assembled from halves made by the library (for equal or different secrets, intervals and blinding factors) and given to the verifier; non-trivial = distinct assembly that is not a proof as the library made it")
}

var top = new(big.Int).Lsh(big.NewInt(1), 32)

// related says whether the commitments of the halves differ by the offset that the
// stated interval demands, computed with the reference curve.
func related(p *bp.ProofBPRP) bool {
	d := new(big.Int).Sub(big.NewInt(p.A), big.NewInt(p.B))
	d.Add(d, top)
	return ref.G.Mul(d).Add(bpx.Ref(p.P2.V)).Eq(bpx.Ref(p.P1.V))
}

func accepts(p *bp.ProofBPRP) (ok bool) {
	pbt.Guard(func() { ok, _ = p.Verify() })
	return
}

// origin is a generic proof with what went into it.
type origin struct {
	p    bp.ProofBPRP
	a, b int64
	x    *big.Int
}

func (o origin) String() string { return fmt.Sprintf("%v in [%d,%d)", o.x, o.a, o.b) }

func make1(c *pbt.C, a, b int64, x *big.Int, gamma []byte) origin {
	t := c.Tape(pbt.SeedOf(c, "tape"))
	if gamma != nil {
		t.Over = map[int][]byte{0: gamma}
	}
	params, err := bp.SetupGeneric(a, b)
	if err != nil {
		c.Fatalf("SetupGeneric(%d,%d): %v", a, b, err)
	}
	p, err := bp.ProveGeneric(new(big.Int).Set(x), params)
	if err != nil {
		c.Fatalf("ProveGeneric(%v) for [%d,%d): %v", x, a, b, err)
	}
	return origin{p, a, b, x}
}

func within(c *pbt.C, label string, a, b int64) *big.Int {
	w := new(big.Int).Sub(big.NewInt(b), big.NewInt(a))
	var d *big.Int
	switch pbt.Kind(c, label+".kind", 3) {
	case 0:
		d = big.NewInt(int64(pbt.IntN(c, label, 0, 2)))
	case 1:
		d = new(big.Int).Sub(w, big.NewInt(int64(pbt.IntN(c, label, 1, 2))))
	default:
		d = pbt.Uniform(c, label, w)
	}
	d.Mod(d, w)
	return d.Add(d, big.NewInt(a))
}

func interval(c *pbt.C) (int64, int64) {
	a := pbt.Pick(c, "a", int64(0), int64(18), int64(pbt.IntN(c, "a.v", -100000, 100000)), -1<<33, 1<<40)
	w := pbt.Pick(c, "w", int64(2), int64(pbt.IntN(c, "w.v", 2, 1<<20)), 1<<32, 1<<31, 1<<32-1)
	return a, a + w
}

// Two proofs by the library are taken apart and put together in all ways.
func TestRecombine(t *testing.T) {
	pbt.Check(t, 88, 3000, func(c *pbt.C) {
		a, b := interval(c)
		x := within(c, "x", a, b)
		a2, b2, x2 := a, b, x
		what := pbt.Pick(c, "different", "secret", "interval", "both", "blinding", "all")
		if what == "secret" || what == "both" || what == "all" {
			x2 = within(c, "x2", a, b)
		}
		if what == "interval" || what == "both" || what == "all" {
			if pbt.Chance(c, "shift", 50) {
				d := int64(pbt.IntN(c, "shift.by", 1, 1000))
				a2, b2 = a+d, b+d
			} else if pbt.Chance(c, "one end", 50) {
				a2 = a - int64(pbt.IntN(c, "by", 1, 1000))
			} else {
				a2, b2 = interval(c)
			}
			if x2.Cmp(big.NewInt(a2)) < 0 || x2.Cmp(big.NewInt(b2)) >= 0 {
				x2 = within(c, "x2", a2, b2)
			}
		}
		var gamma []byte
		if what == "secret" || what == "interval" || what == "both" {
			gamma = pbt.Uniform(c, "gamma", ref.N).FillBytes(make([]byte, 32))
		}
		c.Label("different " + what)
		p, q := make1(c, a, b, x, gamma), make1(c, a2, b2, x2, gamma)
		for _, o := range []origin{p, q} {
			if o.b-o.a <= 1<<32 && !related(&o.p) {
				c.Label("honest commitments unrelated") // subject of C03
			}
		}
		type mix struct {
			name   string
			p1, p2 bp.BulletProof
			a, b   int64
		}
		mixes := []mix{
			{"P1 P2'", p.p.P1, q.p.P2, p.a, p.b}, {"P1' P2", q.p.P1, p.p.P2, p.a, p.b},
			{"P1 P2', other interval", p.p.P1, q.p.P2, q.a, q.b}, {"P1 P2', a b'", p.p.P1, q.p.P2, p.a, q.b},
			{"P1 P2', a' b", p.p.P1, q.p.P2, q.a, p.b}, {"other interval", p.p.P1, p.p.P2, q.a, q.b},
			{"exchanged", p.p.P2, p.p.P1, p.a, p.b}, {"P1 twice", p.p.P1, p.p.P1, p.a, p.b}, {"P2 twice", p.p.P2, p.p.P2, p.a, p.b},
			{"P2 P1'", p.p.P2, q.p.P1, p.a, p.b}, {"bounds exchanged", p.p.P1, p.p.P2, p.b, p.a},
			{"b+1", p.p.P1, p.p.P2, p.a, p.b + 1}, {"a-1", p.p.P1, p.p.P2, p.a - 1, p.b}, {"b+2^32", p.p.P1, p.p.P2, p.a, p.b + 1<<32},
			{"a-2^32", p.p.P1, p.p.P2, p.a - 1<<32, p.b}, {"b+2^63", p.p.P1, p.p.P2, p.a, p.b + -1<<63}, {"a+2^63", p.p.P1, p.p.P2, p.a + -1<<63, p.b},
		}
		for i, n := 0, pbt.IntN(c, "n", 4, 7); i < n; i++ {
			m := mixes[pbt.Kind(c, "mix", len(mixes))]
			r := bp.ProofBPRP{A: m.a, B: m.b, P1: bpx.Clone(m.p1), P2: bpx.Clone(m.p2)}
			ok := related(&r)
			c.Label(fmt.Sprintf("%s related=%v", m.name, ok))
			if !ok && pbt.Chance(c, "fitted", 50) {
				// the commitment of one half is replaced by the one that fits the other:
				// then that half is no proof for its commitment
				d := new(big.Int).Sub(big.NewInt(r.A), big.NewInt(r.B))
				d.Add(d, top)
				which := "second"
				if pbt.Chance(c, "which", 50) {
					which = "first"
					r.P1.V = bpx.Lib(ref.G.Mul(d).Add(bpx.Ref(r.P2.V)))
				} else {
					r.P2.V = bpx.Lib(ref.G.Mul(d.Neg(d)).Add(bpx.Ref(r.P1.V)))
				}
				c.Label("fitted commitment")
				c.Eval(fmt.Sprint(p, q, m.name, gamma, which))
				if accepts(&r) {
					c.Fatalf("accepted with the commitment of the %s half replaced: %s of %v and %v (same blinding: %v), stated interval [%d,%d)", which, m.name, p, q, gamma != nil, m.a, m.b)
				}
				continue
			}
			if ok {
				continue // a true statement about one secret; its acceptance is not demanded
			}
			c.Eval(fmt.Sprint(p, q, m.name, gamma))
			c.Sample(map[string]any{"first": p.String(), "second": q.String(), "assembly": m.name, "same blinding": gamma != nil})
			if accepts(&r) {
				c.Fatalf("accepted although the halves do not fit: %s of %v and %v (same blinding: %v), stated interval [%d,%d)", m.name, p, q, gamma != nil, m.a, m.b)
			}
		}
	})
}

// Halves made by single range proofs with chosen values and blinding factors.
func TestHalves(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		n1, n2 := 32, 32
		if pbt.Chance(c, "small halves", 25) {
			n1 = pbt.Pick(c, "n1", 1, 2, 4, 8, 16, 32)
			n2 = pbt.Pick(c, "n2", 1, 2, 4, 8, 16, 32)
		}
		v1, v2 := bpx.InRange(c, "v1", n1), bpx.InRange(c, "v2", n2)
		gamma := pbt.Uniform(c, "gamma", ref.N).FillBytes(make([]byte, 32))
		neg := new(big.Int).SetBytes(gamma)
		neg.Sub(ref.N, neg).Mod(neg, ref.N)
		opposite := pbt.Chance(c, "opposite blinding", 20)
		prove := func(v *big.Int, n int, same bool) bp.BulletProof {
			t := c.Tape(pbt.SeedOf(c, "tape"))
			if same {
				t.Over = map[int][]byte{0: gamma}
			} else if opposite {
				t.Over = map[int][]byte{0: neg.FillBytes(make([]byte, 32))}
			}
			p, err := bp.Prove(v, bpx.Params(c, n))
			if err != nil {
				c.Fatalf("Prove(%v): %v", v, err)
			}
			return p
		}
		same := !opposite && pbt.Chance(c, "same", 75)
		r := bp.ProofBPRP{P1: prove(v1, n1, true), P2: prove(v2, n2, same)}
		// A - B = v1 - v2 - 2^32 makes the commitments fit, exactly or modulo 2^64 or 2^32.
		d := new(big.Int).Sub(v1, v2)
		d.Sub(d, top)
		if opposite { // the commitments fit up to the sign
			d.Neg(v1)
			d.Sub(d, v2).Sub(d, top)
		}
		for i := 0; i < 3; i++ {
			how := ""
			lo := int64(pbt.IntN(c, "lo", -1000, 1000))
			switch pbt.Kind(c, "how", 6) {
			case 0:
				how = "exact"
				r.A, r.B = lo, lo-d.Int64()
			case 1: // the difference of the bounds overflows
				how = "modulo 2^64"
				r.B = -1<<63 + int64(pbt.IntN(c, "b", 0, 1000))
				r.A = r.B + d.Int64()
			case 2:
				how = "off by one"
				r.A, r.B = lo, lo-d.Int64()+pbt.Pick(c, "d", int64(1), -1)
			case 3:
				how = "modulo 2^32"
				r.A, r.B = lo, lo-d.Int64()+pbt.Pick(c, "d", int64(1)<<32, -1<<32)
			case 4:
				how = "wrong sign"
				r.A, r.B = lo, lo+d.Int64()
			case 5:
				how = "any"
				r.A, r.B = lo, lo+int64(pbt.IntN(c, "w", 1, 1<<30))
			}
			ok := related(&r)
			c.Label(fmt.Sprintf("halves %s related=%v same=%v full=%v", how, ok, same, n1 == 32 && n2 == 32))
			c.Eval(fmt.Sprint(n1, n2, v1, v2, same, how, r.A, r.B))
			c.Sample(map[string]any{"bits": fmt.Sprint(n1, ",", n2), "values": fmt.Sprint(v1, ",", v2), "same blinding": same, "bounds": how, "interval": fmt.Sprintf("[%d,%d)", r.A, r.B)})
			if !accepts(&r) {
				continue
			}
			if !ok {
				c.Fatalf("halves for %v and %v (%d and %d bits, same blinding: %v) accepted for [%d,%d)", v1, v2, n1, n2, same, r.A, r.B)
			}
			// The secret of the second half is v2 + A.
			x := new(big.Int).Add(v2, big.NewInt(r.A))
			if x.Cmp(big.NewInt(r.A)) < 0 || x.Cmp(big.NewInt(r.B)) >= 0 {
				c.Fatalf("accepted for %v, which is not in [%d,%d)", x, r.A, r.B)
			}
			c.Label("accepted")
		}
	})
}
