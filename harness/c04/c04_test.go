package c04

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one altered proof given to the verifier; the alteration always changes the value of an element (modulo the order for scalars); non-trivial = distinct (proof, alteration)")
}

func prove(c *pbt.C, n int, v *big.Int) bp.BulletProof {
	p, err := bp.Prove(v, bpx.Params(c, n))
	if err != nil {
		c.Fatalf("Prove(%v): %v", v, err)
	}
	return p
}

// rejected fails if the altered proof is accepted; panics belong to C07, a verifier
// that panics has not accepted.
func rejected(c *pbt.C, p *bp.BulletProof, what string) {
	var ok bool
	pbt.Guard(func() { ok, _ = p.Verify() })
	if ok {
		c.Fatalf("altered proof accepted: %s", what)
	}
}

func TestOneElement(t *testing.T) {
	pbt.Check(t, 640, 12000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		c.Tape(seed)
		p := prove(c, n, v)
		if ok, err := p.Verify(); !ok {
			c.Label(fmt.Sprintf("honest proof rejected: %v", err)) // subject of C01
			return
		}
		for i, k := 0, pbt.IntN(c, "mutants", 6, 14); i < k; i++ {
			q := bpx.Clone(p)
			// altering a proof in the variable in which it was verified before
			if pbt.Chance(c, "verified before", 25) {
				if ok, _ := q.Verify(); !ok {
					c.Label("copy rejected")
				}
			}
			var what string
			if pbt.Chance(c, "reshape", 20) {
				what = bpx.Reshape(c, &q)
			} else {
				what = bpx.Mutate(c, &q)
			}
			if what == "" {
				continue
			}
			c.Eval(fmt.Sprint(n, v, seed, what))
			c.Label(fmt.Sprintf("n=%d", n))
			c.Sample(map[string]any{"n": n, "secret": v.String(), "alteration": what})
			rejected(c, &q, fmt.Sprintf("n=%d v=%v: %s", n, v, what))
		}
	})
}

// Elements of two valid proofs are exchanged. A mixture that equals one of the two
// proofs in every element is not a case.
func TestExchange(t *testing.T) {
	pbt.Check(t, 420, 8000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8, 1, 2, 4)
		v := bpx.InRange(c, "v", n)
		w := v
		if pbt.Chance(c, "other secret", 60) {
			w = bpx.InRange(c, "w", n)
		}
		p, q := prove(c, n, v), prove(c, n, w)
		for i, k := 0, pbt.IntN(c, "mixtures", 4, 10); i < k; i++ {
			m := bpx.Clone(p)
			from := bpx.Slots(&q)
			to := bpx.Slots(&m)
			if len(from) != len(to) {
				c.Fatalf("proofs of one size have different shapes")
			}
			what := ""
			sparse := pbt.Chance(c, "sparse", 50)
			for j := range to {
				take := pbt.Chance(c, "take", 50)
				if sparse {
					take = pbt.Chance(c, "take", 12)
				}
				if take {
					to[j].Copy(from[j])
					what += " " + to[j].Name
				}
			}
			eqP, eqQ := true, true
			orig := bpx.Slots(&p)
			for j := range to {
				eqP = eqP && bpx.SameSlot(to[j], orig[j])
				eqQ = eqQ && bpx.SameSlot(to[j], from[j])
			}
			if eqP || eqQ {
				continue
			}
			c.Eval(fmt.Sprint(n, v, w, what))
			c.Label("exchange")
			c.Sample(map[string]any{"n": n, "secrets": v.String() + "," + w.String(), "taken": what})
			rejected(c, &m, fmt.Sprintf("n=%d v=%v w=%v taken:%s", n, v, w, what))
		}
	})
}

// The exchange of whole sub-structures.
func TestGraft(t *testing.T) {
	pbt.Check(t, 120, 2000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8)
		p, q := prove(c, n, bpx.InRange(c, "v", n)), prove(c, n, bpx.InRange(c, "w", n))
		for _, what := range []string{"inner product proof", "inner product proof and commitment", "inner product proof, commitment and value", "value commitment",
			"polynomial", "bits", "responses"} {
			m := bpx.Clone(p)
			switch what {
			case "inner product proof":
				m.InnerProductProof = bpx.Clone(q.InnerProductProof)
			case "inner product proof and commitment":
				m.InnerProductProof, m.Commit = bpx.Clone(q.InnerProductProof), bpx.Clone(q.Commit)
			case "inner product proof, commitment and value":
				m.InnerProductProof, m.Commit, m.Tprime = bpx.Clone(q.InnerProductProof), bpx.Clone(q.Commit), bpx.Clone(q.Tprime)
				m.Params = bpx.Clone(q.Params)
			case "value commitment":
				m.V = bpx.Clone(q.V)
			case "polynomial":
				m.T1, m.T2, m.Taux, m.Tprime = bpx.Clone(q.T1), bpx.Clone(q.T2), bpx.Clone(q.Taux), bpx.Clone(q.Tprime)
			case "bits":
				m.A, m.S, m.Mu = bpx.Clone(q.A), bpx.Clone(q.S), bpx.Clone(q.Mu)
			case "responses":
				m.Taux, m.Mu, m.Tprime = bpx.Clone(q.Taux), bpx.Clone(q.Mu), bpx.Clone(q.Tprime)
			}
			c.Eval(fmt.Sprint(n, bpx.Ref(p.A), bpx.Ref(q.A), what))
			c.Label("graft: " + what)
			rejected(c, &m, what)
		}
	})
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 80, 1600, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -1000, 1000))
		switch pbt.Kind(c, "a.kind", 6) {
		case 0:
			a = 0
		case 1:
			a = pbt.Int64N(c, "a", -1<<63, 1<<63-1<<33)
		}
		w := 2 + int64(pbt.IntN(c, "w", 0, 2000))
		switch pbt.Kind(c, "w.kind", 6) {
		case 0, 1:
			w = 1 << 32
		case 2:
			w = pbt.Int64N(c, "w", 1, 1<<32)
		case 3:
			if a < 0 && a >= -1<<32 {
				w = -a
			}
		}
		b := a + w
		x := big.NewInt(a + pbt.Int64N(c, "x", 0, w-1))
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric(%d,%d): %v", a, b, err)
		}
		p, err := bp.ProveGeneric(x, params)
		if err != nil {
			c.Fatalf("ProveGeneric(%v) for [%d,%d): %v", x, a, b, err)
		}
		for i := 0; i < 4; i++ {
			q := bpx.Clone(p)
			if pbt.Chance(c, "verified before", 25) {
				q.Verify()
			}
			what := ""
			switch pbt.Kind(c, "what", 8) {
			case 0, 6:
				what = "P1: " + bpx.Mutate(c, &q.P1)
			case 1, 7:
				what = "P2: " + bpx.Mutate(c, &q.P2)
			case 2:
				d := pbt.Pick(c, "d", int64(1), -1, 2, 1<<32, -1<<32, -1<<63, 1<<62)
				q.A += d
				what = fmt.Sprintf("A changed by %d", d)
			case 3:
				d := pbt.Pick(c, "d", int64(1), -1, 2, 1<<32, -1<<32, -1<<63, 1<<62)
				q.B += d
				what = fmt.Sprintf("B changed by %d", d)
			case 4:
				if b-a == 1<<32 {
					continue
				}
				q.P1, q.P2 = q.P2, q.P1
				what = "halves exchanged"
			case 5:
				q.A, q.B = q.B, q.A
				what = "bounds exchanged"
			}
			c.Eval(fmt.Sprint(a, b, x, what))
			c.Label("generic")
			if w == 1<<32 {
				c.Label("generic, widest interval")
			}
			c.Sample(map[string]any{"a": a, "b": b, "x": x.String(), "alteration": what})
			var ok bool
			pbt.Guard(func() { ok, _ = q.Verify() })
			if ok {
				c.Fatalf("altered generic proof for %v in [%d,%d) accepted: %s", x, a, b, what)
			}
		}
	})
}
