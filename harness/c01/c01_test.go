package c01

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one honest proof made and verified; non-trivial = distinct (size, secret, random tape, transport)")
}

func mustAccept(c *pbt.C, what string, p *bp.BulletProof) {
	ok, err := p.Verify()
	if !ok || err != nil {
		c.Fatalf("%s: honest proof rejected: ok=%v err=%v", what, ok, err)
	}
}

// One proof for any size and secret, with ordinary and with extreme random numbers,
// verified directly and after JSON transport.
func TestHonest(t *testing.T) {
	pbt.Check(t, 1600, 30000, func(c *pbt.C) {
		n := bpx.SmallSize(c, "n")
		v := bpx.InRange(c, "v", n)
		seed := pbt.SeedOf(c, "seed")
		tape := c.Tape(seed)
		if pbt.Chance(c, "odd", 40) {
			// gamma, alpha, 2n blinding scalars, rho, tau1, tau2
			bpx.OddTape(c, tape, 5+2*n)
			c.Label("extreme random numbers")
		}
		params := bpx.Params(c, n)
		arg := new(big.Int).Set(v)
		p, err := bp.Prove(arg, params)
		if err != nil {
			c.Fatalf("Prove(%v) for 2^%d failed: %v", v, n, err)
		}
		if arg.Cmp(v) != 0 {
			c.Fatalf("Prove changed the secret from %v to %v", v, arg)
		}
		how := pbt.Pick(c, "transport", "direct", "json", "json twice", "json after verify")
		q := p
		switch how {
		case "json":
			q = bpx.ViaJSON(c, p)
		case "json twice":
			q = bpx.ViaJSON(c, bpx.ViaJSON(c, p))
		case "json after verify":
			mustAccept(c, "before transport", &p)
			q = bpx.ViaJSON(c, p)
		}
		mustAccept(c, fmt.Sprintf("n=%d v=%v %s", n, v, how), &q)
		c.Label(fmt.Sprintf("n=%d", n))
		c.Label(how)
		c.Eval(fmt.Sprint(n, v, seed, tape.Over, how))
		c.Sample(map[string]any{"n": n, "secret": v.String(), "transport": how, "forced_random": len(tape.Over)})
	})
}

// Every secret of the small ranges.
func TestEverySmallSecret(t *testing.T) {
	pbt.Check(t, 60, 2000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4)
		params := bpx.Params(c, n)
		first := pbt.IntN(c, "first", 0, 1<<uint(n)-1)
		for i := 0; i < 1<<uint(n) && i < 4; i++ {
			v := int64((first + i) % (1 << uint(n)))
			p, err := bp.Prove(big.NewInt(v), params)
			if err != nil {
				c.Fatalf("Prove(%d) for 2^%d failed: %v", v, n, err)
			}
			mustAccept(c, fmt.Sprintf("n=%d v=%d", n, v), &p)
			c.Eval(fmt.Sprint(n, v))
		}
	})
}

// Histories: proofs of several sizes share parameters; proving, transporting and
// verifying are interleaved in any order.
func TestHistory(t *testing.T) {
	type made struct {
		p bp.BulletProof
		v *big.Int
	}
	pbt.Check(t, 120, 2500, func(c *pbt.C) {
		params := map[int]bp.BulletProofSetupParams{}
		var all []made
		steps := pbt.IntN(c, "steps", 3, 9)
		for s := 0; s < steps; s++ {
			op := pbt.IntN(c, "op", 0, 3)
			if len(all) == 0 {
				op = 0
			}
			switch op {
			case 0, 1:
				n := pbt.Pick(c, "n", 1, 2, 4, 8)
				if _, ok := params[n]; !ok {
					params[n] = bpx.Params(c, n)
				}
				v := bpx.InRange(c, "v", n)
				p, err := bp.Prove(v, params[n])
				if err != nil {
					c.Fatalf("Prove(%v) for 2^%d failed: %v", v, n, err)
				}
				all = append(all, made{p, v})
				c.Eval(fmt.Sprint("step", s, n, v))
			case 2:
				m := &all[pbt.IntN(c, "which", 0, len(all)-1)]
				m.p = bpx.ViaJSON(c, m.p)
			case 3:
				m := &all[pbt.IntN(c, "which", 0, len(all)-1)]
				mustAccept(c, fmt.Sprintf("in history: n=%d v=%v", m.p.Params.N, m.v), &m.p)
			}
		}
		for i := range all {
			mustAccept(c, fmt.Sprintf("at the end: n=%d v=%v", all[i].p.Params.N, all[i].v), &all[i].p)
		}
		c.Label(fmt.Sprintf("proofs in history=%d", len(all)))
	})
}
