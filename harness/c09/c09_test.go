package c09

import (
	"fmt"
	"math"
	"math/bits"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one call of Setup with an integer; non-trivial = distinct integer")
}

func supported(b int64) bool {
	switch b {
	case 2, 4, 16, 256, 65536, 1 << 32:
		return true
	}
	return false
}

func end(c *pbt.C) int64 {
	switch pbt.Kind(c, "kind", 7) {
	case 0:
		return pbt.Pick(c, "b", int64(2), 4, 16, 256, 65536, 1<<32)
	case 1: // powers of two and their neighbours, of both signs
		b := int64(1)<<uint(pbt.IntN(c, "e", 0, 63)) + int64(pbt.IntN(c, "d", -2, 2))
		if pbt.Chance(c, "neg", 40) {
			b = -b
		}
		return b
	case 2:
		return int64(pbt.IntN(c, "b", -40, 300))
	case 3: // two bits
		return int64(1)<<uint(pbt.IntN(c, "e", 0, 63)) | int64(1)<<uint(pbt.IntN(c, "f", 0, 63))
	case 4:
		return pbt.Pick(c, "b", int64(math.MinInt64), math.MaxInt64, 0, 1, -1, math.MinInt64+1, -2, -4, -16, -256, -65536, -(1 << 32))
	case 5: // congruent to a supported end modulo a power of two
		return pbt.Pick(c, "b", int64(2), 4, 16, 256, 65536, 1<<32) + int64(pbt.IntN(c, "k", -5, 5))<<uint(pbt.IntN(c, "e", 1, 62))
	}
	return pbt.Int64N(c, "b", math.MinInt64, math.MaxInt64)
}

func TestEnds(t *testing.T) {
	pbt.Check(t, 6000, 200000, func(c *pbt.C) { setup(c, end(c)) })
}

func setup(c *pbt.C, b int64) {
	var p bp.BulletProofSetupParams
	var err error
	if pan, st := pbt.Guard(func() { p, err = bp.Setup(b) }); pan != nil {
		c.Fatalf("Setup(%d) panics: %v\n%s", b, pan, st)
	}
	c.Eval(fmt.Sprint(b))
	c.Label(fmt.Sprintf("supported=%v", supported(b)))
	c.Sample(map[string]any{"b": b, "error": fmt.Sprint(err)})
	if (err == nil) != supported(b) {
		c.Fatalf("Setup(%d): error %v", b, err)
	}
	if err != nil {
		return
	}
	n := bits.TrailingZeros64(uint64(b))
	if p.N != int64(n) || len(p.Gg) != n || len(p.Hh) != n {
		c.Fatalf("Setup(%d): size %d with %d and %d generators", b, p.N, len(p.Gg), len(p.Hh))
	}
	for i := 0; i < n; i++ {
		if p.Gg[i] == nil || p.Hh[i] == nil || bpx.Ref(p.Gg[i]).Inf || bpx.Ref(p.Hh[i]).Inf {
			c.Fatalf("Setup(%d): generator %d is missing", b, i)
		}
	}
	q, err := bp.Setup(b)
	if err != nil {
		c.Fatalf("the second Setup(%d) fails: %v", b, err)
	}
	if x, y := bpx.JSON(c, p), bpx.JSON(c, q); x != y {
		c.Fatalf("two setups for %d differ:\n%s\n%s", b, x, y)
	}
}

// All small integers and all powers of two with their neighbours, without gaps.
func TestAllNearPowers(t *testing.T) {
	pbt.Check(t, 64, 64, func(c *pbt.C) {
		// the slice is generated, so that every shard takes other ones
		e := uint(pbt.IntN(c, "e", 0, 63))
		for d := int64(-3); d <= 3; d++ {
			setup(c, int64(1)<<e+d)
			setup(c, -(int64(1)<<e)+d)
		}
		lo := int64(pbt.IntN(c, "lo", -9, 9)) * 40
		for b := lo; b < lo+40; b++ {
			setup(c, b)
		}
	})
}

// Setups do not influence each other, and use of the parameters changes none of them.
func TestHistory(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		first := map[int64]string{}
		for i, k := 0, pbt.IntN(c, "steps", 3, 8); i < k; i++ {
			b := pbt.Pick(c, "b", int64(2), 4, 16, 256, 3, 8, 65536)
			p, err := bp.Setup(b)
			c.Eval(fmt.Sprint(b, i, len(first)))
			c.Label("history")
			if (err == nil) != supported(b) {
				c.Fatalf("Setup(%d): error %v", b, err)
			}
			if err != nil {
				continue
			}
			s := bpx.JSON(c, p)
			if first[b] == "" {
				first[b] = s
			} else if first[b] != s {
				c.Fatalf("Setup(%d) differs from an earlier one:\n%s\n%s", b, first[b], s)
			}
			if b <= 256 && pbt.Chance(c, "use", 50) {
				q, err := bp.Prove(bpx.InRange(c, "v", int(p.N)), p)
				if err != nil {
					c.Fatalf("Prove: %v", err)
				}
				q.Verify()
				if bpx.JSON(c, p) != s {
					c.Fatalf("the parameters for %d were changed by a proof", b)
				}
			}
			if pbt.Chance(c, "overwrite", 30) {
				// the caller owns the parameters: writing to them must not reach others
				for _, g := range p.Gg {
					g.X, g.Y = ref.G.X, ref.G.Y
				}
				p.H.X = ref.G.X
			}
		}
	})
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		a, b := pbt.Int64N(c, "a", math.MinInt64, math.MaxInt64), pbt.Int64N(c, "b", math.MinInt64, math.MaxInt64)
		if pan, st := pbt.Guard(func() {
			p, err := bp.SetupGeneric(a, b)
			if err == nil && (p == nil || p.A != a || p.B != b || p.BP1.N != 32 || p.BP2.N != 32 || len(p.BP1.Gg) != 32 || len(p.BP2.Hh) != 32) {
				c.Fatalf("SetupGeneric(%d,%d) returns no suitable parameters", a, b)
			}
		}); pan != nil {
			c.Fatalf("SetupGeneric(%d,%d) panics: %v\n%s", a, b, pan, st)
		}
		c.Eval(fmt.Sprint(a, b))
		c.Label("generic")
	})
}
