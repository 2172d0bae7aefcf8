package pbt

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// rapid's integer generators prefer small values, also when they choose from a
// list. Its booleans are fair, so the choices below are made of them.
var fairGens = map[int]*rapid.Generator[uint64]{}

func fair(c *C, label string, k int) uint64 {
	g := fairGens[k]
	if g == nil {
		g = rapid.Custom(func(t *rapid.T) uint64 {
			var r uint64
			for i := 0; i < k; i++ {
				r <<= 1
				if fairBool.Draw(t, "") {
					r |= 1
				}
			}
			return r
		})
		fairGens[k] = g
	}
	return g.Draw(c.T, label)
}

var fairBool = rapid.Bool()

// Kind draws from 0..n-1, evenly.
func Kind(c *C, label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := 6
	for m := n; m > 0; m >>= 1 {
		k++
	}
	return int(fair(c, label, k) % uint64(n))
}

// Pick draws one of the values.
func Pick[V any](c *C, label string, vs ...V) V { return vs[Kind(c, label, len(vs))] }

// IntN draws from [lo, hi], evenly.
func IntN(c *C, label string, lo, hi int) int { return lo + Kind(c, label, hi-lo+1) }

// Int64N draws from [lo, hi], preferring small numbers and the ends.
func Int64N(c *C, label string, lo, hi int64) int64 {
	return rapid.Int64Range(lo, hi).Draw(c.T, label)
}

// Chance is true about p times out of 100.
func Chance(c *C, label string, p int) bool { return Kind(c, label, 100) >= 100-p }

// SeedOf draws a number that selects a pseudo-random object.
func SeedOf(c *C, label string) uint64 { return fair(c, label, 40) }

// BytesN draws n uniform bytes.
func BytesN(c *C, label string, n int) []byte {
	return Expand(SeedOf(c, label), n)
}

// Expand stretches a seed to n bytes.
func Expand(seed uint64, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("expand %d %d", seed, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// Uniform draws uniformly from [0, m).
func Uniform(c *C, label string, m *big.Int) *big.Int {
	b := BytesN(c, label, (m.BitLen()+7)/8+8)
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, m)
}

// Int draws any integer; boundaries around 0, powers of two and multiples of m
// are frequent, as are uniform and over-long values.
func Int(c *C, label string, m *big.Int) *big.Int {
	switch Kind(c, label+".kind", 8) {
	case 0:
		return big.NewInt(int64(IntN(c, label, -20, 20)))
	case 1:
		return big.NewInt(rapid.Int64().Draw(c.T, label))
	case 2: // around a multiple of m
		q := big.NewInt(int64(IntN(c, label+".q", -3, 3)))
		d := big.NewInt(int64(IntN(c, label+".d", -4, 4)))
		return d.Add(d, q.Mul(q, m))
	case 3: // around a power of two
		e := uint(IntN(c, label+".e", 0, 320))
		x := new(big.Int).Lsh(big.NewInt(1), e)
		x.Add(x, big.NewInt(int64(IntN(c, label+".d", -2, 2))))
		if rapid.Bool().Draw(c.T, label+".neg") {
			x.Neg(x)
		}
		return x
	case 4: // long
		top := 70
		if Chance(c, label+".longer", 10) {
			top = 400
		}
		x := new(big.Int).SetBytes(BytesN(c, label, IntN(c, label+".len", 0, top)))
		if rapid.Bool().Draw(c.T, label+".neg") {
			x.Neg(x)
		}
		return x
	case 5: // sparse bits
		x := new(big.Int)
		for _, b := range rapid.SliceOfN(rapid.IntRange(0, 255), 1, 5).Draw(c.T, label+".bits") {
			x.SetBit(x, b, 1)
		}
		return x
	default:
		return Uniform(c, label, m)
	}
}

// IntOrNeg draws like Int; half of the values are negated.
func IntSigned(c *C, label string, m *big.Int) *big.Int {
	x := Int(c, label, m)
	if rapid.Bool().Draw(c.T, label+".flip") {
		x = new(big.Int).Neg(x)
	}
	return x
}

// Word draws a short text.
func Word(c *C, label string) string {
	return rapid.StringN(0, 40, 120).Draw(c.T, label)
}

// Join writes values for keys.
func Join(parts ...string) string { return strings.Join(parts, "|") }
