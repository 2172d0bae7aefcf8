package c14

import (
	"fmt"
	"math/big"
	"testing"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

// Signing keys that cannot sign some element, or that are otherwise special: setup fails,
// or the parameters are as good as any.
func TestKeys(t *testing.T) {
	pbt.Check(t, 60, 1500, func(c *pbt.C) {
		s := set(c)
		key := big.NewInt(int64(pbt.IntN(c, "key", 0, 4)))
		collides := false
		if len(s) > 0 && pbt.Chance(c, "near an element", 70) {
			e := s[pbt.Kind(c, "which", len(s))]
			key.Add(key, big.NewInt(-2))
			if pbt.Chance(c, "exactly", 60) {
				key.SetInt64(0)
			}
			key = bnx.Mod(key.Sub(key, big.NewInt(e)))
		}
		for _, e := range s {
			if bnx.Zero(new(big.Int).Add(key, big.NewInt(e))) {
				collides = true
			}
		}
		seed := pbt.SeedOf(c, "setup")
		tape := c.Tape(seed)
		tape.Over = map[int][]byte{0: key.FillBytes(make([]byte, 32))}
		what := fmt.Sprintf("set %v, key %v", s, key)
		var p *ccx.Scheme
		var err error
		if pan, st := pbt.Guard(func() { p, err = ccx.NewSet(append([]int64{}, s...)) }); pan != nil {
			c.Fatalf("%s: SetupSet panics: %v\n%s", what, pan, st)
		}
		c.Label(fmt.Sprintf("collides %v, fails %v", collides, err != nil))
		c.Eval(what + fmt.Sprint(seed))
		c.Sample(map[string]any{"set": s, "key": key.String()})
		if err != nil {
			if !collides && key.Sign() != 0 {
				c.Fatalf("%s: SetupSet fails: %v", what, err)
			}
			return
		}
		for i := 0; i < len(s) && i < 3; i++ {
			x := s[(i+pbt.Kind(c, "first", len(s)))%len(s)]
			c.Tape(pbt.SeedOf(c, "tape"))
			var o ccx.Obj
			if pan, st := pbt.Guard(func() { o, err = p.Prove(big.NewInt(x), randomness(c)) }); pan != nil {
				c.Fatalf("%s: ProveSet(%d) panics: %v\n%s", what, x, pan, st)
			}
			if err != nil {
				c.Fatalf("%s: ProveSet(%d): %v", what, x, err)
			}
			if key.Sign() == 0 { // a verifier may refuse the identity as public key
				continue
			}
			if ok, err := p.Verify(o); !ok || err != nil {
				c.Fatalf("%s: proof of %d rejected: %v, %v", what, x, ok, err)
			}
		}
	})
}
