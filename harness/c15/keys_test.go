package c15

import (
	"fmt"
	"math/big"
	"testing"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

// Signing keys that cannot sign some digit: setup fails, or the parameters are as good
// as any.
func TestKeys(t *testing.T) {
	pbt.Check(t, 48, 1200, func(c *pbt.C) {
		u, l := int64(pbt.IntN(c, "u", 2, 8)), int64(pbt.IntN(c, "l", 1, 2))
		d := int64(pbt.IntN(c, "digit", 0, int(u)))
		collides := d < u
		key := bnx.Mod(big.NewInt(-d))
		seed := pbt.SeedOf(c, "setup")
		tape := c.Tape(seed)
		tape.Over = map[int][]byte{0: key.FillBytes(make([]byte, 32))}
		what := fmt.Sprintf("u=%d l=%d, key %v", u, l, key)
		var p *ccx.Scheme
		var err error
		if pan, st := pbt.Guard(func() { p, err = ccx.NewUL(u, l) }); pan != nil {
			c.Fatalf("%s: SetupUL panics: %v\n%s", what, pan, st)
		}
		c.Label(fmt.Sprintf("collides %v, fails %v", collides, err != nil))
		c.Eval(what + fmt.Sprint(seed))
		c.Sample(map[string]any{"base": u, "digits": l, "key": key.String()})
		if err != nil {
			if !collides {
				c.Fatalf("%s: SetupUL fails: %v", what, err)
			}
			return
		}
		x := inside(c, u, l)
		if collides && pbt.Chance(c, "that digit", 70) {
			x = big.NewInt(d)
		}
		c.Tape(pbt.SeedOf(c, "tape"))
		var o ccx.Obj
		if pan, st := pbt.Guard(func() { o, err = p.Prove(x, pbt.Uniform(c, "r", bnx.Order)) }); pan != nil {
			c.Fatalf("%s: ProveUL(%v) panics: %v\n%s", what, x, pan, st)
		}
		if err != nil {
			c.Fatalf("%s: ProveUL(%v): %v", what, x, err)
		}
		if ok, err := p.Verify(o); !ok || err != nil {
			c.Fatalf("%s: proof of %v rejected: %v, %v", what, x, ok, err)
		}
	})
}
