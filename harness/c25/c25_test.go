package c25

import (
	"fmt"
	"strings"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one string hashed to the curve twice and compared with an independent try-and-increment; non-trivial = distinct string")
}

func text(c *pbt.C, label string) string {
	switch pbt.Kind(c, label+".kind", 8) {
	case 0:
		return ref.SeedH + pbt.Pick(c, label+".v", "", "g", "h") + string(rune(pbt.IntN(c, label+".i", 0, 70)))
	case 1:
		return fmt.Sprint(pbt.IntN(c, label, 0, 3000)) + pbt.Pick(c, label+".t", "", "a", "-", " ")
	case 2:
		return strings.Repeat(pbt.Pick(c, label+".r", "a", "\x00", "é", "\xff"), pbt.IntN(c, label+".n", 0, 300))
	case 3:
		return string(pbt.BytesN(c, label, pbt.IntN(c, label+".n", 0, 200)))
	case 5:
		if pbt.Chance(c, label+".longer", 10) {
			return strings.Repeat(pbt.Word(c, label)+"x", pbt.IntN(c, label+".n", 100, 3000))
		}
	case 4:
		return ref.SeedU + pbt.Word(c, label)
	}
	return pbt.Word(c, label)
}

func hash(c *pbt.C, s string) *p256.P256 {
	var p *p256.P256
	var err error
	if pan, st := pbt.Guard(func() { p, err = p256.MapToGroup(s) }); pan != nil {
		c.Fatalf("MapToGroup(%q) panics: %v\n%s", s, pan, st)
	}
	if err != nil || p == nil {
		c.Fatalf("MapToGroup(%q): %v, %v", s, p, err)
	}
	return p
}

func TestHash(t *testing.T) {
	pbt.Check(t, 36000, 400000, func(c *pbt.C) {
		s := text(c, "s")
		p := hash(c, s)
		r := bpx.Ref(p)
		if r.Inf || !r.OnCurve() {
			c.Fatalf("MapToGroup(%q) = %v is not a point of the curve", s, r)
		}
		want, tries := ref.HashToPoint(s)
		if !r.Eq(want) {
			c.Fatalf("MapToGroup(%q) = %v, the construction gives %v (candidate %d)", s, r, want, tries)
		}
		// The result belongs to the caller.
		p.ScalarMult(p, ref.Num(2))
		p.X.SetInt64(5)
		if !bpx.Ref(hash(c, s)).Eq(want) {
			c.Fatalf("MapToGroup(%q) gives another point the second time", s)
		}
		o := text(c, "o")
		digit := func(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }
		if o != s && !digit(s) && !digit(o) && bpx.Ref(hash(c, o)).Eq(want) {
			c.Fatalf("%q and %q give the same point", s, o)
		}
		switch {
		case tries >= 4:
			c.Label("candidate 4 or later")
		default:
			c.Label(fmt.Sprintf("candidate %d", tries))
		}
		c.Eval(s)
		c.Sample(map[string]any{"string": pbt.Clip(fmt.Sprintf("%q", s), 80), "candidate": tries})
	})
}
