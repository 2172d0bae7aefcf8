package c23

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	cf "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one element encoded, decoded and printed in two representations, or one byte string decoded; non-trivial = distinct (group, exponents, representations) or distinct byte string")
}

type group[E any] struct {
	name    string
	fresh   func() E
	marshal func(E) []byte
	decode  func(e E, b []byte) (E, bool)
	text    func(E) string
	ident   func(E) bool
	enc     func(*big.Int) []byte
	make    func(*pbt.C, string, *big.Int) (E, string)
	base    func(*big.Int) E
}

var g1 = group[*bn256.G1]{"G1", func() *bn256.G1 { return new(bn256.G1) }, (*bn256.G1).Marshal, (*bn256.G1).Unmarshal, (*bn256.G1).String,
	(*bn256.G1).IsZero, bnx.Enc1, bnx.Make1, func(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }}
var g2 = group[*bn256.G2]{"G2", func() *bn256.G2 { return new(bn256.G2) }, (*bn256.G2).Marshal, (*bn256.G2).Unmarshal, (*bn256.G2).String,
	(*bn256.G2).IsZero, bnx.Enc2, bnx.Make2, func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }}
var gt = group[*bn256.GT]{"GT", func() *bn256.GT { return new(bn256.GT) }, (*bn256.GT).Marshal, (*bn256.GT).Unmarshal, (*bn256.GT).String,
	(*bn256.GT).IsOne, bnx.EncT, bnx.MakeT, nil}

func trip[E comparable](c *pbt.C, g group[E]) {
	k := bnx.Exponent(c, "k")
	a, ha := g.make(c, "a", k)
	b, hb := g.make(c, "b", k)
	what := fmt.Sprintf("%s: %v (%s / %s)", g.name, k, ha, hb)
	// The order of encoding and printing varies.
	var ea, eb []byte
	var sa, sb string
	if pbt.Chance(c, "print first", 50) {
		sa = g.text(a)
		ea = g.marshal(a)
		sb = g.text(b)
		eb = g.marshal(b)
	} else {
		eb = g.marshal(b)
		sb = g.text(b)
		ea = g.marshal(a)
		sa = g.text(a)
	}
	if !bytes.Equal(ea, eb) {
		c.Fatalf("%s: equal elements have different encodings\n%x\n%x", what, ea, eb)
	}
	if sa != sb {
		c.Fatalf("%s: equal elements have different texts\n%s\n%s", what, sa, sb)
	}
	if !bytes.Equal(ea, g.enc(k)) {
		c.Fatalf("%s: the encoding differs from the reference", what)
	}
	if !bytes.Equal(g.marshal(a), ea) || g.text(a) != sa {
		c.Fatalf("%s: encoding or printing twice gives different results", what)
	}
	// The caller owns the bytes.
	own := g.marshal(a)
	for i := range own {
		own[i] ^= 0xff
	}
	if !bytes.Equal(g.marshal(a), ea) {
		c.Fatalf("%s: the encoding shares storage with the element", what)
	}
	in := bytes.Clone(ea)
	// Decoding into a new variable or over any other element.
	into := g.fresh()
	if pbt.Chance(c, "over", 50) {
		into, _ = g.make(c, "into", bnx.Exponent(c, "into"))
	}
	d, ok := g.decode(into, in)
	if !ok {
		c.Fatalf("%s: its own encoding is rejected", what)
	}
	if !bytes.Equal(in, ea) {
		c.Fatalf("%s: decoding changed its input", what)
	}
	for i := range in {
		in[i] ^= 0xff
	}
	if !bytes.Equal(g.marshal(d), ea) || g.text(d) != sa || g.ident(d) != bnx.Zero(k) {
		c.Fatalf("%s: the decoded element differs", what)
	}
	if g.ident(a) != bnx.Zero(k) {
		c.Fatalf("%s: the identity test is wrong", what)
	}
	// A different element.
	j := bnx.Exponent(c, "j")
	if pbt.Chance(c, "close", 30) {
		j = new(big.Int).Neg(k)
	}
	if bnx.Mod(j).Cmp(bnx.Mod(k)) != 0 {
		o, ho := g.make(c, "o", j)
		if bytes.Equal(g.marshal(o), ea) || g.text(o) == sa {
			c.Fatalf("%s and %v (%s): different elements have the same encoding or text", what, j, ho)
		}
		c.Label("different element")
	}
	c.Label(g.name + " " + ha)
	c.Eval(fmt.Sprint(g.name, k, ha, hb))
	c.Sample(map[string]any{"group": g.name, "k": k.String(), "representations": ha + " / " + hb, "encoding": pbt.Clip(fmt.Sprintf("%x", ea), 80)})
}

func TestTripG1(t *testing.T) { pbt.Check(t, 1600, 30000, func(c *pbt.C) { trip(c, g1) }) }
func TestTripG2(t *testing.T) { pbt.Check(t, 800, 16000, func(c *pbt.C) { trip(c, g2) }) }
func TestTripGT(t *testing.T) { pbt.Check(t, 480, 9000, func(c *pbt.C) { trip(c, gt) }) }

// Wrong lengths.
func length[E comparable](c *pbt.C, g group[E], size int) {
	var b []byte
	if g.base != nil && pbt.Chance(c, "element", 50) {
		b = g.marshal(g.base(bnx.Exponent(c, "k")))
	} else {
		b = pbt.BytesN(c, "b", size)
	}
	n := pbt.Pick(c, "n", 0, 1, 31, 32, 63, 64, 65, 96, 127, 128, 129, 160, 383, 384, 385, 400, size-1, size+1, size/2, 2*size, pbt.IntN(c, "any", 0, 500))
	if n == size {
		n++
	}
	var in []byte
	if n <= len(b) {
		in = b[:n]
	} else {
		in = append(bytes.Clone(b), make([]byte, n-len(b))...)
	}
	if n == 0 && pbt.Chance(c, "nil", 50) {
		in = nil
	}
	p, st := pbt.Guard(func() {
		if _, ok := g.decode(g.fresh(), in); ok {
			c.Fatalf("%s: %d bytes are accepted", g.name, n)
		}
	})
	if p != nil {
		c.Fatalf("%s: decoding %d bytes panics: %v\n%s", g.name, n, p, st)
	}
	c.Eval(fmt.Sprint(g.name, n, in))
}

func TestLength(t *testing.T) {
	pbt.Check(t, 2400, 40000, func(c *pbt.C) {
		switch pbt.Kind(c, "g", 3) {
		case 0:
			length(c, g1, 64)
		case 1:
			length(c, g2, 128)
		case 2:
			length(c, gt, 384)
		}
	})
}

func inField(b []byte) bool {
	for i := 0; i < len(b); i += 32 {
		if new(big.Int).SetBytes(b[i:i+32]).Cmp(bnx.P) >= 0 {
			return false
		}
	}
	return true
}

func field(c *pbt.C, label string) *big.Int {
	switch pbt.Kind(c, label+".kind", 5) {
	case 0:
		return big.NewInt(int64(pbt.IntN(c, label, 0, 5)))
	case 1:
		return new(big.Int).Sub(bnx.P, big.NewInt(int64(pbt.IntN(c, label, 1, 5))))
	}
	return pbt.Uniform(c, label, bnx.P)
}

// Coordinates near valid ones: only points of the curve are accepted.
func TestCoordinatesG1(t *testing.T) {
	pbt.Check(t, 4000, 80000, func(c *pbt.C) {
		b := bnx.Enc1(bnx.Exponent(c, "k"))
		switch pbt.Kind(c, "how", 8) {
		case 0:
			i := pbt.Kind(c, "bit", 512)
			b[i/8] ^= 1 << (i % 8)
		case 1:
			b = append(field(c, "x").FillBytes(make([]byte, 32)), field(c, "y").FillBytes(make([]byte, 32))...)
		case 2:
			b = append(b[32:64:64], b[:32]...)
		case 3: // ordinate of another point
			copy(b[32:], bnx.Enc1(bnx.Exponent(c, "j"))[32:])
		case 4: // x = 0, or y = 0
			copy(b[32*pbt.Kind(c, "which", 2):][:32], make([]byte, 32))
		case 5: // the other ordinate
			y := new(big.Int).SetBytes(b[32:])
			y.Sub(bnx.P, y).Mod(y, bnx.P).FillBytes(b[32:])
		case 6:
			field(c, "y").FillBytes(b[32:])
		case 7: // any point by its abscissa
			x := field(c, "x")
			f := new(big.Int).Exp(x, big.NewInt(3), bnx.P)
			f.Add(f, big.NewInt(3)).Mod(f, bnx.P)
			if y := new(big.Int).ModSqrt(f, bnx.P); y != nil {
				b = append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
			}
		}
		if !inField(b) {
			c.Label("not field elements (not judged)")
			return
		}
		zero := true
		for i, v := range b {
			if v != 0 && !(i == 63 && v == 1) {
				zero = false
			}
		}
		want := zero || bnx.OnCurve1(b)
		var ok bool
		var e *bn256.G1
		if p, st := pbt.Guard(func() { e, ok = new(bn256.G1).Unmarshal(b) }); p != nil {
			c.Fatalf("decoding %x panics: %v\n%s", b, p, st)
		}
		if ok != want {
			c.Fatalf("decoding %x: accepted %v, it is on the curve: %v", b, ok, want)
		}
		if ok && !zero && !bytes.Equal(e.Marshal(), b) {
			c.Fatalf("%x decodes and encodes to %x", b, e.Marshal())
		}
		if ok && zero && !e.IsZero() {
			c.Fatalf("the encoding of the identity does not decode to it")
		}
		c.Label(fmt.Sprintf("G1 accepted %v", ok))
		c.Eval(string(b))
	})
}

func TestCoordinatesG2(t *testing.T) {
	pbt.Check(t, 1600, 40000, func(c *pbt.C) {
		b := bnx.Enc2(bnx.Exponent(c, "k"))
		how := ""
		switch pbt.Kind(c, "how", 8) {
		case 0:
			i := pbt.Kind(c, "bit", 1024)
			b[i/8] ^= 1 << (i % 8)
			how = "bit"
		case 1:
			for i := 0; i < 4; i++ {
				field(c, "x").FillBytes(b[32*i : 32*i+32])
			}
			how = "random"
		case 2, 3: // on the curve, hardly ever in the group
			x := bnx.F2{Re: field(c, "re"), Im: field(c, "im")}
			for j := 0; ; j++ {
				if y, ok := bnx.TwistY(x); ok {
					b = bnx.Enc(x, y)
					break
				}
				x.Re = new(big.Int).Mod(new(big.Int).Add(x.Re, big.NewInt(1)), bnx.P)
			}
			how = "on the twist"
		case 4: // a group element plus a point of small order times something: swap parts
			b = append(b[64:128:128], b[:64]...)
			how = "swapped"
		case 5:
			x, y := bnx.Dec(b)
			y = bnx.F2{Re: new(big.Int).Mod(new(big.Int).Neg(y.Re), bnx.P), Im: new(big.Int).Mod(new(big.Int).Neg(y.Im), bnx.P)}
			b = bnx.Enc(x, y)
			how = "negated"
		case 6:
			x, y := bnx.Dec(b)
			x.Im, x.Re = x.Re, x.Im
			b = bnx.Enc(x, y)
			how = "parts exchanged"
		case 7:
			copy(b[64:], bnx.Enc2(bnx.Exponent(c, "j"))[64:])
			how = "other ordinate"
		}
		if !inField(b) {
			c.Label("not field elements (not judged)")
			return
		}
		x, y := bnx.Dec(b)
		zero := bytes.Equal(b, make([]byte, 128))
		want := zero
		if !zero && bnx.OnTwist(x, y) {
			_, err := new(cf.G2).Unmarshal(b) // checks the order
			want = err == nil
			if !want {
				c.Label("on the curve, outside of the group")
			}
		}
		var ok bool
		var e *bn256.G2
		if p, st := pbt.Guard(func() { e, ok = new(bn256.G2).Unmarshal(b) }); p != nil {
			c.Fatalf("decoding %x panics: %v\n%s", b, p, st)
		}
		if ok != want {
			c.Fatalf("decoding %x (%s): accepted %v, it is in the group: %v", b, how, ok, want)
		}
		if ok && !bytes.Equal(e.Marshal(), b) {
			c.Fatalf("%x decodes and encodes to %x", b, e.Marshal())
		}
		c.Label(fmt.Sprintf("G2 %s accepted %v", how, ok))
		c.Eval(string(b))
	})
}
