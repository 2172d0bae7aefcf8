package c26

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	bc "github.com/ing-bank/zkrp/util/byteconversion"

	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one integer or byte string converted and compared with two's complement arithmetic; non-trivial = distinct input other than zero and the empty string")
}

// model is the shortest two's complement form: the number of bytes k is the least with
// -2^(8k-1) <= x < 2^(8k-1).
func model(x *big.Int) []byte {
	k := 1
	for {
		h := new(big.Int).Lsh(big.NewInt(1), uint(8*k-1))
		if x.Cmp(h) < 0 && x.Cmp(new(big.Int).Neg(h)) >= 0 {
			break
		}
		k++
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*k))
	return new(big.Int).Mod(x, m).FillBytes(make([]byte, k))
}

func TestInteger(t *testing.T) {
	pbt.Check(t, 300000, 2400000, func(c *pbt.C) {
		x := pbt.IntSigned(c, "x", ref.N)
		if pbt.Chance(c, "edge", 40) { // around powers of two of whole bytes
			top := 80
			if pbt.Chance(c, "longer", 3) {
				top = 3000
			}
			e := uint(8*pbt.IntN(c, "bytes", 0, top)) + uint(pbt.IntN(c, "off", 0, 1))*7
			x = new(big.Int).Lsh(big.NewInt(1), e)
			x.Add(x, big.NewInt(int64(pbt.IntN(c, "d", -300, 300))))
			if pbt.Chance(c, "neg", 60) {
				x.Neg(x)
			}
			c.Label("around a power of two")
		}
		arg := new(big.Int).Set(x)
		got := bc.ToByteArray(arg)
		if want := model(x); !bytes.Equal(got, want) {
			c.Fatalf("ToByteArray(%v) = %x, expected %x", x, got, want)
		}
		if arg.Cmp(x) != 0 {
			c.Fatalf("ToByteArray changed %v to %v", x, arg)
		}
		in := bytes.Clone(got)
		back, err := bc.FromByteArray(in)
		if err != nil || back.Cmp(x) != 0 {
			c.Fatalf("%v converts to %x and back to %v (%v)", x, got, back, err)
		}
		if !bytes.Equal(in, got) {
			c.Fatalf("FromByteArray changed %x to %x", got, in)
		}
		// The bytes belong to the caller.
		for i := range got {
			got[i] ^= 0xa5
		}
		if arg.Cmp(x) != 0 {
			c.Fatalf("the bytes of %v share storage with the integer", x)
		}
		if x.Sign() != 0 {
			c.Eval(x.String())
		}
		c.Label(fmt.Sprintf("sign %d", x.Sign()))
		c.Sample(map[string]any{"integer": pbt.Clip(x.String(), 60), "bytes": pbt.Clip(fmt.Sprintf("%x", in), 60)})
	})
}

func TestBytes(t *testing.T) {
	pbt.Check(t, 300000, 2400000, func(c *pbt.C) {
		var b []byte
		switch pbt.Kind(c, "kind", 6) {
		case 0:
			b = pbt.BytesN(c, "b", pbt.IntN(c, "n", 0, 3))
		case 1:
			b = pbt.BytesN(c, "b", pbt.IntN(c, "n", 1, 70))
		case 2: // redundant leading bytes
			b = append(bytes.Repeat([]byte{pbt.Pick(c, "fill", byte(0), 255)}, pbt.IntN(c, "n", 1, 5)), pbt.BytesN(c, "b", pbt.IntN(c, "m", 0, 34))...)
		case 3: // constant
			b = bytes.Repeat([]byte{pbt.Pick(c, "fill", byte(0), 255, 128, 127)}, pbt.IntN(c, "n", 1, 40))
		case 4: // one bit
			b = make([]byte, pbt.IntN(c, "n", 1, 40))
			i := pbt.Kind(c, "bit", len(b)*8)
			b[i/8] = 1 << (i % 8)
		case 5: // long
			b = pbt.BytesN(c, "b", pbt.IntN(c, "n", 100, 1000))
			if pbt.Chance(c, "longer", 5) {
				b = bytes.Repeat(b, pbt.IntN(c, "times", 2, 12))
			}
		}
		in := bytes.Clone(b)
		var got *big.Int
		var err error
		if p, st := pbt.Guard(func() { got, err = bc.FromByteArray(in) }); p != nil {
			c.Fatalf("FromByteArray(%x) panics: %v\n%s", b, p, st)
		}
		if !bytes.Equal(in, b) {
			c.Fatalf("FromByteArray changed %x to %x", b, in)
		}
		if len(b) == 0 {
			if err == nil {
				c.Fatalf("FromByteArray accepts the empty string")
			}
			if _, err := bc.FromByteArray(nil); err == nil {
				c.Fatalf("FromByteArray accepts nil")
			}
			c.Eval("")
			c.Label("empty")
			return
		}
		if want := ref.Signed(b); err != nil || got.Cmp(want) != 0 {
			c.Fatalf("FromByteArray(%x) = %v (%v), expected %v", b, got, err, want)
		}
		for i := range in {
			in[i] ^= 0xff
		}
		if got.Cmp(ref.Signed(b)) != 0 {
			c.Fatalf("FromByteArray(%x) shares storage with its input", b)
		}
		f := bc.FlipBytes(b)
		for i := range b {
			if f[i] != ^b[i] {
				c.Fatalf("FlipBytes(%x) = %x", b, f)
			}
		}
		if len(f) != len(b) || len(f) > 0 && &f[0] == &b[0] {
			c.Fatalf("FlipBytes(%x) = %x, or shares storage", b, f)
		}
		c.Label(fmt.Sprintf("top bit %d", b[0]>>7))
		c.Eval(string(b))
		c.Sample(map[string]any{"bytes": pbt.Clip(fmt.Sprintf("%x", b), 60), "integer": pbt.Clip(got.String(), 60)})
	})
}
