package c19

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one key generation, signature or verification compared with the exponent model (a signature is e times the generator and is valid exactly if e(m+k) = 1 modulo the group order); non-trivial = distinct (key, message, signature) where the expected answer does not follow from a zero input alone")
}

// keyOf draws a private key.
func keyOf(c *pbt.C, label string) *big.Int {
	switch pbt.Kind(c, label+".kind", 6) {
	case 0:
		return big.NewInt(int64(pbt.IntN(c, label, 1, 40)))
	case 1:
		return new(big.Int).Sub(bnx.Order, big.NewInt(int64(pbt.IntN(c, label, 1, 40))))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(pbt.IntN(c, label, 1, 253)))
	}
	k := pbt.Uniform(c, label, bnx.Order)
	if k.Sign() == 0 {
		k.SetInt64(1)
	}
	return k
}

// message draws a message; some are the one without inverse.
func message(c *pbt.C, label string, k *big.Int) *big.Int {
	switch pbt.Kind(c, label+".kind", 8) {
	case 0: // m + k = 0 modulo the order, as is or shifted by a multiple
		m := new(big.Int).Neg(k)
		return m.Add(m, new(big.Int).Mul(bnx.Order, big.NewInt(int64(pbt.IntN(c, label+".q", -2, 3)))))
	case 1: // just beside
		m := new(big.Int).Neg(k)
		return m.Add(m, big.NewInt(pbt.Pick(c, label+".d", int64(1), -1, 2, -2)))
	case 2:
		return big.NewInt(int64(pbt.IntN(c, label, -300, 300)))
	case 3:
		return big.NewInt(pbt.Int64N(c, label, -1<<63, 1<<63-1))
	case 4: // long
		m := pbt.Uniform(c, label, bnx.Order)
		return m.Add(m, new(big.Int).Mul(bnx.Order, big.NewInt(int64(pbt.IntN(c, label+".q", -3, 9)))))
	}
	return pbt.IntSigned(c, label, bnx.Order)
}

func sum(a, b *big.Int) *big.Int { return bnx.Mod(new(big.Int).Add(a, b)) }

func check(c *pbt.C, what string, sig *bn256.G2, m *big.Int, pub *bn256.G1, want bool) {
	ok, err := bbsignatures.VerifVerify(sig, m, pub)
	if want && err != nil {
		c.Fatalf("%s: verification reports %v", what, err)
	}
	if ok != want {
		c.Fatalf("%s: verification answers %v, expected %v", what, ok, want)
	}
}

// Key generation: the public key belongs to the private one, the private one is all of
// the randomness.
func TestKeygen(t *testing.T) {
	pbt.Check(t, 600, 20000, func(c *pbt.C) {
		seed := pbt.SeedOf(c, "seed")
		tape := pbt.NewTape(seed)
		if pbt.Chance(c, "special", 40) {
			x := keyOf(c, "forced")
			if pbt.Chance(c, "zero", 10) {
				x = new(big.Int)
			}
			tape.Over = map[int][]byte{0: x.FillBytes(make([]byte, 32))}
		}
		if pbt.Chance(c, "failing", 15) {
			tape.FailAt, tape.Sticky, tape.Short = 0, true, pbt.Chance(c, "short", 50)
		}
		c.Use(tape)
		kp, err := bbsignatures.Keygen()
		if tape.FailAt >= 0 {
			c.Eval(fmt.Sprint("failing", seed))
			c.Label("keygen without randomness")
			if err == nil {
				c.Fatalf("Keygen succeeds without randomness: %v", kp.Privk)
			}
			return
		}
		if err != nil {
			// the only key that may be refused is zero
			if kp.Privk != nil && kp.Privk.Sign() == 0 {
				c.Label("key zero refused")
				return
			}
			c.Fatalf("Keygen: %v (private key %v)", err, kp.Privk)
		}
		if kp.Privk == nil || kp.Pubk == nil {
			c.Fatalf("Keygen reports no error but returns no key")
		}
		if kp.Privk.Sign() < 0 || kp.Privk.Cmp(bnx.Order) >= 0 {
			c.Fatalf("the private key %v is not in [0, order)", kp.Privk)
		}
		c.Eval(fmt.Sprint("keygen", kp.Privk))
		c.Label("keygen")
		if !bytes.Equal(kp.Pubk.Marshal(), bnx.Enc1(kp.Privk)) {
			c.Fatalf("the public key of %v is %x, expected %x", kp.Privk, kp.Pubk.Marshal(), bnx.Enc1(kp.Privk))
		}
		// other randomness, other key
		c.Use(pbt.NewTape(seed + 1))
		kq, err := bbsignatures.Keygen()
		if err != nil || kq.Privk.Cmp(kp.Privk) == 0 {
			c.Fatalf("Keygen with other randomness: %v, key %v", err, kq.Privk)
		}
	})
}

// Keys come from the whole range: the bits of many keys vary in all positions.
func TestKeySpread(t *testing.T) {
	pbt.Check(t, 24, 400, func(c *pbt.C) {
		c.Tape(pbt.SeedOf(c, "seed"))
		or, and, k := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 253), big.NewInt(1)), 60
		low := 0
		for i := 0; i < k; i++ {
			kp, err := bbsignatures.Keygen()
			if err != nil {
				c.Fatalf("Keygen: %v", err)
			}
			or.Or(or, kp.Privk)
			and.And(and, kp.Privk)
			if kp.Privk.Cmp(new(big.Int).Rsh(bnx.Order, 1)) < 0 {
				low++
			}
		}
		c.Eval(fmt.Sprint(or, and))
		// probability of a bit being constant: 2^-59; of all keys in one half: 2^-59
		for i := 0; i < 253; i++ {
			if or.Bit(i) == 0 || and.Bit(i) == 1 {
				c.Fatalf("bit %d is the same in %d private keys", i, k)
			}
		}
		if low == 0 || low == k {
			c.Fatalf("all of %d private keys are in the same half of the range", k)
		}
	})
}

// Signing and verifying with the same key and message.
func TestSign(t *testing.T) {
	pbt.Check(t, 700, 24000, func(c *pbt.C) {
		k := keyOf(c, "key")
		m := message(c, "m", k)
		pub, how := bnx.Make1(c, "pub", k)
		km, mm := new(big.Int).Set(k), new(big.Int).Set(m)
		sig, err := bbsignatures.Sign(m, k)
		if k.Cmp(km) != 0 || m.Cmp(mm) != 0 {
			c.Fatalf("Sign changed its arguments: key %v to %v, message %v to %v", km, k, mm, m)
		}
		s := sum(m, k)
		if s.Sign() == 0 {
			c.Eval(fmt.Sprint("none", k, m))
			c.Label("message without inverse")
			if err == nil {
				c.Fatalf("Sign(%v) with key %v succeeds although there is no signature", m, k)
			}
			if sig != nil {
				// whatever comes along with the error is no signature
				check(c, "value returned along with an error", sig, m, pub, false)
			}
			return
		}
		if err != nil || sig == nil {
			c.Fatalf("Sign(%v) with key %v: %v", m, k, err)
		}
		c.Eval(fmt.Sprint("sign", k, m, how))
		c.Label("signature")
		c.Sample(map[string]any{"key": k.String(), "message": m.String(), "public key": how})
		e := new(big.Int).ModInverse(s, bnx.Order)
		if !bytes.Equal(sig.Marshal(), bnx.Enc2(e)) {
			c.Fatalf("the signature of %v by %v is not 1/(m+k) times the generator", m, k)
		}
		check(c, fmt.Sprintf("own signature of %v by %v (public key: %s)", m, k, how), sig, m, pub, true)
		// any representative of the message
		shift := new(big.Int).Add(m, new(big.Int).Mul(bnx.Order, big.NewInt(int64(pbt.IntN(c, "q", -2, 2)))))
		check(c, fmt.Sprintf("signature of %v, verified for %v", m, shift), sig, shift, pub, true)
		if k.Cmp(km) != 0 || m.Cmp(mm) != 0 || !bytes.Equal(pub.Marshal(), bnx.Enc1(k)) || !bytes.Equal(sig.Marshal(), bnx.Enc2(e)) {
			c.Fatalf("verification changed its arguments")
		}
	})
}

// A signature with exponent e is valid exactly if e(m+k) = 1.
func TestExact(t *testing.T) {
	pbt.Check(t, 900, 40000, func(c *pbt.C) {
		k := keyOf(c, "key")
		m := message(c, "m", k)
		e := new(big.Int)
		how := ""
		s := sum(m, k)
		inv := new(big.Int).ModInverse(s, bnx.Order)
		if inv == nil {
			inv = new(big.Int)
		}
		switch pbt.Kind(c, "how", 13) {
		case 0:
			e, how = inv, "valid"
		case 1:
			e.Neg(inv)
			how = "negated"
		case 2:
			e.Add(inv, big.NewInt(1))
			how = "plus generator"
		case 3:
			how = "identity"
		case 4:
			e.SetInt64(1)
			how = "generator"
		case 5:
			e, how = pbt.Uniform(c, "e", bnx.Order), "random"
		case 6:
			e.Lsh(inv, 1)
			how = "doubled"
		case 7: // valid for another message
			t := sum(message(c, "other", k), k)
			if e.ModInverse(t, bnx.Order) == nil {
				e = new(big.Int)
			}
			how = "of another message"
		case 8: // valid for another key
			t := sum(m, keyOf(c, "otherkey"))
			if e.ModInverse(t, bnx.Order) == nil {
				e = new(big.Int)
			}
			how = "by another key"
		case 9: // valid for the negated message
			t := sum(new(big.Int).Neg(m), k)
			if e.ModInverse(t, bnx.Order) == nil {
				e = new(big.Int)
			}
			how = "of the negated message"
		case 10:
			e.ModInverse(k, bnx.Order)
			how = "of zero"
		case 11:
			e.Set(s)
			how = "not inverted"
		case 12: // inverse of k - m and of m - k
			t := sum(m, new(big.Int).Neg(k))
			if e.ModInverse(t, bnx.Order) == nil {
				e = new(big.Int)
			}
			how = "by the negated key"
		}
		e = bnx.Mod(e)
		pub, r1 := bnx.Make1(c, "pub", k)
		sig, r2 := bnx.Make2(c, "sig", e)
		if pbt.Chance(c, "via Sign", 20) && how == "of another message" {
			// whatever Sign makes of it
			other := message(c, "third", k)
			if x, err := bbsignatures.Sign(other, k); err == nil {
				sig = x
				e.ModInverse(sum(other, k), bnx.Order)
			}
		}
		want := new(big.Int).Mod(new(big.Int).Mul(e, s), bnx.Order).Cmp(big.NewInt(1)) == 0
		key := ""
		if e.Sign() != 0 {
			key = fmt.Sprint(k, m, e)
		}
		c.Eval(key)
		c.Label(fmt.Sprintf("%s: %v", how, want))
		check(c, fmt.Sprintf("key %v (%s), message %v, signature %v (%s, %s)", k, r1, m, e, how, r2), sig, m, pub, want)
	})
}

// A degenerate public key makes nothing valid that the equation does not.
func TestDegenerateKey(t *testing.T) {
	pbt.Check(t, 80, 2000, func(c *pbt.C) {
		pub, how := bnx.Make1(c, "pub", new(big.Int))
		m := pbt.IntSigned(c, "m", bnx.Order)
		e := new(big.Int).ModInverse(bnx.Mod(m), bnx.Order)
		if e == nil || pbt.Chance(c, "invalid", 50) {
			e = pbt.Uniform(c, "e", bnx.Order)
		}
		want := bnx.Mod(new(big.Int).Mul(e, m)).Cmp(big.NewInt(1)) == 0
		sig, r := bnx.Make2(c, "sig", e)
		c.Eval(fmt.Sprint(m, e, how))
		c.Label("public key zero")
		ok, _ := bbsignatures.VerifVerify(sig, m, pub)
		if ok && !want {
			c.Fatalf("public key zero (%s): the signature %v (%s) of %v is accepted", how, e, r, m)
		}
	})
}
