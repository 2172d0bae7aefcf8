package c32

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"

	"verif/bnx"
	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one list of elements hashed twice in different representations, and again after one element changed or two were exchanged; non-trivial = distinct (hash, elements, change)")
}

// change describes a changed list: element i replaced, or i and j exchanged.
type change struct {
	name string
	list []*big.Int
}

// changed draws a list that differs from ks (discrete logarithms) modulo n.
func changed(c *pbt.C, ks []*big.Int, n *big.Int, min int) (change, bool) {
	eq := func(a, b *big.Int) bool { d := new(big.Int).Sub(a, b); return d.Mod(d, n).Sign() == 0 }
	out := append([]*big.Int{}, ks...)
	i := pbt.Kind(c, "at", len(ks))
	switch pbt.Kind(c, "change", 8) {
	case 0:
		out[i] = new(big.Int).Neg(ks[i])
	case 1:
		out[i] = new(big.Int).Add(ks[i], big.NewInt(1))
	case 2:
		out[i] = new(big.Int)
	case 3:
		out[i] = pbt.Uniform(c, "new", n)
	case 4, 5:
		j := pbt.Kind(c, "with", len(ks))
		out[i], out[j] = ks[j], ks[i]
		return change{fmt.Sprintf("%d and %d exchanged", i, j), out}, !eq(ks[i], ks[j])
	case 6: // one element less
		if len(ks) <= min {
			return change{}, false
		}
		out = out[:len(out)-1]
		return change{"last one dropped", out}, true
	case 7: // one element more
		out = append(out, pbt.Uniform(c, "more", n))
		return change{"one appended", out}, true
	}
	return change{fmt.Sprintf("element %d changed", i), out}, !eq(out[i], ks[i])
}

func scalars(c *pbt.C, label string, k int, n *big.Int) []*big.Int {
	v := make([]*big.Int, k)
	for i := range v {
		switch pbt.Kind(c, label+".kind", 8) {
		case 0:
			v[i] = new(big.Int)
		case 1:
			v[i] = big.NewInt(int64(pbt.IntN(c, label, -5, 5)))
		case 2:
			if i > 0 {
				v[i] = v[pbt.Kind(c, label+".of", i)]
				break
			}
			fallthrough
		default:
			v[i] = pbt.Uniform(c, label, n)
		}
	}
	return v
}

// spread checks that all bits of a challenge vary.
func spread(c *pbt.C, name string, hs []*big.Int) {
	for b := 0; b < 240; b++ {
		zero, one := false, false
		for _, h := range hs {
			if h.Bit(b) == 1 {
				one = true
			} else {
				zero = true
			}
		}
		if !zero || !one {
			c.Fatalf("%s: bit %d is the same in %d challenges", name, b, len(hs))
		}
	}
}

func point(c *pbt.C, k *big.Int) *p256.P256 {
	r := ref.G.Mul(k)
	if r.Inf && pbt.Chance(c, "form", 50) {
		return &p256.P256{X: new(big.Int), Y: new(big.Int)}
	}
	switch pbt.Kind(c, "how", 3) {
	case 0:
		return new(p256.P256).ScalarBaseMult(k)
	case 1:
		a := pbt.Uniform(c, "a", ref.N)
		return new(p256.P256).Multiply(new(p256.P256).ScalarBaseMult(a), new(p256.P256).ScalarBaseMult(new(big.Int).Sub(k, a)))
	}
	return bpx.Lib(r)
}

func hashBP(c *pbt.C, ks []*big.Int) (*big.Int, *big.Int) {
	ps := make([]*p256.P256, len(ks))
	for i := range ps {
		ps[i] = point(c, ks[i])
	}
	var a, b *big.Int
	var err error
	if p, st := pbt.Guard(func() { a, b, err = bp.HashBP(ps[0], ps[1], ps[2:]...) }); p != nil {
		c.Fatalf("HashBP of multiples %v panics: %v\n%s", ks, p, st)
	}
	if err != nil || a == nil || b == nil {
		c.Fatalf("HashBP of multiples %v: %v", ks, err)
	}
	for i := range ps {
		if !bpx.Ref(ps[i]).Eq(ref.G.Mul(ks[i])) {
			c.Fatalf("HashBP changed its argument %d", i)
		}
	}
	return a, b
}

func TestHashBP(t *testing.T) {
	pbt.Check(t, 3000, 80000, func(c *pbt.C) {
		top := 6
		if pbt.Chance(c, "longer", 4) {
			top = 70
		}
		ks := scalars(c, "k", pbt.IntN(c, "n", 2, top), ref.N)
		a, b := hashBP(c, ks)
		a2, b2 := hashBP(c, ks)
		if a.Cmp(a2) != 0 || b.Cmp(b2) != 0 {
			c.Fatalf("HashBP of multiples %v differs between representations or calls", ks)
		}
		if a.Cmp(b) == 0 {
			c.Fatalf("both challenges for multiples %v are %v", ks, a)
		}
		ch, ok := changed(c, ks, ref.N, 2)
		if ok {
			x, y := hashBP(c, ch.list)
			if x.Cmp(a) == 0 || y.Cmp(b) == 0 {
				c.Fatalf("a challenge of HashBP did not change: multiples %v, then %v (%s)", ks, ch.list, ch.name)
			}
			if x.Cmp(b) == 0 || y.Cmp(a) == 0 {
				c.Fatalf("challenges of %v and %v coincide", ks, ch.list)
			}
		}
		c.Label("HashBP")
		c.Eval(fmt.Sprint(ks, ch.name))
		c.Sample(map[string]any{"hash": "HashBP", "elements": len(ks), "change": ch.name})
	})
}

// gs are elements of G2 with given discrete logarithms.
func hashG2(c *pbt.C, many bool, ts, ks []*big.Int) *big.Int {
	as := make([]*bn256.GT, len(ts))
	for i := range as {
		as[i], _ = bnx.MakeT(c, "t", ts[i])
	}
	ds := make([]*bn256.G2, len(ks))
	for i := range ds {
		ds[i], _ = bnx.Make2(c, "d", ks[i])
	}
	var h *big.Int
	var err error
	name := "HashSet"
	if many {
		name = "Hash"
	}
	if p, st := pbt.Guard(func() {
		if many {
			h, err = util.Hash(as, ds[0], ds[1:]...)
		} else {
			h, err = util.HashSet(as[0], ds[0], ds[1:]...)
		}
	}); p != nil {
		c.Fatalf("%s of exponents %v and multiples %v panics: %v\n%s", name, ts, ks, p, st)
	}
	if err != nil || h == nil {
		c.Fatalf("%s of exponents %v and multiples %v: %v", name, ts, ks, err)
	}
	for i := range as {
		if !bytes.Equal(as[i].Marshal(), bnx.EncT(ts[i])) {
			c.Fatalf("%s changed its argument", name)
		}
	}
	for i := range ds {
		if !bytes.Equal(ds[i].Marshal(), bnx.Enc2(ks[i])) {
			c.Fatalf("%s changed its argument", name)
		}
	}
	return h
}

func TestPairingHashes(t *testing.T) {
	pbt.Check(t, 700, 16000, func(c *pbt.C) {
		many := pbt.Chance(c, "many", 50)
		nt := 1
		if many {
			nt = pbt.IntN(c, "nt", 0, 3)
			if pbt.Chance(c, "longer", 4) {
				nt = pbt.IntN(c, "nt", 4, 24)
			}
		}
		ts := scalars(c, "t", nt, bnx.Order)
		top := 3
		if pbt.Chance(c, "more", 4) {
			top = 24
		}
		ks := scalars(c, "k", pbt.IntN(c, "n", 1, top), bnx.Order)
		h := hashG2(c, many, ts, ks)
		if h2 := hashG2(c, many, ts, ks); h2.Cmp(h) != 0 {
			c.Fatalf("the hash of exponents %v and multiples %v differs between representations or calls", ts, ks)
		}
		var ch change
		ok := false
		var x *big.Int
		if len(ts) > 0 && pbt.Chance(c, "in GT", 50) {
			for ok = false; ; {
				ch, ok = changed(c, ts, bnx.Order, 0)
				break
			}
			if ok && (many || len(ch.list) == 1) {
				x = hashG2(c, many, ch.list, ks)
			}
		} else {
			ch, ok = changed(c, ks, bnx.Order, 1)
			if ok {
				x = hashG2(c, many, ts, ch.list)
			}
		}
		if x != nil && x.Cmp(h) == 0 {
			c.Fatalf("the hash of exponents %v and multiples %v did not change (%s)", ts, ks, ch.name)
		}
		c.Label(fmt.Sprintf("many=%v", many))
		c.Eval(fmt.Sprint(many, ts, ks, ch.name))
		c.Sample(map[string]any{"hash": "Hash/HashSet", "gt": len(ts), "g2": len(ks), "change": ch.name})
	})
}

func TestCalculateHash(t *testing.T) {
	pbt.Check(t, 20000, 500000, func(c *pbt.C) {
		x, y := pbt.IntSigned(c, "x", ref.N), pbt.IntSigned(c, "y", ref.N)
		alone := pbt.Chance(c, "alone", 20)
		call := func(x, y *big.Int) *big.Int {
			tx, ty := x.String(), y.String()
			arg := y
			if alone {
				arg = nil
			}
			var h *big.Int
			var err error
			if p, st := pbt.Guard(func() { h, err = bn.CalculateHash(x, arg) }); p != nil {
				c.Fatalf("CalculateHash(%v, %v) panics: %v\n%s", x, arg, p, st)
			}
			if err != nil || h == nil {
				c.Fatalf("CalculateHash(%v, %v): %v", x, arg, err)
			}
			if x.String() != tx || y.String() != ty {
				c.Fatalf("CalculateHash(%v, %v) changed its arguments", tx, ty)
			}
			return h
		}
		h := call(x, y)
		if g := call(new(big.Int).Set(x), new(big.Int).Set(y)); g.Cmp(h) != 0 {
			c.Fatalf("CalculateHash(%v, %v) is %v and then %v", x, y, h, g)
		}
		nx, ny := x, y
		diff := func(v *big.Int) *big.Int {
			w, _ := bpx.NewScalar(c, v, nil)
			return w
		}
		if alone || pbt.Chance(c, "first", 50) {
			nx = diff(x)
		} else {
			ny = diff(y)
		}
		if g := call(nx, ny); g.Cmp(h) == 0 {
			c.Fatalf("CalculateHash(%v, %v) = CalculateHash(%v, %v)", x, y, nx, ny)
		}
		c.Label("CalculateHash")
		c.Eval(fmt.Sprint(x, y, alone, nx, ny))
	})
}

// The challenge that binds the statement of the inner product argument is visible as
// the quotient of two generators of the proof.
func TestStatement(t *testing.T) {
	pbt.Check(t, 400, 10000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4)
		// generators, commitment, inner product
		ks := scalars(c, "k", 2*n+1, ref.N)
		cc := pbt.IntSigned(c, "c", ref.N)
		u := func(ks []*big.Int, cc *big.Int) ref.Pt {
			g, h := make([]*p256.P256, n), make([]*p256.P256, n)
			for i := range g {
				g[i], h[i] = point(c, ks[i]), point(c, ks[n+i])
			}
			P := point(c, ks[2*n])
			a := make([]*big.Int, n)
			for i := range a {
				a[i] = big.NewInt(int64(i + 1))
			}
			var proof bp.InnerProductProof
			var err error
			if p, st := pbt.Guard(func() {
				var params bp.InnerProductParams
				params, err = bp.VerifSetupInnerProduct(point(c, big.NewInt(7)), g, h, cc, int64(n))
				if err == nil {
					proof, err = bp.VerifProveInnerProduct(a, a, P, params)
				}
			}); p != nil {
				c.Fatalf("inner product argument panics: %v\n%s", p, st)
			}
			if err != nil {
				c.Fatalf("inner product argument: %v", err)
			}
			for i := range g {
				if !bpx.Ref(g[i]).Eq(ref.G.Mul(ks[i])) || !bpx.Ref(h[i]).Eq(ref.G.Mul(ks[n+i])) {
					c.Fatalf("the inner product argument changed a generator")
				}
			}
			if !bpx.Ref(P).Eq(ref.G.Mul(ks[2*n])) {
				c.Fatalf("the inner product argument changed the commitment")
			}
			return bpx.Ref(proof.U)
		}
		p := u(ks, cc)
		if !u(ks, cc).Eq(p) {
			c.Fatalf("the statement is hashed differently in different representations: multiples %v", ks)
		}
		if pbt.Chance(c, "scalar", 30) {
			d, how := bpx.NewScalar(c, cc, nil)
			if u(ks, d).Eq(p) {
				c.Fatalf("the challenge does not depend on the inner product: %v and %v (%s)", cc, d, how)
			}
			c.Eval(fmt.Sprint(ks, cc, d))
			return
		}
		ch, ok := changed(c, ks, ref.N, len(ks))
		if ok && len(ch.list) == len(ks) && u(ch.list, cc).Eq(p) {
			c.Fatalf("the challenge does not depend on the statement: multiples %v and %v (%s)", ks, ch.list, ch.name)
		}
		c.Eval(fmt.Sprint(ks, cc, ch.name))
		c.Label("statement " + ch.name)
		c.Sample(map[string]any{"n": n, "change": ch.name})
	})
}

// All bits of the challenges vary.
func TestSpread(t *testing.T) {
	pbt.Check(t, 16, 200, func(c *pbt.C) {
		start := pbt.Uniform(c, "start", ref.N)
		var a, b, h, s, d []*big.Int
		D := new(bn256.G2).ScalarBaseMult(start)
		T, _ := bnx.MakeT(c, "t", start)
		for i := int64(0); i < 72; i++ {
			k := new(big.Int).Add(start, big.NewInt(i))
			P := bpx.Lib(ref.G.Mul(k))
			x, y, err := bp.HashBP(P, bpx.Lib(ref.G))
			if err != nil {
				c.Fatalf("HashBP: %v", err)
			}
			a, b, d = append(a, x), append(b, y), append(d, new(big.Int).Sub(x, y))
			z, err := bn.CalculateHash(k, nil)
			if err != nil {
				c.Fatalf("CalculateHash: %v", err)
			}
			h = append(h, z)
			D.Add(D, util.G2)
			w, err := util.HashSet(T, D)
			if err != nil {
				c.Fatalf("HashSet: %v", err)
			}
			s = append(s, w)
			v, err := util.Hash([]*bn256.GT{T}, D)
			if err != nil {
				c.Fatalf("Hash: %v", err)
			}
			s = append(s, v)
		}
		spread(c, "first challenge of HashBP", a)
		spread(c, "second challenge of HashBP", b)
		spread(c, "difference of the challenges of HashBP", d)
		spread(c, "CalculateHash", h)
		spread(c, "Hash and HashSet", s)
		c.Eval(start.String())
		c.Label("spread")
	})
}
