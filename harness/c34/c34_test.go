package c34

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one proof or parameter set searched for secrets, or one proof compared with the proof of the same secret made with randomness that differs in one bit (or everywhere); non-trivial = distinct (scheme, secret, randomness, change)")
}

type subject struct {
	s    *ccx.Scheme
	x, r *big.Int
	name string
}

func (s subject) String() string { return fmt.Sprintf("%s, secret %v, r %v", s.name, s.x, s.r) }

// scheme draws a scheme with a secret it can be used for.
func scheme(c *pbt.C, maxDigits int) subject {
	r := pbt.Uniform(c, "r", bnx.Order)
	if pbt.Chance(c, "set", 40) {
		set := []int64{pbt.Int64N(c, "e", -1<<62, 1<<62), int64(pbt.IntN(c, "small", -9, 9)), 1 << 40}
		set = set[:pbt.IntN(c, "size", 1, 3)]
		s, err := ccx.NewSet(set)
		if err != nil {
			c.Fatalf("SetupSet(%v): %v", set, err)
		}
		return subject{s, big.NewInt(set[pbt.Kind(c, "x", len(set))]), r, fmt.Sprintf("set %v", set)}
	}
	u, l := int64(pbt.IntN(c, "u", 2, 5)), int64(pbt.IntN(c, "l", 1, maxDigits))
	s, err := ccx.NewUL(u, l)
	if err != nil {
		c.Fatalf("SetupUL(%d,%d): %v", u, l, err)
	}
	top := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
	x := pbt.Uniform(c, "x", top)
	if pbt.Chance(c, "repeated digits", 30) {
		// all digits equal: (u^l - 1)/(u - 1) times a digit
		x.Sub(top, big.NewInt(1))
		x.Div(x, big.NewInt(u-1))
		x.Mul(x, big.NewInt(int64(pbt.Kind(c, "digit", int(u)))))
	}
	return subject{s, x, r, fmt.Sprintf("digits base %d length %d", u, l)}
}

func prove(c *pbt.C, s subject, t *pbt.Tape) ccx.Obj {
	c.Use(t)
	x, r := new(big.Int).Set(s.x), new(big.Int).Set(s.r)
	o, err := s.s.Prove(x, r)
	if err != nil {
		c.Fatalf("%v: %v", s, err)
	}
	return o
}

// element values of a proof by path
func shot(o ccx.Obj) map[string]string {
	m := map[string]string{}
	for _, l := range o.Leaves() {
		m[l.Path] = l.Value()
	}
	return m
}

func diff(a, b map[string]string) map[string]bool {
	d := map[string]bool{}
	for k := range a {
		if a[k] != b[k] {
			d[k] = true
		}
	}
	return d
}

// commitment tells whether a leaf is the commitment, which depends on the secret and r only.
func commitment(path string) bool { return path == ".C" }

// named tells whether the elements whose roles matter here are found by their names.
func named(c *pbt.C, o ccx.Obj) bool {
	var n int
	for _, l := range o.Leaves() {
		switch p := strings.ToLower(l.Path); {
		case l.Path == ".C" && l.IsG2(), p == ".zsig" || p == ".zsig[0]", p == ".zr":
			n++
		}
	}
	if n != 3 {
		c.Undecided("elements of the proof are not found")
	}
	return n == 3
}

// secretNumbers are the numbers that must not show up: the random numbers in every
// form a prover may have used them, r, and the secret if it is long enough to recognise.
func secretNumbers(x, r *big.Int, t *pbt.Tape) map[string]string {
	m := map[string]string{}
	add := func(name string, k *big.Int) {
		if new(big.Int).Abs(k).BitLen() < 16 {
			return
		}
		m[k.String()] = name
		m[new(big.Int).Neg(k).String()] = name + ", negated"
		m[bnx.Mod(k).String()] = name
		m[bnx.Mod(new(big.Int).Neg(k)).String()] = name + ", negated"
		if i := new(big.Int).ModInverse(bnx.Mod(k), bnx.Order); i != nil {
			m[i.String()] = name + ", inverted"
		}
	}
	for i, b := range t.Bytes {
		k := new(big.Int).SetBytes(b)
		add(fmt.Sprintf("random number %d", i), k)
		if len(b) == 32 { // as crypto/rand.Int uses it
			k = new(big.Int).And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1)))
			add(fmt.Sprintf("random number %d", i), k)
		}
	}
	if r != nil {
		add("the randomness of the commitment", r)
	}
	if x != nil {
		add("the secret", x)
	}
	return m
}

// numbers looks for secret numbers in a proof about x (in digits of the base, if any).
// The response for a zero is the random number itself and gives nothing away.
func numbers(c *pbt.C, what string, o ccx.Obj, x *big.Int, base int64, r *big.Int, t *pbt.Tape) {
	if !named(c, o) {
		return
	}
	zero := map[string]bool{}
	if base == 0 {
		zero[".zsig"] = bnx.Zero(x)
	} else {
		rest, d := new(big.Int).Set(x), new(big.Int)
		for i := 0; i < 64; i++ {
			rest.DivMod(rest, big.NewInt(base), d)
			zero[fmt.Sprintf(".zsig[%d]", i)] = d.Sign() == 0
		}
	}
	zero[".zr"] = bnx.Zero(r)
	bad := secretNumbers(x, r, t)
	for _, n := range o.Numbers() {
		if name := bad[n.Value.String()]; name != "" && !zero[strings.ToLower(n.Path)] {
			c.Fatalf("%s: %s is %s", what, n.Path, name)
		}
	}
}

// search looks for secret numbers and unblinded elements in a proof.
func search(c *pbt.C, what string, o ccx.Obj, sch *ccx.Scheme, x, r *big.Int, t *pbt.Tape) {
	if !named(c, o) {
		return
	}
	numbers(c, what, o, x, sch.Base, r, t)
	for _, l := range o.Leaves() {
		if l.Nil() {
			c.Fatalf("%s: %s is missing", what, l.Path)
		}
		if l.IsInt() && (l.Int().Sign() < 0 || l.Int().Cmp(bnx.Order) >= 0) {
			c.Fatalf("%s: %s = %v is not reduced modulo the group order and shows the size of what it hides", what, l.Path, l.Int())
		}
	}
	// elements without blinding: signatures, and multiples of the generators by one of
	// the numbers alone
	plain := map[string]string{}
	pub, ok := sch.Public()
	if !ok {
		c.Undecided("public parameters not found")
		return
	}
	for e, sig := range pub.Sigs {
		plain[fmt.Sprintf("%x", ccx.CopyG2(sig).Marshal())] = fmt.Sprintf("the signature of %d", e)
	}
	mul := func(name string, k *big.Int) {
		if bnx.Zero(k) {
			return
		}
		plain[fmt.Sprintf("%x", bnx.Enc2(k))] = name + " times the generator"
		plain[fmt.Sprintf("%x", new(bn256.G2).ScalarMult(pub.H, bnx.Mod(k)).Marshal())] = name + " times H"
	}
	for i, b := range t.Bytes {
		if len(b) == 32 {
			k := new(big.Int).SetBytes(b)
			mul(fmt.Sprintf("random number %d", i), k.And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1))))
		}
	}
	if !bnx.Zero(x) {
		mul("the secret", x)
		mul("the randomness of the commitment", r)
	}
	for _, l := range o.Leaves() {
		if l.IsG2() {
			if name := plain[l.Value()]; name != "" {
				if bnx.Zero(r) && commitment(l.Path) {
					continue
				}
				c.Fatalf("%s: %s is %s", what, l.Path, name)
			}
		}
	}
}

func TestNoSecrets(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		s := scheme(c, pbt.Pick(c, "digits", 3, 3, 9))
		seed := pbt.SeedOf(c, "seed")
		tape := pbt.NewTape(seed)
		o := prove(c, s, tape)
		c.Eval(fmt.Sprint(s, seed))
		c.Label("proof without secrets")
		c.Sample(map[string]any{"scheme": s.name, "secret": s.x.String(), "random numbers": tape.Reads})
		search(c, s.String(), o, s.s, s.x, s.r, tape)
	})
}

// Two proofs of one secret with the same commitment have nothing else in common.
func TestFresh(t *testing.T) {
	pbt.Check(t, 80, 2000, func(c *pbt.C) {
		s := scheme(c, pbt.Pick(c, "digits", 3, 3, 9))
		s1, s2 := pbt.SeedOf(c, "one"), pbt.SeedOf(c, "two")
		if s1 == s2 {
			return
		}
		po := prove(c, s, pbt.NewTape(s1))
		if !named(c, po) {
			return
		}
		p, q := shot(po), shot(prove(c, s, pbt.NewTape(s2)))
		c.Eval(fmt.Sprint(s, s1, s2))
		c.Label("fresh randomness")
		for k := range p {
			if p[k] == q[k] && !commitment(k) {
				c.Fatalf("%v: two proofs share %s = %s", s, k, pbt.Clip(p[k], 100))
			}
		}
		seen := map[string]string{}
		for k, v := range p {
			if seen[v] != "" {
				c.Fatalf("%v: %s and %s of one proof are equal", s, k, seen[v])
			}
			seen[v] = k
		}
		if d := diff(p, shot(prove(c, s, pbt.NewTape(s1)))); len(d) > 0 {
			c.Fatalf("%v: the proof is not determined by the secret and the randomness: %v", s, d)
		}
	})
}

// Which random numbers each element depends on.
func TestInfluence(t *testing.T) {
	pbt.Check(t, 24, 500, func(c *pbt.C) {
		s := scheme(c, pbt.Pick(c, "digits", 2, 2, 5))
		seed := pbt.SeedOf(c, "seed")
		base := pbt.NewTape(seed)
		po := prove(c, s, base)
		p := shot(po)
		infl := map[string]map[int]bool{}
		for k := range p {
			infl[k] = map[int]bool{}
		}
		for i := 0; i < base.Reads; i++ {
			n := len(base.Bytes[i])
			lo := 8 // the highest byte is masked and decides about rejection
			if n < 2 {
				lo = 0
			}
			seen := false
			bits := []int{8*n - 8, lo + pbt.Kind(c, "bit", 8*n-lo), lo}
			for _, b := range bits {
				t := pbt.NewTape(seed)
				t.Flip = map[int]int{i: b}
				d := diff(p, shot(prove(c, s, t)))
				if t.Reads != base.Reads {
					c.Label("other number of draws")
					continue
				}
				c.Eval(fmt.Sprint(s, seed, i, b))
				for k := range d {
					infl[k][i] = true
					seen = true
				}
			}
			if !seen {
				// a rejected number has no influence: one that is not below the order
				k := new(big.Int).SetBytes(base.Bytes[i])
				k.And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1)))
				if n == 32 && k.Cmp(bnx.Order) >= 0 {
					continue
				}
				c.Fatalf("%v: the proof does not depend on read %d (%x)", s, i, base.Bytes[i])
			}
		}
		c.Label("influence")
		parts, ok := s.s.Parts(po)
		if !ok {
			c.Undecided("elements of the proof not found")
			return
		}
		// paths of the elements
		path := func(v any) string {
			for _, l := range po.Leaves() {
				if l.Ref.Interface() == v {
					return l.Path
				}
			}
			c.Undecided("elements of the proof not found")
			return ""
		}
		var V, A []string
		for i := range parts.V {
			V, A = append(V, path(parts.V[i])), append(A, path(parts.A[i]))
		}
		D := path(parts.D)
		width := func(of string, without ...string) int {
			w := 0
			for i := range infl[of] {
				own := true
				for _, o := range without {
					own = own && !infl[o][i]
				}
				if own {
					w += len(base.Bytes[i])
				}
			}
			return w
		}
		need := func(what, of string, bytes int, without ...string) {
			if w := width(of, without...); w < bytes {
				c.Fatalf("%v: %s (%s) depends on %d bytes of randomness of its own, needs %d", s, what, of, w, bytes)
			}
		}
		for i := range V {
			var others []string
			for j := range V {
				if j != i {
					others = append(others, V[j], A[j])
				}
			}
			need("the blinded signature", V[i], 32, others...)
			need("the first message for a digit", A[i], 96, others...)
			need("the first message for a digit", A[i], 64, append(others, V[i])...)
		}
		need("the first message for the commitment", D, 32, append(append([]string{}, V...), A...)...)
		if infl[path(parts.C)] != nil && len(infl[path(parts.C)]) > 0 {
			c.Fatalf("%v: the commitment does not depend on the given randomness alone", s)
		}
	})
}

// Random numbers as large as the group allows are used as they are.
func TestWholeRange(t *testing.T) {
	pbt.Check(t, 80, 2000, func(c *pbt.C) {
		s := scheme(c, 2)
		seed := pbt.SeedOf(c, "seed")
		base := pbt.NewTape(seed)
		p := shot(prove(c, s, base))
		i := pbt.Kind(c, "read", base.Reads)
		x := new(big.Int).Sub(bnx.Order, big.NewInt(int64(pbt.IntN(c, "below", 1, 3))))
		if pbt.Chance(c, "upper half", 50) {
			x.Sub(x, pbt.Uniform(c, "k", new(big.Int).Rsh(bnx.Order, 1)))
		}
		k := new(big.Int).SetBytes(base.Bytes[i])
		k.And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1)))
		if len(base.Bytes[i]) != 32 || k.Cmp(bnx.Order) >= 0 {
			return // this number was drawn again
		}
		t := pbt.NewTape(seed)
		t.Over = map[int][]byte{i: x.FillBytes(make([]byte, 32))}
		q := shot(prove(c, s, t))
		c.Eval(fmt.Sprint(s, seed, i, x))
		c.Label("large random number")
		if t.Reads != base.Reads {
			c.Fatalf("%v: the random number %v is not used: not uniform over the group order", s, x)
		}
		if len(diff(p, q)) == 0 {
			c.Fatalf("%v: read %d does not matter", s, i)
		}
	})
}

// keyless fails if one of the numbers in the parameters is the signing key.
func keyless(c *pbt.C, what string, params ccx.Obj, pub *bn256.G1, tape *pbt.Tape) {
	want := ccx.Obj{Ptr: &pub}.Leaves()[0].Value()
	bad := secretNumbers(nil, nil, tape)
	for _, n := range params.Numbers() {
		k := bnx.Mod(n.Value)
		for _, k := range []*big.Int{k, bnx.Mod(new(big.Int).Neg(k))} {
			if fmt.Sprintf("%x", bnx.Enc1(k)) == want {
				c.Fatalf("%s: %s is the signing key", what, n.Path)
			}
		}
		if i := new(big.Int).ModInverse(k, bnx.Order); i != nil && fmt.Sprintf("%x", bnx.Enc1(i)) == want {
			c.Fatalf("%s: %s is the inverse of the signing key", what, n.Path)
		}
		if name := bad[n.Value.String()]; name != "" {
			c.Fatalf("%s: %s is %s", what, n.Path, name)
		}
	}
}

func TestParameters(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		seed := pbt.SeedOf(c, "seed")
		tape := c.Tape(seed)
		s := scheme(c, 3)
		c.Eval(fmt.Sprint(s.name, seed))
		c.Label("parameters without signing key")
		pub, ok := s.s.Public()
		if !ok {
			c.Undecided("public parameters not found")
			return
		}
		keyless(c, "parameters: "+s.name, s.s.Params, pub.Key, tape)
		if len(s.s.Params.Numbers()) > 0 {
			c.Label("parameters with numbers")
		}
		// setups do not repeat their key
		c.Use(pbt.NewTape(seed ^ 1))
		var o *ccx.Scheme
		var err error
		if s.s.Set {
			o, err = ccx.NewSet([]int64{5})
		} else {
			o, err = ccx.NewUL(2, 1)
		}
		if err != nil {
			c.Fatalf("setup: %v", err)
		}
		if q, ok := o.Public(); ok && bytes.Equal(q.Key.Marshal(), pub.Key.Marshal()) {
			c.Fatalf("two setups with different randomness have the same key")
		}
	})
}

// Range proofs: the same for the halves and the parameters.
func TestRange(t *testing.T) {
	pbt.Check(t, 8, 160, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", 0, 30))
		b := a + int64(pbt.IntN(c, "w", 2, 3000))
		tape := c.Tape(pbt.SeedOf(c, "setup"))
		z, err := ccx.NewRange(a, b)
		if err != nil {
			c.Fatalf("Setup(%d,%d): %v", a, b, err)
		}
		ps, ok := z.Obj().Field("p.p")
		if !ok {
			c.Undecided("parameters of the range proof not found")
			return
		}
		params := ccx.Obj{Ptr: ps.Interface()}
		pub, ok := ccx.Lookup[*bn256.G1](params, "kp.Pubk")
		h, ok2 := ccx.Lookup[*bn256.G2](params, "H")
		if !ok || !ok2 {
			c.Undecided("parameters of the range proof not found")
			return
		}
		_ = h
		keyless(c, fmt.Sprintf("parameters for [%d,%d)", a, b), params, pub, tape)
		x := big.NewInt(a + int64(pbt.IntN(c, "x", 0, int(b-a)-1)))
		r := pbt.Uniform(c, "r", bnx.Order)
		seed := pbt.SeedOf(c, "proof")
		run := func(t *pbt.Tape) (o [2]ccx.Obj, m [2]map[string]string) {
			c.Use(t)
			y := z.Copy()
			if err, _ := y.Prove(x, r); err != nil {
				c.Fatalf("Prove(%v) in [%d,%d): %v", x, a, b, err)
			}
			for i := range o {
				h, ok := y.Half(i)
				if !ok {
					return
				}
				o[i], m[i] = h, shot(h)
			}
			return
		}
		base := pbt.NewTape(seed)
		o, m := run(base)
		if m[1] == nil {
			c.Undecided("halves of the range proof not found")
			return
		}
		if !named(c, o[0]) || !named(c, o[1]) {
			return
		}
		c.Eval(fmt.Sprint(a, b, x, r, seed))
		c.Label("range proof")
		u, ok := ccx.Lookup[int64](params, "u")
		l, ok2 := ccx.Lookup[int64](params, "l")
		if !ok || !ok2 || u < 2 {
			c.Undecided("parameters of the range proof not found")
			return
		}
		xb := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
		xb.Add(xb, x).Sub(xb, big.NewInt(b))
		for i, y := range []*big.Int{xb, new(big.Int).Sub(x, big.NewInt(a))} {
			what := fmt.Sprintf("proof of %v in [%d,%d), half %d", x, a, b, i+1)
			numbers(c, what, o[i], y, u, r, base)
			for _, n := range o[i].Numbers() {
				if x.BitLen() >= 8 && n.Value.Cmp(x) == 0 {
					c.Fatalf("%s: %s is the secret", what, n.Path)
				}
			}
		}
		for k, v := range m[0] {
			for l, w := range m[1] {
				if v == w {
					c.Fatalf("proof of %v in [%d,%d): %s of the first and %s of the second half are equal", x, a, b, k, l)
				}
			}
		}
		for j := 0; j < 3; j++ {
			i := pbt.Kind(c, "read", base.Reads)
			t := pbt.NewTape(seed)
			n := len(base.Bytes[i])
			t.Flip = map[int]int{i: 8*n - 1 - pbt.Kind(c, "bit", 8*n/2)}
			_, q := run(t)
			if t.Reads != base.Reads {
				continue
			}
			d1, d2 := diff(m[0], q[0]), diff(m[1], q[1])
			c.Eval(fmt.Sprint(a, b, x, seed, i, t.Flip))
			if len(d1) > 0 && len(d2) > 0 {
				c.Fatalf("proof of %v in [%d,%d): read %d is used for both halves", x, a, b, i)
			}
		}
		_, q := run(pbt.NewTape(seed ^ 1))
		for i := range m {
			for k := range m[i] {
				if m[i][k] == q[i][k] && !commitment(k) {
					c.Fatalf("two proofs of %v in [%d,%d) share %s of half %d", x, a, b, k, i+1)
				}
			}
		}
	})
}
