package c17

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/util"

	"verif/bnx"
	"verif/ccx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one altered, mixed or forged set membership or digit proof given to the verifier; non-trivial = distinct (parameters, proof, alteration or attack)")
}

type entry struct {
	s   *ccx.Scheme
	in  []int64 // provable integers
	out []int64 // integers that must not be provable
	err error
}

var (
	mu     sync.Mutex
	cached = map[string]*entry{}
)

// scheme draws one of a few schemes; their parameters are made from a fixed seed.
func scheme(c *pbt.C, sets, digits bool) *entry {
	k := pbt.Pick(c, "scheme", 0, 1, 2, 3, 4, 5, 6, 7, 6, 8)
	if !sets && k < 2 {
		k += 2
	}
	if !digits {
		k %= 2
	}
	name := fmt.Sprint(k)
	mu.Lock()
	defer mu.Unlock()
	if cached[name] == nil {
		c.Tape(1000 + uint64(k))
		e := &entry{}
		switch k {
		case 0:
			e.s, e.err = ccx.NewSet([]int64{5})
			e.in, e.out = []int64{5}, []int64{4, 6, 0, -5}
		case 1:
			e.s, e.err = ccx.NewSet([]int64{-7, 0, 12, 1 << 40})
			e.in, e.out = []int64{-7, 0, 12, 1 << 40}, []int64{7, 1, 11, 1 << 39}
		case 2:
			e.s, e.err = ccx.NewUL(2, 1)
			e.in, e.out = []int64{0, 1}, []int64{2, -1, 3}
		case 3:
			e.s, e.err = ccx.NewUL(2, 3)
			e.in, e.out = []int64{0, 3, 5, 7}, []int64{8, -1, 9}
		case 4:
			e.s, e.err = ccx.NewUL(4, 2)
			e.in, e.out = []int64{0, 4, 9, 15}, []int64{16, -1, 20}
		case 5:
			e.s, e.err = ccx.NewUL(57, 1)
			e.in, e.out = []int64{0, 1, 33, 56}, []int64{57, -1, 100}
		case 6:
			e.s, e.err = ccx.NewUL(2, 6)
			e.in, e.out = []int64{0, 1, 32, 42, 63}, []int64{64, -1, 65}
		case 7:
			e.s, e.err = ccx.NewUL(3, 5)
			e.in, e.out = []int64{0, 80, 121, 242}, []int64{243, -1, 244}
		case 8:
			e.s, e.err = ccx.NewUL(2, 11)
			e.in, e.out = []int64{0, 1024, 1365, 2047}, []int64{2048, -1, 2049}
		}
		cached[name] = e
	}
	if cached[name].err != nil {
		c.Fatalf("setup: %v", cached[name].err)
	}
	return cached[name]
}

type made struct {
	o    ccx.Obj
	x    int64
	r    *big.Int
	seed uint64
}

// honest makes a proof. Every digit of it is blinded.
func honest(c *pbt.C, e *entry) made {
	x := e.in[pbt.Kind(c, "x", len(e.in))]
	r := pbt.Uniform(c, "r", bnx.Order)
	seed := pbt.SeedOf(c, "tape")
	c.Tape(seed)
	o, err := e.s.Prove(big.NewInt(x), r)
	if err != nil {
		c.Fatalf("proving %d: %v", x, err)
	}
	return made{o, x, r, seed}
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, bnx.Order) }

func g2(k int64) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(big.NewInt(k)) }

func TestOneElement(t *testing.T) {
	pbt.Check(t, 160, 4500, func(c *pbt.C) {
		e := scheme(c, true, true)
		m := honest(c, e)
		for i, k := 0, pbt.IntN(c, "alterations", 4, 8); i < k; i++ {
			o := m.o.Clone()
			// altering a proof in the variable in which it was verified before
			if pbt.Chance(c, "verified before", 20) {
				e.s.Accepts(o)
			}
			what := ccx.Alter(c, o.Leaves())
			if what == "" {
				continue
			}
			c.Eval(fmt.Sprint(e.in, m.x, m.seed, what))
			c.Label(strings.SplitN(what, " ", 2)[0])
			c.Sample(map[string]any{"provable": fmt.Sprint(e.in), "secret": m.x, "alteration": what})
			if e.s.Accepts(o) {
				c.Fatalf("altered proof for %d accepted: %s", m.x, what)
			}
		}
	})
}

// Mixtures of the elements of two proofs under the same parameters.
func TestExchange(t *testing.T) {
	pbt.Check(t, 130, 3500, func(c *pbt.C) {
		e := scheme(c, true, true)
		p, q := honest(c, e), honest(c, e)
		a, b := p.o.Leaves(), q.o.Leaves()
		if len(a) != len(b) {
			c.Fatalf("proofs for one setup have %d and %d elements", len(a), len(b))
		}
		for i, k := 0, pbt.IntN(c, "mixtures", 3, 6); i < k; i++ {
			o := p.o.Clone()
			what := ""
			pct := pbt.Pick(c, "take", 10, 30, 50, 90)
			l := o.Leaves()
			eqP, eqQ := true, true
			for j := range l {
				if pbt.Chance(c, "take", pct) {
					l[j].Ref.Set(b[j].Ref)
					what += " " + l[j].Path
				}
				eqP = eqP && ccx.GroupValue(l[j]) == ccx.GroupValue(a[j])
				eqQ = eqQ && ccx.GroupValue(l[j]) == ccx.GroupValue(b[j])
			}
			if eqP || eqQ {
				continue
			}
			c.Eval(fmt.Sprint(e.in, p.x, q.x, p.seed, q.seed, what))
			c.Label("exchange")
			c.Sample(map[string]any{"secrets": fmt.Sprint(p.x, ",", q.x), "taken": what})
			if e.s.Accepts(o) {
				c.Fatalf("mixture of proofs for %d and %d accepted; taken:%s", p.x, q.x, what)
			}
		}
	})
}

// Digits are exchanged, dropped or repeated.
func TestReshape(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		e := scheme(c, false, true)
		m := honest(c, e)
		p, ok := e.s.Parts(m.o)
		if !ok {
			c.Undecided("elements of digit proofs are not found")
			return
		}
		n := len(p.V)
		p.V, p.A = append([]*bn256.G2{}, p.V...), append([]*bn256.GT{}, p.A...)
		p.Zsig, p.Zv = append([]*big.Int{}, p.Zsig...), append([]*big.Int{}, p.Zv...)
		what := ""
		switch pbt.Kind(c, "shape", 8) {
		case 0:
			if n > 1 {
				i := pbt.Kind(c, "i", n-1)
				p.V[i], p.V[i+1], p.A[i], p.A[i+1] = p.V[i+1], p.V[i], p.A[i+1], p.A[i]
				p.Zsig[i], p.Zsig[i+1], p.Zv[i], p.Zv[i+1] = p.Zsig[i+1], p.Zsig[i], p.Zv[i+1], p.Zv[i]
				what = "digits exchanged"
			}
		case 1:
			p.V, p.A, p.Zsig, p.Zv = p.V[:n-1], p.A[:n-1], p.Zsig[:n-1], p.Zv[:n-1]
			what = "digit dropped"
		case 2:
			p.V, p.A, p.Zsig, p.Zv = append(p.V, p.V[0]), append(p.A, p.A[0]), append(p.Zsig, p.Zsig[0]), append(p.Zv, p.Zv[0])
			what = "digit added"
		case 3:
			p.V, p.A, p.Zsig, p.Zv = nil, nil, nil, nil
			what = "no digits"
		case 4:
			p.A, p.Zv = p.A[:n-1], p.Zv[:n-1]
			what = "components dropped"
		case 5:
			p.V[0] = nil
			what = "element missing"
		case 6, 7:
			what = "surplus " + surplus(c, &p)
		}
		if what == "" {
			return
		}
		o, ok := e.s.Build(p)
		if !ok {
			c.Undecided("digit proofs cannot be built")
			return
		}
		c.Eval(fmt.Sprint(e.in, m.seed, what))
		c.Label("shape: " + what)
		if e.s.Accepts(o) {
			c.Fatalf("altered proof for %d accepted: %s", m.x, what)
		}
	})
}

// surplus appends elements to some of the lists of a proof.
func surplus(c *pbt.C, p *ccx.Parts) string {
	which := 1 + pbt.Kind(c, "lists", 15)
	for k := pbt.IntN(c, "surplus", 1, 2); k > 0; k-- {
		if which&1 > 0 {
			p.V = append(p.V, ccx.CopyG2(p.V[0]))
		}
		if which&2 > 0 {
			p.A = append(p.A, ccx.CopyGT(p.A[0]))
		}
		if which&4 > 0 {
			p.Zsig = append(p.Zsig, new(big.Int).Set(p.Zsig[0]))
		}
		if which&8 > 0 {
			p.Zv = append(p.Zv, new(big.Int).Set(p.Zv[0]))
		}
	}
	return fmt.Sprintf("elements in lists %04b", which)
}

// challenge is the challenge of the protocol, computed from the elements that mask
// does not leave out. The order and encoding are those of the library.
func challenge(a []*bn256.GT, D, C *bn256.G2, V []*bn256.G2) *big.Int {
	d := sha256.New()
	for _, x := range a {
		if x != nil {
			d.Write([]byte(x.String()))
		}
	}
	for _, x := range append([]*bn256.G2{D, C}, V...) {
		if x != nil {
			d.Write([]byte(x.String()))
		}
	}
	return mod(ref.Signed(d.Sum(nil)))
}

// eqA is the right hand side of the equation for a digit.
func eqA(key *bn256.G1, V *bn256.G2, c, zsig, zv *big.Int) *bn256.GT {
	p := new(bn256.GT).ScalarMult(bn256.Pair(key, V), c)
	q := new(bn256.GT).ScalarMult(bn256.Pair(util.G1, V), mod(new(big.Int).Neg(zsig)))
	p = new(bn256.GT).Add(p, q)
	return new(bn256.GT).Add(p, new(bn256.GT).ScalarMult(util.E, zv))
}

func lin(pts []*bn256.G2, ks []*big.Int) *bn256.G2 {
	s := new(bn256.G2).ScalarBaseMult(new(big.Int))
	for i := range pts {
		s = new(bn256.G2).Add(s, new(bn256.G2).ScalarMult(pts[i], mod(ks[i])))
	}
	return s
}

// Attacks. Each one makes a proof for a commitment to target, which is not provable (or
// to no known integer); it would be accepted by a verifier with one check missing.
var attacks = []string{
	"challenge chosen first", "identity V", "all identity", "V not in the challenge", "D not in the challenge", "C not in the challenge",
	"a not in the challenge", "V and C not in the challenge", "D and V not in the challenge", "unsigned V", "signature of another digit", "signature of another key",
	"identity V with random responses", "challenge of nothing", "challenge of a only", "challenge of D only", "one equation only",
}

// missing chooses the digits whose elements the challenge does not cover, f among them.
func missing(c *pbt.C, f, n int) map[int]bool {
	m := map[int]bool{f: true}
	how := pbt.Pick(c, "not covered", "one", "all", "but the first", "but the last", "odd", "even", "from there on", "up to there")
	for i := 0; i < n; i++ {
		switch {
		case how == "all", how == "but the first" && i > 0, how == "but the last" && i < n-1,
			how == "odd" && i%2 == 1, how == "even" && i%2 == 0, how == "from there on" && i >= f, how == "up to there" && i <= f:
			m[i] = true
		}
	}
	return m
}

func TestForged(t *testing.T) {
	pbt.Check(t, 360, 7500, func(c *pbt.C) {
		e := scheme(c, true, true)
		pub, ok := e.s.Public()
		if !ok {
			c.Undecided("public parameters are not found")
			return
		}
		attack := attacks[pbt.Kind(c, "attack", len(attacks))]
		target := e.out[pbt.Kind(c, "target", len(e.out))]
		rnd := func(label string) *big.Int {
			x := pbt.Uniform(c, label, bnx.Order)
			if x.Sign() == 0 {
				x.SetInt64(1)
			}
			return x
		}
		n := e.s.Digits
		base := big.NewInt(e.s.Base)
		if e.s.Set {
			base.SetInt64(1)
		}
		weights := make([]*big.Int, n)
		for i := range weights {
			weights[i] = new(big.Int).Exp(base, big.NewInt(int64(i)), nil)
		}
		// Digits that recombine to the target modulo the order, one of them forged.
		digit := make([]*big.Int, n)
		rest := big.NewInt(target)
		var signed []int64
		for x := range pub.Sigs {
			signed = append(signed, x)
		}
		sortInts(signed)
		if len(signed) == 0 {
			c.Undecided("no signatures in the parameters")
			return
		}
		f := pbt.Kind(c, "forged digit", n)
		for i := range digit {
			if i == f {
				continue
			}
			d := signed[pbt.Kind(c, "digit", len(signed))]
			digit[i] = big.NewInt(d)
			rest.Sub(rest, new(big.Int).Mul(weights[i], digit[i]))
		}
		digit[f] = mod(new(big.Int).Mul(rest, new(big.Int).ModInverse(weights[f], bnx.Order)))
		for _, x := range signed {
			if mod(big.NewInt(x)).Cmp(digit[f]) == 0 {
				return // an honest digit after all
			}
		}
		r, m := rnd("r"), rnd("m")
		H, G := pub.H, g2(1)
		C := lin([]*bn256.G2{G, H}, []*big.Int{big.NewInt(target), r})
		v, s, tt := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
		V, A := make([]*bn256.G2, n), make([]*bn256.GT, n)
		zsig, zv := make([]*big.Int, n), make([]*big.Int, n)
		sum := new(big.Int) // of the masks
		for i := range v {
			v[i], s[i], tt[i] = rnd("v"), rnd("s"), rnd("t")
			sum.Add(sum, new(big.Int).Mul(s[i], weights[i]))
			if i != f { // honest digits
				sig := pub.Sigs[digit[i].Int64()]
				V[i] = new(bn256.G2).ScalarMult(sig, v[i])
				A[i] = eqA(pub.Key, V[i], new(big.Int), s[i], tt[i])
			}
		}
		D := lin([]*bn256.G2{G, H}, []*big.Int{sum, m})
		identity := func() *bn256.G2 {
			x, how := bnx.Make2(c, "identity", new(big.Int))
			_ = how
			return x
		}
		var ch *big.Int
		zr := new(big.Int)
		respond := func() { // honest responses for challenge ch
			zr = mod(new(big.Int).Sub(m, new(big.Int).Mul(r, ch)))
			for i := range s {
				zsig[i] = mod(new(big.Int).Sub(s[i], new(big.Int).Mul(digit[i], ch)))
				zv[i] = mod(new(big.Int).Sub(tt[i], new(big.Int).Mul(v[i], ch)))
			}
		}
		// lastD makes equation D true.
		lastD := func() *bn256.G2 {
			z := new(big.Int)
			for i := range zsig {
				z.Add(z, new(big.Int).Mul(zsig[i], weights[i]))
			}
			return lin([]*bn256.G2{C, H, G}, []*big.Int{ch, zr, z})
		}
		lastA := func() *bn256.GT { return eqA(pub.Key, V[f], ch, zsig[f], zv[f]) }
		// late forges V[f] after the challenge: a = e(key, G)^alpha E^beta.
		late := func() {
			alpha := rnd("alpha")
			A[f] = new(bn256.GT).Add(new(bn256.GT).ScalarMult(bn256.Pair(pub.Key, G), alpha), new(bn256.GT).ScalarMult(util.E, tt[f]))
			v[f] = alpha
		}
		finishLate := func() {
			respond()
			w := mod(new(big.Int).Mul(v[f], new(big.Int).ModInverse(ch, bnx.Order)))
			V[f] = new(bn256.G2).ScalarBaseMult(w)
			zv[f] = mod(new(big.Int).Add(tt[f], new(big.Int).Mul(zsig[f], w)))
		}
		switch attack {
		case "challenge chosen first":
			V[f] = new(bn256.G2).ScalarBaseMult(v[f])
			ch = rnd("c")
			respond()
			D, A[f] = lastD(), lastA()
		case "identity V":
			// the equation for a is e(O, ...) = 1: zv = t
			V[f] = identity()
			A[f] = new(bn256.GT).ScalarMult(util.E, tt[f])
			v[f] = new(big.Int)
			ch = challenge(A, D, C, V)
			respond()
		case "identity V with random responses":
			V[f] = identity()
			v[f] = new(big.Int)
			A[f] = new(bn256.GT).ScalarMult(util.E, tt[f])
			ch = challenge(A, D, C, V)
			respond()
			zv[f] = rnd("zv")
		case "all identity":
			for i := range V {
				V[i] = identity()
				A[i] = new(bn256.GT).ScalarMult(util.E, new(big.Int))
				zsig[i], zv[i] = new(big.Int), new(big.Int)
			}
			D, C = identity(), identity()
			ch = challenge(A, D, C, V)
		case "V not in the challenge":
			late()
			some := append([]*bn256.G2{}, V...)
			for i := range missing(c, f, n) {
				some[i] = nil
			}
			ch = challenge(A, D, C, some)
			finishLate()
		case "V and C not in the challenge":
			late()
			ch = challenge(A, D, nil, nil)
			finishLate()
		case "D not in the challenge":
			// a valid signature for the forged digit's position, but D fits the target
			x0 := signed[pbt.Kind(c, "x0", len(signed))]
			V[f] = new(bn256.G2).ScalarMult(pub.Sigs[x0], v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			digit[f] = big.NewInt(x0)
			ch = challenge(A, nil, C, V)
			respond()
			D = lastD()
		case "D and V not in the challenge":
			x0 := signed[pbt.Kind(c, "x0", len(signed))]
			V[f] = new(bn256.G2).ScalarMult(pub.Sigs[x0], v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			digit[f] = big.NewInt(x0)
			ch = challenge(A, nil, C, nil)
			respond()
			D = lastD()
		case "C not in the challenge":
			// D and the responses do not fit each other: C makes up for it
			x0 := signed[pbt.Kind(c, "x0", len(signed))]
			V[f] = new(bn256.G2).ScalarMult(pub.Sigs[x0], v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			digit[f] = big.NewInt(x0)
			D = new(bn256.G2).Add(D, new(bn256.G2).ScalarBaseMult(rnd("delta")))
			ch = challenge(A, D, nil, V)
			respond()
			C = new(bn256.G2).ScalarBaseMult(new(big.Int))
			rest := new(bn256.G2).Add(D, new(bn256.G2).Neg(lastD()))
			C = new(bn256.G2).ScalarMult(rest, new(big.Int).ModInverse(ch, bnx.Order))
		case "a not in the challenge":
			V[f] = new(bn256.G2).ScalarBaseMult(v[f])
			some := append([]*bn256.GT{}, A...)
			for i := range missing(c, f, n) {
				some[i] = nil
			}
			ch = challenge(some, D, C, V)
			respond()
			for i := range A {
				A[i] = eqA(pub.Key, V[i], ch, zsig[i], zv[i])
			}
		case "challenge of nothing", "challenge of a only", "challenge of D only":
			V[f] = new(bn256.G2).ScalarBaseMult(v[f])
			A[f] = new(bn256.GT).ScalarMult(util.E, tt[f])
			switch attack {
			case "challenge of nothing":
				ch = challenge(nil, nil, nil, nil)
				respond()
				D, A[f] = lastD(), lastA()
			case "challenge of a only":
				late()
				ch = challenge(A, nil, nil, nil)
				finishLate()
				D = lastD()
			case "challenge of D only":
				ch = challenge(nil, D, nil, nil)
				respond()
				A[f] = lastA()
			}
		case "unsigned V": // a verifier that does not look at this digit's equation
			V[f] = new(bn256.G2).ScalarBaseMult(v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			ch = challenge(A, D, C, V)
			respond()
		case "signature of another digit":
			x0 := signed[pbt.Kind(c, "x0", len(signed))]
			V[f] = new(bn256.G2).ScalarMult(pub.Sigs[x0], v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			ch = challenge(A, D, C, V)
			respond()
		case "one equation only":
			// the digit's equation is true for a signed digit, the sum is not the target
			x0 := signed[pbt.Kind(c, "x0", len(signed))]
			V[f] = new(bn256.G2).ScalarMult(pub.Sigs[x0], v[f])
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			digit[f] = big.NewInt(x0)
			ch = challenge(A, D, C, V)
			respond()
		case "signature of another key":
			// a signature by a key of the prover's own
			k := rnd("key")
			inv := new(big.Int).ModInverse(mod(new(big.Int).Add(k, digit[f])), bnx.Order)
			if inv == nil {
				return
			}
			V[f] = new(bn256.G2).ScalarBaseMult(mod(new(big.Int).Mul(inv, v[f])))
			A[f] = eqA(pub.Key, V[f], new(big.Int), s[f], tt[f])
			ch = challenge(A, D, C, V)
			respond()
		}
		o, ok := e.s.Build(ccx.Parts{V: V, D: D, C: C, A: A, Zsig: zsig, Zv: zv, Ch: ch, Zr: zr})
		if !ok {
			c.Undecided("proofs cannot be built")
			return
		}
		c.Eval(fmt.Sprint(e.in, attack, target, f, r, m, v[f]))
		c.Label("attack: " + attack)
		c.Sample(map[string]any{"provable": fmt.Sprint(e.in), "target": target, "attack": attack, "forged digit": f})
		if e.s.Accepts(o) {
			c.Fatalf("forged proof accepted: %s; provable: %v, committed to %d", attack, e.in, target)
		}
	})
}

func sortInts(s []int64) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// The machinery of the attacks, used honestly, makes proofs that are accepted: the
// attacks fail because of the verifier and not because they are wrong.
func TestOwnProver(t *testing.T) {
	pbt.Check(t, 96, 1600, func(c *pbt.C) {
		e := scheme(c, true, true)
		pub, ok := e.s.Public()
		if !ok || len(pub.Sigs) == 0 {
			c.Undecided("public parameters are not found")
			return
		}
		n := e.s.Digits
		var ks []int64
		for x := range pub.Sigs {
			ks = append(ks, x)
		}
		sortInts(ks)
		G, H := g2(1), pub.H
		r, m := pbt.Uniform(c, "r", bnx.Order), pbt.Uniform(c, "m", bnx.Order)
		x, sum := new(big.Int), new(big.Int)
		p := ccx.Parts{}
		var v, s, tt, d []*big.Int
		for i := 0; i < n; i++ {
			w := new(big.Int).Exp(big.NewInt(e.s.Base), big.NewInt(int64(i)), nil)
			k := ks[pbt.Kind(c, "digit", len(ks))]
			d = append(d, big.NewInt(k))
			x.Add(x, new(big.Int).Mul(w, big.NewInt(k)))
			v = append(v, new(big.Int).Add(pbt.Uniform(c, "v", new(big.Int).Rsh(bnx.Order, 1)), big.NewInt(1)))
			s, tt = append(s, pbt.Uniform(c, "s", bnx.Order)), append(tt, pbt.Uniform(c, "t", bnx.Order))
			sum.Add(sum, new(big.Int).Mul(w, s[i]))
			p.V = append(p.V, new(bn256.G2).ScalarMult(pub.Sigs[k], v[i]))
			p.A = append(p.A, eqA(pub.Key, p.V[i], new(big.Int), s[i], tt[i]))
		}
		p.D = lin([]*bn256.G2{G, H}, []*big.Int{sum, m})
		p.C = lin([]*bn256.G2{G, H}, []*big.Int{x, r})
		// surplus elements that the challenge covers, so that all equations are true
		more := ""
		if !e.s.Set && pbt.Chance(c, "surplus elements", 50) {
			p.Zsig, p.Zv = s[:1:1], tt[:1:1]
			more = surplus(c, &p)
		}
		p.Ch = challenge(p.A, p.D, p.C, p.V)
		p.Zr = mod(new(big.Int).Sub(m, new(big.Int).Mul(r, p.Ch)))
		zs, zt := p.Zsig, p.Zv
		p.Zsig, p.Zv = nil, nil
		for i := range v {
			p.Zsig = append(p.Zsig, mod(new(big.Int).Sub(s[i], new(big.Int).Mul(d[i], p.Ch))))
			p.Zv = append(p.Zv, mod(new(big.Int).Sub(tt[i], new(big.Int).Mul(v[i], p.Ch))))
		}
		if more != "" {
			p.Zsig, p.Zv = append(p.Zsig, zs[1:]...), append(p.Zv, zt[1:]...)
		}
		o, ok := e.s.Build(p)
		if !ok {
			c.Undecided("proofs cannot be built")
			return
		}
		if more != "" {
			c.Eval(fmt.Sprint(e.in, x, r, m, more))
			c.Label("surplus elements")
			if e.s.Accepts(o) {
				c.Fatalf("a proof for %v of the range %v is accepted with surplus %s", x, e.in, more)
			}
			return
		}
		c.Eval(fmt.Sprint(e.in, x, r, m, "honest"))
		if !e.s.Accepts(o) {
			// another challenge or encoding: the attacks are less specific then
			c.Undecided("proofs of the independent prover are not accepted")
			return
		}
		c.Label("independent prover accepted")
	})
}
