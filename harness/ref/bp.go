package ref

import (
	"crypto/sha256"
	"math/big"
	"strconv"
	"sync"
)

// Seeds of the generators (documented constants of the protocol).
const (
	SeedH = "BulletproofsDoesNotNeedTrustedSetupH"
	SeedU = "BulletproofsDoesNotNeedTrustedSetupU"
)

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, N) }
func mul(x, y *big.Int) *big.Int {
	return mod(new(big.Int).Mul(x, y))
}
func add(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return mod(r)
}
func sub(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y)) }
func inv(x *big.Int) *big.Int    { return new(big.Int).ModInverse(mod(x), N) }
func num(x int64) *big.Int       { return big.NewInt(x) }

// Signed reads a big-endian two's complement number.
func Signed(b []byte) *big.Int {
	x := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] >= 128 {
		x.Sub(x, new(big.Int).Lsh(num(1), uint(8*len(b))))
	}
	return x
}

// HashToPoint is the try-and-increment construction: the first counter i such
// that SHA-256(i || m), as a signed number modulo P, is the abscissa of a point;
// the ordinate is f^((P+1)/4).
func HashToPoint(m string) (Pt, int) {
	for i := 0; i < 256; i++ {
		h := sha256.Sum256([]byte(strconv.Itoa(i) + m))
		x := Signed(h[:])
		x.Mod(x, P)
		f := new(big.Int).Exp(x, num(3), P)
		f.Add(f, num(7)).Mod(f, P)
		e := new(big.Int).Add(P, num(1))
		e.Rsh(e, 2)
		y := new(big.Int).Exp(f, e, P)
		if new(big.Int).Exp(y, num(2), P).Cmp(f) == 0 {
			return Pt{X: x, Y: y}, i
		}
	}
	return O, 256
}

// Params are the generators for N-bit proofs.
type Params struct {
	N      int
	H, U   Pt
	Gg, Hh []Pt
}

var (
	cached   = map[string]Pt{}
	cachedMu sync.Mutex
)

func cachedPoint(m string) Pt {
	cachedMu.Lock()
	defer cachedMu.Unlock()
	p, ok := cached[m]
	if !ok {
		p, _ = HashToPoint(m)
		cached[m] = p
	}
	return p
}

// Setup computes the generators from their labels.
func Setup(n int) Params {
	p := Params{N: n, H: cachedPoint(SeedH), U: cachedPoint(SeedU)}
	for i := 0; i < n; i++ {
		p.Gg = append(p.Gg, cachedPoint(SeedH+"g"+string(rune(i))))
		p.Hh = append(p.Hh, cachedPoint(SeedH+"h"+string(rune(i))))
	}
	return p
}

// IPProof is the inner product argument.
type IPProof struct {
	Ls, Rs []Pt
	A, B   *big.Int
}

// Proof is a range proof.
type Proof struct {
	N                       int
	V, A, S, T1, T2, Commit Pt
	Taux, Mu, Tprime        *big.Int
	IP                      IPProof
}

func coord(p Pt) string {
	if p.Inf {
		return "00"
	}
	return p.X.String() + p.Y.String()
}

// Challenges2 derives two challenges from points.
func Challenges2(ps ...Pt) (*big.Int, *big.Int) {
	s := ""
	for _, p := range ps {
		s += coord(p)
	}
	h1 := sha256.Sum256([]byte(s))
	r1 := new(big.Int).SetBytes(h1[:])
	h2 := sha256.Sum256([]byte(s + r1.String()))
	return r1, new(big.Int).SetBytes(h2[:])
}

// YZ are the challenges after A and S, X the one after T1 and T2.
func YZ(A, S, V Pt) (y, z *big.Int) { return Challenges2(A, S, V) }

// X is the evaluation challenge.
func X(T1, T2, A, S, V Pt) *big.Int { x, _ := Challenges2(T1, T2, A, S, V); return x }

func text(p Pt) string {
	if p.Inf {
		return "P256(0,0)"
	}
	return "P256(" + p.X.String() + "," + p.Y.String() + ")"
}

// HashIP binds the statement of the inner product argument.
func HashIP(g, h []Pt, com Pt, c *big.Int) *big.Int {
	s := text(com)
	for i := range g {
		s += text(g[i]) + text(h[i])
	}
	s += c.String()
	d := sha256.Sum256([]byte(s))
	return Signed(d[:])
}

// Powers returns 1, x, x^2, ...
func Powers(x *big.Int, n int) []*big.Int {
	r := make([]*big.Int, n)
	c := num(1)
	for i := range r {
		r[i] = c
		c = mul(c, x)
	}
	return r
}

// Inner is the inner product modulo N.
func Inner(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return r.Mod(r, N)
}

// Weights are the factors with which the protocol combines its constraints: Y(y, i) for
// digit i (by default y^i), Z2(y, z) for the value (by default z^2).
type Weights struct {
	Y  func(y *big.Int, i int) *big.Int
	Z2 func(y, z *big.Int) *big.Int
}

func (w Weights) ys(y *big.Int, n int) []*big.Int {
	if w.Y == nil {
		return Powers(y, n)
	}
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = w.Y(y, i)
	}
	return r
}

func (w Weights) z2(y, z *big.Int) *big.Int {
	if w.Z2 == nil {
		return mul(z, z)
	}
	return w.Z2(y, z)
}

// HPrime is h_i^(y^-i).
func HPrime(h []Pt, y *big.Int) []Pt { return Weights{}.HPrime(h, y) }

func (w Weights) HPrime(h []Pt, y *big.Int) []Pt {
	r := make([]Pt, len(h))
	if w.Y == nil {
		p := Powers(inv(y), len(h))
		for i := range h {
			r[i] = h[i].Mul(p[i])
		}
		return r
	}
	for i, k := range w.ys(y, len(h)) {
		r[i] = h[i].Mul(inv(k))
	}
	return r
}

// VecCommit is the sum of g[i]*a[i] + h[i]*b[i].
func VecCommit(g, h []Pt, a, b []*big.Int) Pt {
	return Sum(append(append([]Pt{}, g...), h...), append(append([]*big.Int{}, a...), b...))
}

// ProveIP makes the inner product argument for vectors a and b, commitment com and
// claimed inner product c (which the prover may choose freely).
func ProveIP(g, h []Pt, U, com Pt, c *big.Int, a, b []*big.Int) IPProof {
	u := U.Mul(HashIP(g, h, com, c))
	return ProveIPWith(g, h, u, com.Add(u.Mul(c)), a, b)
}

// ProveIPWith runs the recursion for given elements u and p.
func ProveIPWith(g, h []Pt, u, p Pt, a, b []*big.Int) IPProof {
	var pr IPProof
	g, h = append([]Pt{}, g...), append([]Pt{}, h...)
	a, b = append([]*big.Int{}, a...), append([]*big.Int{}, b...)
	for n := len(a); n > 1; n = len(a) {
		m := n / 2
		L := Sum(append(append(append([]Pt{}, g[m:]...), h[:m]...), u), append(append(append([]*big.Int{}, a[:m]...), b[m:]...), Inner(a[:m], b[m:])))
		R := Sum(append(append(append([]Pt{}, g[:m]...), h[m:]...), u), append(append(append([]*big.Int{}, a[m:]...), b[:m]...), Inner(a[m:], b[:m])))
		pr.Ls, pr.Rs = append(pr.Ls, L), append(pr.Rs, R)
		x, _ := Challenges2(L, R, p)
		xi := inv(x)
		p = Sum([]Pt{p, L, R}, []*big.Int{num(1), mul(x, x), mul(xi, xi)})
		ng, nh := make([]Pt, m), make([]Pt, m)
		na, nb := make([]*big.Int, m), make([]*big.Int, m)
		for i := 0; i < m; i++ {
			ng[i] = Sum([]Pt{g[i], g[m+i]}, []*big.Int{xi, x})
			nh[i] = Sum([]Pt{h[i], h[m+i]}, []*big.Int{x, xi})
			na[i] = add(mul(a[i], x), mul(a[m+i], xi))
			nb[i] = add(mul(b[i], xi), mul(b[m+i], x))
		}
		g, h, a, b = ng, nh, na, nb
	}
	pr.A, pr.B = mod(a[0]), mod(b[0])
	return pr
}

// VerifyIP checks the argument for commitment com and claimed inner product c.
func VerifyIP(g, h []Pt, U, com Pt, c *big.Int, pr IPProof) bool {
	x := HashIP(g, h, com, c)
	u := U.Mul(x)
	return VerifyIPWith(g, h, u, com.Add(u.Mul(c)), pr)
}

// VerifyIPWith checks the unrolled equation
// g^(s a) h^(s^-1 b) u^(ab) = P . prod L^(x^2) R^(x^-2).
// The challenge of a round depends on L, R and the right hand side so far.
func VerifyIPWith(g, h []Pt, u, p Pt, pr IPProof) bool {
	n, k := len(g), len(pr.Ls)
	if len(pr.Rs) != k || 1<<uint(k) != n || len(h) != n || pr.A == nil || pr.B == nil {
		return false
	}
	pts := []Pt{u}
	exp := []*big.Int{mul(pr.A, pr.B)}
	xs := make([]*big.Int, k)
	q := p
	for j := range xs {
		xs[j], _ = Challenges2(pr.Ls[j], pr.Rs[j], q)
		x2 := mul(xs[j], xs[j])
		q = Sum([]Pt{q, pr.Ls[j], pr.Rs[j]}, []*big.Int{num(1), x2, inv(x2)})
		pts = append(pts, pr.Ls[j], pr.Rs[j])
		exp = append(exp, sub(num(0), x2), sub(num(0), inv(x2)))
	}
	for i := 0; i < n; i++ {
		s := num(1)
		for j := 0; j < k; j++ {
			// bit (k-1-j) of i says whether i is in the upper half in round j
			if i>>uint(k-1-j)&1 == 1 {
				s = mul(s, xs[j])
			} else {
				s = mul(s, inv(xs[j]))
			}
		}
		pts = append(pts, g[i], h[i])
		exp = append(exp, mul(s, pr.A), mul(inv(s), pr.B))
	}
	return Sum(pts, exp).Eq(p)
}

// FitU is the u with which the rounds and the final values of pr are an
// argument for p. The final values must not be zero.
func FitU(g, h []Pt, p Pt, pr IPProof) Pt {
	n, k := len(g), len(pr.Ls)
	xs := make([]*big.Int, k)
	q := p
	for j := range xs {
		xs[j], _ = Challenges2(pr.Ls[j], pr.Rs[j], q)
		x2 := mul(xs[j], xs[j])
		q = Sum([]Pt{q, pr.Ls[j], pr.Rs[j]}, []*big.Int{num(1), x2, inv(x2)})
	}
	for i := 0; i < n; i++ {
		s := num(1)
		for j := 0; j < k; j++ {
			if i>>uint(k-1-j)&1 == 1 {
				s = mul(s, xs[j])
			} else {
				s = mul(s, inv(xs[j]))
			}
		}
		q = Sum([]Pt{q, g[i], h[i]}, []*big.Int{num(1), sub(num(0), mul(s, pr.A)), sub(num(0), mul(inv(s), pr.B))})
	}
	return q.Mul(inv(mul(pr.A, pr.B)))
}

// Delta is (z - z^2) <1, y^n> - z^3 <1, 2^n>.
func Delta(n int, y, z *big.Int) *big.Int { return Weights{}.Delta(n, y, z) }

func (w Weights) Delta(n int, y, z *big.Int) *big.Int {
	sy, s2 := new(big.Int), new(big.Int)
	for _, p := range w.ys(y, n) {
		sy.Add(sy, p)
	}
	for _, p := range Powers(num(2), n) {
		s2.Add(s2, p)
	}
	return sub(mul(sub(z, mul(z, z)), sy), mul(mul(w.z2(y, z), z), s2))
}

// Witness are the secret values of a prover. AL and AR need not be bits.
type Witness struct {
	V, Gamma             *big.Int
	AL, AR, SL, SR       []*big.Int
	Alpha, Rho, Tau1, T2 *big.Int
}

// Bits of v and bits minus one.
func Bits(v *big.Int, n int) (al, ar []*big.Int) {
	v = new(big.Int).Mod(v, new(big.Int).Lsh(num(1), uint(n)))
	for i := 0; i < n; i++ {
		b := int64(v.Bit(i))
		al, ar = append(al, num(b)), append(ar, num(b-1))
	}
	return
}

// Commit is g^v h^gamma.
func (p Params) Commit(v, gamma *big.Int) Pt {
	return Sum([]Pt{G, p.H}, []*big.Int{v, gamma})
}

// Poly are the polynomials l(X) = L0 + L1 X and r(X) = R0 + R1 X and the
// coefficients of their inner product.
type Poly struct {
	L0, L1, R0, R1 []*big.Int
	T0, T1, T2     *big.Int
}

// Polynomials of the protocol for given challenges.
func Polynomials(w Witness, y, z *big.Int) Poly { return Weights{}.Polynomials(w, y, z) }

func (ws Weights) Polynomials(w Witness, y, z *big.Int) Poly {
	n := len(w.AL)
	yn, tn := ws.ys(y, n), Powers(num(2), n)
	z2 := ws.z2(y, z)
	var q Poly
	for i := 0; i < n; i++ {
		q.L0 = append(q.L0, sub(w.AL[i], z))
		q.L1 = append(q.L1, mod(w.SL[i]))
		q.R0 = append(q.R0, add(mul(yn[i], add(w.AR[i], z)), mul(z2, tn[i])))
		q.R1 = append(q.R1, mul(yn[i], w.SR[i]))
	}
	q.T0 = Inner(q.L0, q.R0)
	q.T1 = add(Inner(q.L0, q.R1), Inner(q.L1, q.R0))
	q.T2 = Inner(q.L1, q.R1)
	return q
}

// At evaluates the vectors l and r.
func (q Poly) At(x *big.Int) (l, r []*big.Int) {
	for i := range q.L0 {
		l = append(l, add(q.L0[i], mul(q.L1[i], x)))
		r = append(r, add(q.R0[i], mul(q.R1[i], x)))
	}
	return
}

// AS are the commitments to the bits and to the blinding vectors.
func (p Params) AS(w Witness) (A, S Pt) {
	A = VecCommit(p.Gg, p.Hh, w.AL, w.AR).Add(p.H.Mul(w.Alpha))
	S = VecCommit(p.Gg, p.Hh, w.SL, w.SR).Add(p.H.Mul(w.Rho))
	return
}

// Prove follows the paper (pages 19 and 20) with the inner product argument of
// section 4.2.
func (p Params) Prove(w Witness) Proof {
	pr := Proof{N: p.N, V: p.Commit(w.V, w.Gamma)}
	pr.A, pr.S = p.AS(w)
	y, z := YZ(pr.A, pr.S, pr.V)
	q := Polynomials(w, y, z)
	pr.T1, pr.T2 = p.Commit(q.T1, w.Tau1), p.Commit(q.T2, w.T2)
	x := X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
	l, r := q.At(x)
	pr.Tprime = Inner(l, r)
	pr.Taux = add(mul(w.T2, mul(x, x)), mul(w.Tau1, x), mul(mul(z, z), w.Gamma))
	pr.Mu = add(w.Alpha, mul(w.Rho, x))
	hp := HPrime(p.Hh, y)
	pr.Commit = VecCommit(p.Gg, hp, l, r)
	pr.IP = ProveIP(p.Gg, hp, p.U, pr.Commit, pr.Tprime, l, r)
	return pr
}

// Verifier lets single checks be weakened, to show that an attack is a real one.
type Verifier struct {
	Weights
	YZ           func(pr Proof) (y, z *big.Int)
	X            func(pr Proof) *big.Int
	Any65, Any67 bool // do not check the equation
	Sign67       bool // accept the equation up to sign
	AnyIP        bool
}

// Challenges of a proof under this verifier.
func (k Verifier) Challenges(pr Proof) (y, z, x *big.Int) {
	if k.YZ != nil {
		y, z = k.YZ(pr)
	} else {
		y, z = YZ(pr.A, pr.S, pr.V)
	}
	if k.X != nil {
		x = k.X(pr)
	} else {
		x = X(pr.T1, pr.T2, pr.A, pr.S, pr.V)
	}
	return
}

// Verify checks equations (65), (66/67) and the inner product argument.
func (p Params) Verify(pr Proof) (c65, c67, ip bool) { return p.VerifyAs(Verifier{}, pr) }

// RHS67 is A + x S - z g + h'^(z y^n + z^2 2^n), which must be Commit + mu H.
func (p Params) RHS67(A, S Pt, x, y, z *big.Int) Pt { return p.rhs67(Weights{}, A, S, x, y, z) }

func (p Params) rhs67(w Weights, A, S Pt, x, y, z *big.Int) Pt {
	z2 := w.z2(y, z)
	yn, tn := w.ys(y, p.N), Powers(num(2), p.N)
	pts := []Pt{A, S}
	exp := []*big.Int{num(1), x}
	for i := 0; i < p.N; i++ {
		pts = append(pts, p.Gg[i], p.Hh[i])
		exp = append(exp, sub(num(0), z), add(z, mul(inv(yn[i]), mul(z2, tn[i]))))
	}
	return Sum(pts, exp)
}

// VerifyAs runs a possibly weakened verifier.
func (p Params) VerifyAs(k Verifier, pr Proof) (c65, c67, ip bool) {
	if pr.N != p.N {
		return
	}
	y, z, x := k.Challenges(pr)
	lhs := p.Commit(pr.Tprime, pr.Taux)
	rhs := Sum([]Pt{pr.V, G, pr.T1, pr.T2}, []*big.Int{k.z2(y, z), k.Delta(p.N, y, z), x, mul(x, x)})
	c65 = k.Any65 || lhs.Eq(rhs)

	r := p.rhs67(k.Weights, pr.A, pr.S, x, y, z)
	l := pr.Commit.Add(p.H.Mul(pr.Mu))
	c67 = k.Any67 || r.Eq(l) || k.Sign67 && r.Eq(l.Neg())
	ip = k.AnyIP || VerifyIP(p.Gg, k.HPrime(p.Hh, y), p.U, pr.Commit, pr.Tprime, pr.IP)
	return
}

// Arithmetic modulo the group order for the attacks.
func Add(xs ...*big.Int) *big.Int { return add(xs...) }
func Sub(x, y *big.Int) *big.Int  { return sub(x, y) }
func Mul(xs ...*big.Int) *big.Int {
	r := num(1)
	for _, x := range xs {
		r = mul(r, x)
	}
	return r
}
func Inv(x *big.Int) *big.Int { return inv(x) }
func Neg(x *big.Int) *big.Int { return sub(num(0), x) }
func Num(x int64) *big.Int    { return num(x) }
