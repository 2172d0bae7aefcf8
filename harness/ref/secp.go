// Package ref holds independent models: the curve secp256k1 in plain affine
// arithmetic, the Bulletproofs protocol, and the twist curve of bn256.
package ref

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

func hexInt(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant")
	}
	return x
}

// Parameters of secp256k1 (SEC 2, section 2.4.1).
var (
	P  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	gx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	gy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

// Pt is an affine point; Inf is the identity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

// G is the base point, O the identity.
var (
	G = Pt{X: gx, Y: gy}
	O = Pt{Inf: true}
)

// Eq tells whether two points are equal.
func (p Pt) Eq(q Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func (p Pt) String() string {
	if p.Inf {
		return "O"
	}
	return "(" + p.X.Text(16) + "," + p.Y.Text(16) + ")"
}

// OnCurve checks y^2 = x^3 + 7 and that the coordinates are reduced.
func (p Pt) OnCurve() bool {
	if p.Inf {
		return true
	}
	if p.X == nil || p.Y == nil || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Exp(p.X, big.NewInt(3), P)
	r.Add(r, big.NewInt(7))
	l.Sub(l, r)
	return l.Mod(l, P).Sign() == 0
}

// Neg returns -p.
func (p Pt) Neg() Pt {
	if p.Inf {
		return p
	}
	return Pt{X: new(big.Int).Set(p.X), Y: new(big.Int).Sub(P, p.Y)}
}

// Add is the textbook affine addition with all its special cases.
func (p Pt) Add(q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, P).Sign() == 0 {
			return O
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	den.Mod(den, P)
	den.ModInverse(den, P)
	l := num.Mul(num, den)
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, P)
	return Pt{X: x, Y: y}
}

// fe is an element of the field, little endian, below 2^256 (not always below P).
type fe [4]uint64

const fold = 0x1000003D1 // 2^256 - P

func toFe(x *big.Int) (r fe) {
	var b [32]byte
	x.FillBytes(b[:])
	for i := range r {
		r[i] = binary.BigEndian.Uint64(b[24-8*i:])
	}
	return
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := range a {
		binary.BigEndian.PutUint64(b[24-8*i:], a[i])
	}
	x := new(big.Int).SetBytes(b[:])
	return x.Mod(x, P)
}

func (a fe) addSmall(hi, lo uint64) (r fe, carry uint64) {
	r[0], carry = bits.Add64(a[0], lo, 0)
	r[1], carry = bits.Add64(a[1], hi, carry)
	r[2], carry = bits.Add64(a[2], 0, carry)
	r[3], carry = bits.Add64(a[3], 0, carry)
	return
}

func (a fe) mul(b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, t[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[i+j], c = lo, hi
		}
		t[i+4] = c
	}
	// t[0..3] + fold * t[4..7]
	var r fe
	var c uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[i+4], fold)
		var k uint64
		lo, k = bits.Add64(lo, t[i], 0)
		hi += k
		lo, k = bits.Add64(lo, c, 0)
		hi += k
		r[i], c = lo, hi
	}
	for c != 0 {
		hi, lo := bits.Mul64(c, fold)
		r, c = r.addSmall(hi, lo)
	}
	return r
}

func (a fe) add(b fe) (r fe) {
	var c uint64
	for i := range r {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	for c != 0 {
		r, c = r.addSmall(0, fold)
	}
	return
}

func (a fe) sub(b fe) (r fe) {
	var c uint64
	for i := range r {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	for c != 0 { // add P, that is subtract fold
		r[0], c = bits.Sub64(r[0], fold, 0)
		r[1], c = bits.Sub64(r[1], 0, c)
		r[2], c = bits.Sub64(r[2], 0, c)
		r[3], c = bits.Sub64(r[3], 0, c)
	}
	return
}

var feP = toFe(P)

func (a fe) zero() bool { return a == fe{} || a == feP }

// jac is a point (X/Z^2, Y/Z^3), used for speed in scalar multiplication only.
type jac struct{ x, y, z fe }

var jacO = jac{fe{1}, fe{1}, fe{}}

func (j jac) double() jac {
	if j.z.zero() || j.y.zero() {
		return jacO
	}
	// dbl-2009-l
	a := j.x.mul(j.x)
	b := j.y.mul(j.y)
	c := b.mul(b)
	d := j.x.add(b)
	d = d.mul(d).sub(a).sub(c)
	d = d.add(d)
	e := a.add(a).add(a)
	x := e.mul(e).sub(d).sub(d)
	c = c.add(c)
	c = c.add(c)
	c = c.add(c)
	y := e.mul(d.sub(x)).sub(c)
	z := j.y.mul(j.z)
	return jac{x, y, z.add(z)}
}

type aff struct {
	x, y fe
	inf  bool
}

func (p Pt) aff() aff {
	if p.Inf {
		return aff{inf: true}
	}
	return aff{x: toFe(p.X), y: toFe(p.Y)}
}

// addAffine adds an affine point, falling back to the affine formulas where the
// mixed formulas do not apply.
func (j jac) addAffine(q aff) jac {
	if q.inf {
		return j
	}
	if j.z.zero() {
		return jac{q.x, q.y, fe{1}}
	}
	zz := j.z.mul(j.z)
	u := q.x.mul(zz).sub(j.x)
	if u.zero() {
		p := j.affine().Add(Pt{X: q.x.big(), Y: q.y.big()})
		if p.Inf {
			return jacO
		}
		return jac{toFe(p.X), toFe(p.Y), fe{1}}
	}
	s := q.y.mul(zz).mul(j.z).sub(j.y)
	uu := u.mul(u)
	uuu := uu.mul(u)
	v := uu.mul(j.x)
	x := s.mul(s).sub(uuu).sub(v).sub(v)
	y := s.mul(v.sub(x)).sub(uuu.mul(j.y))
	return jac{x, y, j.z.mul(u)}
}

func (j jac) affine() Pt {
	if j.z.zero() {
		return O
	}
	zi := toFe(new(big.Int).ModInverse(j.z.big(), P))
	z2 := zi.mul(zi)
	return Pt{X: j.x.mul(z2).big(), Y: j.y.mul(z2).mul(zi).big()}
}

// Mul returns k*p for any integer k.
func (p Pt) Mul(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	if k.Sign() == 0 || p.Inf {
		return O
	}
	j, q := jacO, p.aff()
	for i := k.BitLen() - 1; i >= 0; i-- {
		j = j.double()
		if k.Bit(i) == 1 {
			j = j.addAffine(q)
		}
	}
	return j.affine()
}

// Sum returns the sum of k[i]*p[i].
func Sum(p []Pt, k []*big.Int) Pt {
	// Simultaneous double and add.
	j := jacO
	q := make([]aff, len(p))
	ks := make([]*big.Int, len(k))
	bits := 0
	for i := range k {
		ks[i], q[i] = new(big.Int).Mod(k[i], N), p[i].aff()
		if l := ks[i].BitLen(); l > bits {
			bits = l
		}
	}
	for b := bits - 1; b >= 0; b-- {
		j = j.double()
		for i := range ks {
			if ks[i].Bit(b) == 1 {
				j = j.addAffine(q[i])
			}
		}
	}
	return j.affine()
}

// Lift returns the point with the given abscissa and parity, if there is one.
func Lift(x *big.Int, odd bool) (Pt, bool) {
	x = new(big.Int).Mod(x, P)
	f := new(big.Int).Exp(x, big.NewInt(3), P)
	f.Add(f, big.NewInt(7)).Mod(f, P)
	e := new(big.Int).Add(P, big.NewInt(1))
	e.Rsh(e, 2)
	y := new(big.Int).Exp(f, e, P)
	if new(big.Int).Exp(y, big.NewInt(2), P).Cmp(f) != 0 {
		return O, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return Pt{X: x, Y: y}, true
}
