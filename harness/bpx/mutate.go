package bpx

import (
	"fmt"
	"math/big"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/pbt"
	"verif/ref"
)

// Slot is one element of a proof that matters to a verifier.
type Slot struct {
	Name string
	Pt   **p256.P256
	Sc   **big.Int
}

// Slots lists all elements of a proof: messages, responses and generators. The
// elements of the inner product proof that a verifier recomputes are not listed.
func Slots(p *bp.BulletProof) []Slot {
	s := []Slot{
		{"V", &p.V, nil}, {"A", &p.A, nil}, {"S", &p.S, nil}, {"T1", &p.T1, nil}, {"T2", &p.T2, nil}, {"Commit", &p.Commit, nil},
		{"Taux", nil, &p.Taux}, {"Mu", nil, &p.Mu}, {"Tprime", nil, &p.Tprime},
		{"IP.A", nil, &p.InnerProductProof.A}, {"IP.B", nil, &p.InnerProductProof.B},
	}
	for i := range p.InnerProductProof.Ls {
		s = append(s, Slot{fmt.Sprintf("L%d", i), &p.InnerProductProof.Ls[i], nil})
	}
	for i := range p.InnerProductProof.Rs {
		s = append(s, Slot{fmt.Sprintf("R%d", i), &p.InnerProductProof.Rs[i], nil})
	}
	return s
}

// Generators lists the generators a proof carries.
func Generators(p *bp.BulletProof) []Slot {
	s := []Slot{{"G", &p.Params.G, nil}, {"H", &p.Params.H, nil}}
	for i := range p.Params.Gg {
		s = append(s, Slot{fmt.Sprintf("Gg%d", i), &p.Params.Gg[i], nil})
	}
	for i := range p.Params.Hh {
		s = append(s, Slot{fmt.Sprintf("Hh%d", i), &p.Params.Hh[i], nil})
	}
	return s
}

// NewPoint draws a point different in value from old.
func NewPoint(c *pbt.C, old *p256.P256, others []*p256.P256) (*p256.P256, string) {
	o := Ref(old)
	var n ref.Pt
	how := ""
	switch pbt.Kind(c, "pt", 11) {
	case 0:
		n, how = o.Neg(), "negated"
	case 1:
		n, how = o.Add(ref.G), "plus G"
	case 2:
		n, how = o.Add(ref.Setup(1).H), "plus H"
	case 3:
		n, how = o.Add(o), "doubled"
	case 4:
		n, how = ref.O, "identity (nil)"
	case 5:
		n, how = ref.G.Mul(pbt.Uniform(c, "pt.k", Order)), "random multiple of G"
	case 6:
		n, how = ref.G, "G"
	case 7:
		if len(others) > 0 {
			n, how = Ref(others[pbt.Kind(c, "pt.o", len(others))]), "another element"
		} else {
			n, how = o.Neg(), "negated"
		}
	case 8: // not on the curve
		if o.Inf {
			return &p256.P256{X: big.NewInt(1), Y: big.NewInt(1)}, "off the curve"
		}
		return &p256.P256{X: new(big.Int).Set(o.X), Y: new(big.Int).Xor(o.Y, new(big.Int).Lsh(big.NewInt(1), uint(pbt.Kind(c, "pt.bit", 256))))}, "ordinate bit flipped"
	case 9:
		if !o.Inf {
			return &p256.P256{X: new(big.Int), Y: new(big.Int)}, "identity (0,0)"
		}
		n, how = ref.G, "G"
	case 10:
		n, how = o.Mul(big.NewInt(int64(pbt.IntN(c, "pt.m", 2, 9)))), "small multiple"
	}
	if n.Eq(o) {
		n, how = o.Add(ref.G), how+", was equal: plus G"
	}
	return Lib(n), how
}

// NewScalar draws a scalar different from old modulo the order.
func NewScalar(c *pbt.C, old *big.Int, others []*big.Int) (*big.Int, string) {
	n, how := new(big.Int), ""
	switch pbt.Kind(c, "sc", 10) {
	case 0:
		n.Add(old, big.NewInt(1))
		how = "+1"
	case 1:
		n.Sub(old, big.NewInt(1))
		how = "-1"
	case 2:
		n.Neg(old)
		how = "negated"
	case 3:
		n.Sub(Order, old)
		how = "negated modulo the order"
	case 4:
		how = "zero"
	case 5:
		n = pbt.Uniform(c, "sc.u", Order)
		how = "random"
	case 6:
		n.Xor(old, new(big.Int).Lsh(big.NewInt(1), uint(pbt.Kind(c, "sc.bit", 256))))
		how = "bit flipped"
	case 7:
		if len(others) > 0 {
			n.Set(others[pbt.Kind(c, "sc.o", len(others))])
		}
		how = "another element"
	case 8:
		n.Add(old, new(big.Int).Lsh(big.NewInt(1), 256))
		how = "plus 2^256"
	case 9:
		n = pbt.IntSigned(c, "sc.i", Order)
		how = "any integer"
	}
	d := new(big.Int).Sub(n, old)
	if d.Mod(d, Order).Sign() == 0 {
		n.Add(old, big.NewInt(1))
		how += ", was equal: +1"
	}
	return n, how
}

// SameSlot compares values.
func SameSlot(a, b Slot) bool {
	if a.Pt != nil {
		return Ref(*a.Pt).Eq(Ref(*b.Pt))
	}
	d := new(big.Int).Sub(*a.Sc, *b.Sc)
	return d.Mod(d, Order).Sign() == 0
}

// Copy sets a to the value of b.
func (a Slot) Copy(b Slot) {
	if a.Pt != nil {
		*a.Pt = Lib(Ref(*b.Pt))
	} else {
		*a.Sc = new(big.Int).Set(*b.Sc)
	}
}

// Mutate changes one element of p and says how.
func Mutate(c *pbt.C, p *bp.BulletProof) string {
	slots := Slots(p)
	gens := false
	if pbt.Chance(c, "gens", 15) {
		slots, gens = Generators(p), true
	}
	var pts []*p256.P256
	var scs []*big.Int
	for _, s := range append(Slots(p), Generators(p)...) {
		if s.Pt != nil {
			pts = append(pts, *s.Pt)
		} else {
			scs = append(scs, *s.Sc)
		}
	}
	s := slots[pbt.Kind(c, "slot", len(slots))]
	_ = gens
	if s.Pt != nil {
		n, how := NewPoint(c, *s.Pt, pts)
		*s.Pt = n
		return s.Name + " " + how
	}
	n, how := NewScalar(c, *s.Sc, scs)
	*s.Sc = n
	return s.Name + " " + how
}

// Reshape changes order, number or size of the elements.
func Reshape(c *pbt.C, p *bp.BulletProof) string {
	ip := &p.InnerProductProof
	k := len(ip.Ls)
	var done string
	swap := func(a []*p256.P256, i, j int, what string) {
		if Ref(a[i]).Eq(Ref(a[j])) {
			return
		}
		a[i], a[j] = a[j], a[i]
		done = fmt.Sprintf("%s: %d and %d exchanged", what, i, j)
	}
	switch pbt.Kind(c, "shape", 13) {
	case 0:
		if k > 1 {
			i := pbt.Kind(c, "i", k-1)
			swap(ip.Ls, i, i+1, "Ls")
		}
	case 1:
		if k > 1 {
			i := pbt.Kind(c, "i", k-1)
			swap(ip.Rs, i, i+1, "Rs")
		}
	case 2:
		if k > 1 {
			i := pbt.Kind(c, "i", k-1)
			swap(ip.Ls, i, i+1, "Ls")
			swap(ip.Rs, i, i+1, "Ls and Rs")
		}
	case 3:
		if k > 0 {
			ip.Ls, ip.Rs = ip.Rs, ip.Ls
			done = "Ls and Rs exchanged"
		}
	case 4:
		if k > 0 {
			ip.Ls = ip.Ls[:k-1]
			done = "last L dropped"
		}
	case 5:
		if k > 0 {
			ip.Ls, ip.Rs = ip.Ls[:k-1], ip.Rs[:k-1]
			done = "last round dropped"
		}
	case 6:
		ip.Ls, ip.Rs = append(ip.Ls, Lib(ref.O)), append(ip.Rs, Lib(ref.O))
		done = "identity round added"
	case 7:
		ip.Ls, ip.Rs = append([]*p256.P256{Lib(ref.G)}, ip.Ls...), append([]*p256.P256{Lib(ref.G)}, ip.Rs...)
		done = "round added in front"
	case 8:
		old := p.Params.N
		n := pbt.Pick(c, "N", int64(0), 1, 2, 3, 4, 8, 16, 32, 64, -1, -old, old+1, old/2, 2*old)
		if n != old {
			p.Params.N = n
			done = fmt.Sprintf("N changed from %d to %d", old, n)
		}
	case 9:
		if n := len(p.Params.Gg); n > 1 {
			swap(p.Params.Gg, pbt.Kind(c, "i", n-1), n-1, "Gg")
		}
	case 10:
		if n := len(p.Params.Hh); n > 1 {
			swap(p.Params.Hh, pbt.Kind(c, "i", n-1), n-1, "Hh")
		}
	case 11:
		p.Params.Gg, p.Params.Hh = p.Params.Hh, p.Params.Gg
		done = "Gg and Hh exchanged"
	case 12:
		p.Params.G, p.Params.H = p.Params.H, p.Params.G
		done = "G and H exchanged"
	}
	return done
}

// Misfit gives the lists of a valid inner product argument lengths that do not fit
// together, such that the equation for the elements which count stays true.
func Misfit(c *pbt.C, p *bp.InnerProductProof) string {
	other := func() *p256.P256 { return Lib(ref.G.Mul(big.NewInt(int64(pbt.IntN(c, "other", 2, 1000))))) }
	// between puts other generators between those of the argument
	between := func(l []*p256.P256) (m []*p256.P256) {
		for _, x := range l {
			m = append(m, x, other())
		}
		return m
	}
	switch pbt.Kind(c, "misfit", 7) {
	case 0:
		p.Params.Gg, p.Params.Hh = between(p.Params.Gg), between(p.Params.Hh)
		p.N *= 2
		p.Params.N = p.N
		return "a round is missing"
	case 1:
		p.Params.Gg, p.Params.Hh = between(p.Params.Gg), between(p.Params.Hh)
		return "generators in between"
	case 2:
		p.Params.Gg, p.Params.Hh = append(p.Params.Gg, other()), append(p.Params.Hh, other())
		return "generators behind"
	case 3:
		if pbt.Chance(c, "which", 50) {
			p.Params.Gg = append(p.Params.Gg, other())
		} else {
			p.Params.Hh = append(p.Params.Hh, other())
		}
		return "a generator of one list behind"
	case 4:
		p.Rs = append(p.Rs, other())
		return "a point R behind"
	case 5:
		p.Ls = append(p.Ls, other())
		return "a point L behind"
	}
	d := pbt.Pick(c, "size", int64(-1), 1, p.N, -2*p.N, -p.N)
	p.N += d
	return "another size"
}
