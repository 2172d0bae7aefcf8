package c29

import (
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one vector operation compared with its componentwise definition, arguments compared with copies; non-trivial = distinct (operation, arguments) with at least one component")
}

func length(c *pbt.C, label string) int {
	if pbt.Chance(c, label+".longer", 2) {
		return pbt.IntN(c, label, 41, 300)
	}
	if pbt.Chance(c, label+".long", 10) {
		return pbt.IntN(c, label, 11, 40)
	}
	return pbt.IntN(c, label, 0, 10)
}

func vector(c *pbt.C, label string, n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		if i > 0 && pbt.Chance(c, label+".same", 10) {
			v[i] = v[pbt.Kind(c, label+".of", i)] // same object
			continue
		}
		v[i] = pbt.IntSigned(c, label, ref.N)
	}
	return v
}

func texts(v []*big.Int) string { return fmt.Sprint(v) }

func canonical(x *big.Int) bool { return x != nil && x.Sign() >= 0 && x.Cmp(ref.N) < 0 }

// guarded calls f and reports panics.
func guarded(c *pbt.C, what string, f func()) {
	if p, st := pbt.Guard(f); p != nil {
		c.Fatalf("%s panics: %v\n%s", what, p, st)
	}
}

func TestScalars(t *testing.T) {
	pbt.Check(t, 60000, 600000, func(c *pbt.C) {
		n := length(c, "n")
		m := n
		if pbt.Chance(c, "mismatch", 25) {
			m = length(c, "m")
		}
		a, b := vector(c, "a", n), vector(c, "b", m)
		if m == n && pbt.Chance(c, "same slice", 10) {
			b = a
		}
		k := pbt.IntSigned(c, "k", ref.N)
		ta, tb, tk := texts(a), texts(b), k.String()
		op := pbt.Pick(c, "op", "VectorAdd", "VectorSub", "VectorMul", "VectorScalarMul", "ScalarProduct")
		what := fmt.Sprintf("%s(%s, %s; %s)", op, ta, tb, tk)
		var got []*big.Int
		var err error
		var f func(i int) *big.Int
		binary := true
		guarded(c, what, func() {
			switch op {
			case "VectorAdd":
				got, err = bp.VectorAdd(a, b)
				f = func(i int) *big.Int { return new(big.Int).Add(a[i], b[i]) }
			case "VectorSub":
				got, err = bp.VectorSub(a, b)
				f = func(i int) *big.Int { return new(big.Int).Sub(a[i], b[i]) }
			case "VectorMul":
				got, err = bp.VectorMul(a, b)
				f = func(i int) *big.Int { return new(big.Int).Mul(a[i], b[i]) }
			case "VectorScalarMul":
				binary = false
				got, err = bp.VectorScalarMul(a, k)
				f = func(i int) *big.Int { return new(big.Int).Mul(a[i], k) }
			case "ScalarProduct":
				var s *big.Int
				s, err = bp.ScalarProduct(a, b)
				got = []*big.Int{s}
			}
		})
		if texts(a) != ta || texts(b) != tb || k.String() != tk {
			c.Fatalf("%s changed its arguments to %v, %v; %v", what, a, b, k)
		}
		c.Label(op)
		if binary && n != m {
			if err == nil {
				c.Fatalf("%s: lengths differ, no error", what)
			}
			c.Label("different lengths")
			c.Eval(what)
			return
		}
		if err != nil {
			c.Fatalf("%s fails: %v", what, err)
		}
		if op == "ScalarProduct" {
			want := new(big.Int)
			for i := range a {
				want.Add(want, new(big.Int).Mul(a[i], b[i]))
			}
			want.Mod(want, ref.N)
			if !canonical(got[0]) || got[0].Cmp(want) != 0 {
				c.Fatalf("%s = %v, expected %v", what, got[0], want)
			}
		} else {
			if len(got) != n {
				c.Fatalf("%s has %d components", what, len(got))
			}
			for i := range got {
				want := f(i)
				want.Mod(want, ref.N)
				if !canonical(got[i]) || got[i].Cmp(want) != 0 {
					c.Fatalf("%s: component %d is %v, expected %v", what, i, got[i], want)
				}
			}
		}
		// The results belong to the caller.
		for _, g := range got {
			g.SetInt64(77).Lsh(g, 100)
		}
		if texts(a) != ta || texts(b) != tb || k.String() != tk {
			c.Fatalf("%s shares storage with its arguments", what)
		}
		key := ""
		if n > 0 {
			key = what
		}
		c.Eval(key)
		c.Sample(map[string]any{"call": pbt.Clip(what, 200)})
	})
}

func TestPowersAndCopies(t *testing.T) {
	pbt.Check(t, 30000, 300000, func(c *pbt.C) {
		n := length(c, "n")
		x := pbt.IntSigned(c, "x", ref.N)
		tx := x.String()
		var got []*big.Int
		var err error
		var want []*big.Int
		op := pbt.Pick(c, "op", "powerOf", "VectorCopy", "VectorConvertToBig", "IsPowerOfTwo")
		what := ""
		switch op {
		case "powerOf":
			what = fmt.Sprintf("powerOf(%s, %d)", tx, n)
			guarded(c, what, func() { got = bp.VerifPowerOf(x, int64(n)) })
			p := big.NewInt(1)
			for i := 0; i < n; i++ {
				want = append(want, new(big.Int).Mod(p, ref.N))
				p = new(big.Int).Mul(p, x)
			}
		case "VectorCopy":
			what = fmt.Sprintf("VectorCopy(%s, %d)", tx, n)
			guarded(c, what, func() { got, err = bp.VectorCopy(x, int64(n)) })
			for i := 0; i < n; i++ {
				want = append(want, x)
			}
		case "VectorConvertToBig":
			a := make([]int64, n)
			for i := range a {
				a[i] = pbt.Int64N(c, "a", -1<<63, 1<<63-1)
			}
			m := n
			if pbt.Chance(c, "prefix", 20) {
				m = pbt.IntN(c, "m", 0, n)
			}
			what = fmt.Sprintf("VectorConvertToBig(%v, %d)", a, m)
			ta := fmt.Sprint(a)
			guarded(c, what, func() { got, err = bp.VectorConvertToBig(a, int64(m)) })
			if fmt.Sprint(a) != ta {
				c.Fatalf("%s changed its argument to %v", what, a)
			}
			for _, v := range a[:m] {
				want = append(want, big.NewInt(v))
			}
		case "IsPowerOfTwo":
			v := pbt.Int64N(c, "v", -1<<63, 1<<63-1)
			if pbt.Chance(c, "near", 70) {
				v = int64(1)<<uint(pbt.IntN(c, "e", 0, 63)) + int64(pbt.IntN(c, "d", -1, 1))
			}
			yes := false
			for e := uint(0); e < 63; e++ {
				yes = yes || v == int64(1)<<e
			}
			if bp.IsPowerOfTwo(v) != yes {
				c.Fatalf("IsPowerOfTwo(%d) = %v", v, !yes)
			}
			c.Label(op)
			c.Eval(fmt.Sprint(v))
			return
		}
		if err != nil {
			c.Fatalf("%s fails: %v", what, err)
		}
		if x.String() != tx {
			c.Fatalf("%s changed its argument to %v", what, x)
		}
		if len(got) != len(want) {
			c.Fatalf("%s has %d components", what, len(got))
		}
		for i := range got {
			if got[i] == nil || got[i].Cmp(want[i]) != 0 {
				c.Fatalf("%s: component %d is %v, expected %v", what, i, got[i], want[i])
			}
		}
		c.Label(op)
		key := ""
		if len(want) > 0 {
			key = what
		}
		c.Eval(key)
		c.Sample(map[string]any{"call": pbt.Clip(what, 200)})
	})
}

// points draws points with known discrete logarithms, with many coincidences.
func points(c *pbt.C, label string, n int) ([]*p256.P256, []ref.Pt) {
	var lib []*p256.P256
	var mod []ref.Pt
	for i := 0; i < n; i++ {
		var r ref.Pt
		switch pbt.Kind(c, label+".kind", 8) {
		case 0:
			r = ref.O
		case 1:
			r = ref.G.Mul(big.NewInt(int64(pbt.IntN(c, label, -4, 4))))
		case 2, 3:
			if i > 0 {
				r = mod[pbt.Kind(c, label+".of", i)]
				if pbt.Chance(c, label+".neg", 50) {
					r = r.Neg()
				}
				break
			}
			fallthrough
		default:
			r = ref.G.Mul(pbt.Uniform(c, label, ref.N))
		}
		l := bpx.Lib(r)
		if r.Inf && pbt.Chance(c, label+".form", 50) {
			l = &p256.P256{X: new(big.Int), Y: new(big.Int)}
		}
		lib, mod = append(lib, l), append(mod, r)
	}
	return lib, mod
}

func unchanged(lib []*p256.P256, mod []ref.Pt) bool {
	if len(lib) != len(mod) {
		return false
	}
	for i := range lib {
		if !bpx.Ref(lib[i]).Eq(mod[i]) {
			return false
		}
	}
	return true
}

func TestPoints(t *testing.T) {
	pbt.Check(t, 7200, 60000, func(c *pbt.C) {
		n := pbt.IntN(c, "n", 0, 6)
		if pbt.Chance(c, "longer", 3) {
			n = pbt.IntN(c, "n", 7, 70)
		}
		m := n
		if pbt.Chance(c, "mismatch", 25) {
			m = pbt.IntN(c, "m", 0, 6)
		}
		a, ra := points(c, "a", n)
		op := pbt.Pick(c, "op", "VectorExp", "VectorECAdd", "commitInnerProduct")
		switch op {
		case "VectorExp":
			k := vector(c, "k", m)
			tk := texts(k)
			what := fmt.Sprintf("VectorExp(%v, %s)", ra, tk)
			var got *p256.P256
			var err error
			guarded(c, what, func() { got, err = bp.VectorExp(a, k) })
			if texts(k) != tk || !unchanged(a, ra) {
				c.Fatalf("%s changed its arguments", what)
			}
			if n != m {
				if err == nil {
					c.Fatalf("%s: lengths differ, no error", what)
				}
				c.Label("different lengths")
			} else {
				if want := ref.Sum(ra, k); err != nil || !bpx.Ref(got).Eq(want) {
					c.Fatalf("%s = %v (%v), expected %v", what, bpx.Ref(got), err, want)
				}
				for _, p := range a {
					if p == got {
						c.Fatalf("%s returns one of its arguments", what)
					}
				}
			}
			c.Eval(what)
			c.Sample(map[string]any{"op": op, "n": n, "m": m})
		case "VectorECAdd":
			b, rb := points(c, "b", m)
			if n == m && n > 0 && pbt.Chance(c, "related", 40) {
				i := pbt.Kind(c, "i", n)
				rb[i] = ra[i]
				if pbt.Chance(c, "opposite", 50) {
					rb[i] = ra[i].Neg()
				}
				b[i] = bpx.Lib(rb[i])
			}
			what := fmt.Sprintf("VectorECAdd(%v, %v)", ra, rb)
			var got []*p256.P256
			var err error
			guarded(c, what, func() { got, err = bp.VectorECAdd(a, b) })
			if !unchanged(a, ra) || !unchanged(b, rb) {
				c.Fatalf("%s changed its arguments", what)
			}
			if n != m {
				if err == nil {
					c.Fatalf("%s: lengths differ, no error", what)
				}
				c.Label("different lengths")
			} else {
				if err != nil || len(got) != n {
					c.Fatalf("%s: %d components, %v", what, len(got), err)
				}
				for i := range got {
					if want := ra[i].Add(rb[i]); !bpx.Ref(got[i]).Eq(want) {
						c.Fatalf("%s: component %d is %v, expected %v", what, i, bpx.Ref(got[i]), want)
					}
				}
			}
			c.Eval(what)
			c.Sample(map[string]any{"op": op, "n": n, "m": m})
		case "commitInnerProduct":
			h, rh := points(c, "h", n)
			x, y := vector(c, "x", n), vector(c, "y", n)
			tx, ty := texts(x), texts(y)
			what := fmt.Sprintf("commitInnerProduct(%v, %v, %s, %s)", ra, rh, tx, ty)
			var got *p256.P256
			guarded(c, what, func() { got = bp.VerifCommitInnerProduct(a, h, x, y) })
			if want := ref.Sum(ra, x).Add(ref.Sum(rh, y)); !bpx.Ref(got).Eq(want) {
				c.Fatalf("%s = %v, expected %v", what, bpx.Ref(got), want)
			}
			if texts(x) != tx || texts(y) != ty || !unchanged(a, ra) || !unchanged(h, rh) {
				c.Fatalf("%s changed its arguments", what)
			}
			c.Eval(what)
		}
		c.Label(op)
	})
}
