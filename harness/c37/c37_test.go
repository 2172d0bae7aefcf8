package c37

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one object encoded, the text carried in one of several ways, decoded and compared element by element; non-trivial = distinct (text of the object, way)")
}

var (
	bigT   = reflect.TypeOf((*big.Int)(nil))
	pointT = reflect.TypeOf((*p256.P256)(nil))
)

// same compares values: points and numbers by value, lists by length and elements.
func same(a, b reflect.Value, path string) string {
	if a.Type() == pointT {
		pa, pb := a.Interface().(*p256.P256), b.Interface().(*p256.P256)
		if (pa == nil) != (pb == nil) || !bpx.Ref(pa).Eq(bpx.Ref(pb)) {
			return fmt.Sprintf("%s: %v became %v", path, pa, pb)
		}
		return ""
	}
	if a.Type() == bigT {
		x, y := a.Interface().(*big.Int), b.Interface().(*big.Int)
		if (x == nil) != (y == nil) || x != nil && x.Cmp(y) != 0 {
			return fmt.Sprintf("%s: %v became %v", path, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v became nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return same(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.IsExported() {
				if d := same(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
					return d
				}
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d became %d", path, a.Int(), b.Int())
		}
	}
	return ""
}

// Points: small multiples, among them those with short coordinates, and their opposites.
var points = func() (r []ref.Pt) {
	p := ref.O
	for i := 0; i < 1200; i++ {
		p = p.Add(ref.G)
		if i < 20 || p.X.BitLen() <= 248 || p.Y.BitLen() <= 248 {
			r = append(r, p, p.Neg())
		}
	}
	return r
}()

func number(c *pbt.C) *big.Int {
	switch pbt.Kind(c, "num.kind", 6) {
	case 0:
		return big.NewInt(int64(pbt.IntN(c, "num", 0, 300)))
	case 1: // around the limits of numbers in JSON and machine words
		x := new(big.Int).Lsh(big.NewInt(1), uint(pbt.Pick(c, "num.w", 31, 32, 52, 53, 54, 62, 63, 64, 127, 128, 248, 255)))
		return x.Add(x, big.NewInt(int64(pbt.IntN(c, "num.d", -2, 2))))
	case 2:
		return new(big.Int).Sub(bpx.Order, big.NewInt(int64(pbt.IntN(c, "num.d", 1, 3))))
	case 3:
		return pbt.Int(c, "num", bpx.Order)
	}
	return pbt.Uniform(c, "num", bpx.Order)
}

// fill gives every exported element of a value some content.
func fill(c *pbt.C, v reflect.Value, absent int) {
	if v.Type() == pointT {
		switch {
		case pbt.Chance(c, "absent", absent):
		case pbt.Chance(c, "infinity", 8):
			v.Set(reflect.ValueOf(new(p256.P256).SetInfinity()))
		default:
			v.Set(reflect.ValueOf(bpx.Lib(points[pbt.Kind(c, "point", len(points))])))
		}
		return
	}
	if v.Type() == pointT.Elem() {
		v.Set(reflect.ValueOf(*bpx.Lib(points[pbt.Kind(c, "point", len(points))])))
		return
	}
	if v.Type() == bigT {
		if !pbt.Chance(c, "absent", absent) {
			v.Set(reflect.ValueOf(number(c)))
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(c, v.Field(i), absent)
			}
		}
	case reflect.Slice:
		if pbt.Chance(c, "absent", absent) {
			return
		}
		k := pbt.IntN(c, "len", 0, 5)
		if pbt.Chance(c, "longer", 4) {
			k = pbt.IntN(c, "len", 6, 80)
		}
		v.Set(reflect.MakeSlice(v.Type(), k, k))
		for i := 0; i < k; i++ {
			fill(c, v.Index(i), 0)
		}
	case reflect.Int64:
		v.SetInt(pbt.Pick(c, "int64", int64(0), 1, 2, -1, 32, -18, 1<<53+1, -1<<53-1, 1<<63-1, -1<<63, 1<<32,
			int64(pbt.IntN(c, "int", -1000, 1000))))
	}
}

// shuffled writes a document again with other spacing and its members in reverse order.
func shuffled(c *pbt.C, text []byte) []byte {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var out bytes.Buffer
	var value func()
	value = func() {
		t, err := dec.Token()
		if err != nil {
			c.Fatalf("the encoding is not valid JSON: %v\n%s", err, text)
		}
		switch t {
		case json.Delim('['):
			out.WriteString("[ ")
			for i := 0; dec.More(); i++ {
				if i > 0 {
					out.WriteString(" ,\n")
				}
				value()
			}
			dec.Token()
			out.WriteString("\t]")
		case json.Delim('{'):
			var parts []string
			for dec.More() {
				k, _ := dec.Token()
				kb, _ := json.Marshal(k)
				start := out.Len()
				value()
				parts = append(parts, string(kb)+" : "+string(out.Bytes()[start:]))
				out.Truncate(start)
			}
			dec.Token()
			out.WriteString("{\n")
			for i := len(parts) - 1; i >= 0; i-- {
				out.WriteString(parts[i])
				if i > 0 {
					out.WriteString(", ")
				}
			}
			out.WriteString(" }")
		default:
			b, _ := json.Marshal(t)
			out.Write(b)
		}
	}
	value()
	return out.Bytes()
}

type box[T any] struct {
	Before int
	X      T
	P      *T
	After  string
}

// carry transports a value in one of several ways; the decoded value is returned.
func carry[T any](c *pbt.C, v T, old T) (T, string) {
	enc := func(x any) []byte {
		b, err := json.Marshal(x)
		if err != nil {
			c.Fatalf("cannot encode %T: %v", x, err)
		}
		return b
	}
	dec := func(b []byte, x any) {
		if err := json.Unmarshal(b, x); err != nil {
			c.Fatalf("cannot decode %T: %v\n%s", x, err, pbt.Clip(string(b), 2000))
		}
	}
	var w T
	how := pbt.Pick(c, "how", "plain", "pointer", "list", "member", "pointer member", "map", "other layout", "indented", "over another", "stream", "twice")
	switch how {
	case "plain":
		dec(enc(v), &w)
	case "pointer":
		dec(enc(&v), &w)
	case "list":
		var l []T
		dec(enc([]T{old, v, old}), &l)
		if len(l) != 3 {
			c.Fatalf("3 list elements became %d", len(l))
		}
		w = l[1]
	case "member":
		var b box[T]
		dec(enc(box[T]{1, v, &old, "x"}), &b)
		w = b.X
	case "pointer member":
		var b box[T]
		dec(enc(&box[T]{1, old, &v, "x"}), &b)
		if b.P != nil { // a nil pointer is lost in a pointer to it
			w = *b.P
		}
	case "map":
		var m map[string]T
		dec(enc(map[string]T{"a": old, "b": v}), &m)
		w = m["b"]
	case "other layout":
		dec(shuffled(c, enc(v)), &w)
	case "indented":
		b, err := json.MarshalIndent(v, "  ", "\t")
		if err != nil {
			c.Fatalf("cannot encode %T: %v", v, err)
		}
		dec(b, &w)
	case "over another":
		w = bpx.Clone(old)
		dec(enc(v), &w)
	case "stream":
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		for _, x := range []T{old, v, old} {
			if err := e.Encode(x); err != nil {
				c.Fatalf("cannot encode %T: %v", v, err)
			}
		}
		d := json.NewDecoder(io.MultiReader(&b))
		var x, y T
		if err := d.Decode(&x); err != nil {
			c.Fatalf("cannot decode %T: %v", v, err)
		}
		if err := d.Decode(&w); err != nil {
			c.Fatalf("cannot decode %T: %v", v, err)
		}
		if err := d.Decode(&y); err != nil {
			c.Fatalf("cannot decode %T: %v", v, err)
		}
	case "twice":
		var x T
		dec(enc(v), &x)
		dec(enc(x), &w)
	}
	return w, how
}

// one carries v (old is another value of the same type) and compares.
func one[T any](c *pbt.C, v, old T) (T, string) {
	keep := bpx.Clone(v)
	before := bpx.JSON(c, v)
	w, how := carry(c, v, old)
	rv := func(x *T) reflect.Value { return reflect.ValueOf(x).Elem() }
	if d := same(rv(&keep), rv(&w), fmt.Sprintf("%T", v)); d != "" {
		c.Fatalf("transport (%s): %s", how, d)
	}
	if d := same(rv(&keep), rv(&v), fmt.Sprintf("%T", v)); d != "" {
		c.Fatalf("transport (%s) changed the original: %s", how, d)
	}
	if after := bpx.JSON(c, w); after != before {
		c.Fatalf("transport (%s): the text changed from\n%s\nto\n%s", how, pbt.Clip(before, 3000), pbt.Clip(after, 3000))
	}
	c.Label(how)
	c.Label(fmt.Sprintf("%T", v))
	c.Eval(how + before)
	c.Sample(map[string]any{"how": how, "type": fmt.Sprintf("%T", v), "text": pbt.Clip(before, 300)})
	return w, how
}

func filled[T any](c *pbt.C) {
	absent := pbt.Pick(c, "absent.rate", 0, 0, 0, 10, 40)
	var v, old T
	fill(c, reflect.ValueOf(&v).Elem(), absent)
	if pbt.Chance(c, "old", 70) {
		fill(c, reflect.ValueOf(&old).Elem(), 0)
	}
	one(c, v, old)
}

func TestContents(t *testing.T) {
	pbt.Check(t, 6000, 200000, func(c *pbt.C) {
		switch pbt.Kind(c, "type", 7) {
		case 0:
			filled[p256.P256](c)
		case 1:
			filled[*p256.P256](c)
		case 2:
			filled[bp.InnerProductParams](c)
		case 3:
			filled[bp.InnerProductProof](c)
		case 4:
			filled[bp.BulletProofSetupParams](c)
		case 5:
			filled[bp.BulletProof](c)
		case 6:
			filled[bp.ProofBPRP](c)
		}
	})
}

// Proofs and parameters of the library keep their value and the answer of their verifier.
func TestProofs(t *testing.T) {
	pbt.Check(t, 400, 10000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8, 2, 4, 8, 16)
		params := bpx.Params(c, n)
		make := func(v *big.Int) bp.BulletProof {
			tape := c.Tape(pbt.SeedOf(c, "seed"))
			if pbt.Chance(c, "odd", 40) {
				bpx.OddTape(c, tape, 5+2*n)
			}
			p, err := bp.Prove(v, params)
			if err != nil {
				c.Fatalf("Prove(%v) failed: %v", v, err)
			}
			return p
		}
		v := bpx.InRange(c, "v", n)
		p, old := make(v), make(bpx.InRange(c, "old", n))
		if pbt.Chance(c, "altered", 30) {
			p = bpx.Clone(p) // it shares generators with the parameters
			bpx.Mutate(c, &p)
			c.Label("altered")
		}
		ok, err := p.Verify()
		q, how := one(c, p, old)
		ok2, err2 := q.Verify()
		if ok != ok2 || (err == nil) != (err2 == nil) {
			c.Fatalf("n=%d v=%v: verification answers %v (%v) before and %v (%v) after transport (%s)", n, v, ok, err, ok2, err2, how)
		}
		one(c, p.InnerProductProof, old.InnerProductProof)
		// parameters that were carried are as good as the original
		params, _ = one(c, params, bpx.Params(c, 2))
		r := make(v)
		if ok, err := r.Verify(); !ok {
			c.Fatalf("n=%d v=%v: proof with carried parameters rejected: %v", n, v, err)
		}
	})
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 16, 600, func(c *pbt.C) {
		a := pbt.Pick(c, "a", int64(0), -1, -1<<63+1<<33, 1<<53+1, 18, int64(pbt.IntN(c, "a.n", -100, 100)))
		w := int64(pbt.IntN(c, "width", 1, 1000))
		params, err := bp.SetupGeneric(a, a+w)
		if err != nil {
			c.Fatalf("SetupGeneric failed: %v", err)
		}
		x := a + int64(pbt.IntN(c, "x", -1, int(w)))
		c.Tape(pbt.SeedOf(c, "seed"))
		p, err := bp.ProveGeneric(big.NewInt(x), params)
		if err != nil {
			c.Fatalf("ProveGeneric failed: %v", err)
		}
		q, how := one(c, p, bp.ProofBPRP{A: 5, B: 9})
		ok, _ := q.Verify()
		if ok != (x >= a && x < a+w) {
			c.Fatalf("[%d, %d): proof for %d: verification answers %v after transport (%s)", a, a+w, x, ok, how)
		}
	})
}
