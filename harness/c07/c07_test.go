package c07

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"sort"
	"strings"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/bpx"
	"verif/pbt"
	"verif/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one JSON document that the decoder accepts, decoded into a proof and verified; non-trivial = distinct document that differs from the encoding of a valid proof")
}

// Numbers for documents. Sizes between 2^20 and 2^60 are left out: a verifier may
// allocate memory for a size before it finds it unsuitable.
var numbers = []string{"0", "1", "-1", "2", "3", "4", "5", "7", "8", "15", "16", "17", "31", "32", "33", "63", "64", "65", "-2", "-8", "-32", "-64", "1024",
	"9223372036854775807", "-9223372036854775808", "4611686018427387904", "-4611686018427387904"}

func bigNumber(c *pbt.C) string {
	if pbt.Chance(c, "listed", 40) {
		return pbt.Pick(c, "number", append(numbers, ref.N.String(), ref.P.String(), "-"+ref.N.String(), ref.P.String()+"0")...)
	}
	return pbt.IntSigned(c, "number", ref.N).String()
}

type node = any

// place is one position in a document.
type place struct {
	path string
	get  func() node
	set  func(node)
	del  func()
}

func places(v node, path string, out *[]place) {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			*out = append(*out, place{path + "." + k, func() node { return x[k] }, func(n node) { x[k] = n }, func() { delete(x, k) }})
			places(x[k], path+"."+k, out)
		}
	case []any:
		for i := range x {
			i := i
			*out = append(*out, place{fmt.Sprintf("%s[%d]", path, i), func() node { return x[i] }, func(n node) { x[i] = n }, func() { x[i] = nil }})
			places(x[i], fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func parse(s string) node {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		pbt.Broken("cannot parse own document: %v", err)
	}
	return v
}

func text(v node) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	if err := e.Encode(v); err != nil {
		pbt.Broken("cannot write document: %v", err)
	}
	return strings.TrimSpace(b.String())
}

// mutate changes the document at one to four places.
func mutate(c *pbt.C, v node) string {
	what := ""
	for i, n := 0, pbt.Pick(c, "changes", 1, 1, 1, 2, 3, 4); i < n; i++ {
		var ps []place
		places(v, "", &ps)
		if len(ps) == 0 {
			break
		}
		// prefer places near the root: they are few
		var p place
		if pbt.Chance(c, "shallow", 50) {
			var sh []place
			for _, q := range ps {
				if strings.Count(q.path, ".")+strings.Count(q.path, "[") <= 2 {
					sh = append(sh, q)
				}
			}
			p = sh[pbt.Kind(c, "place", len(sh))]
		} else {
			p = ps[pbt.Kind(c, "place", len(ps))]
		}
		old := p.get()
		how := ""
		switch pbt.Kind(c, "how", 13) {
		case 0, 1:
			p.del()
			how = "deleted"
		case 2, 3:
			p.set(nil)
			how = "null"
		case 4:
			if a, ok := old.([]any); ok && len(a) > 0 {
				p.set(a[:pbt.Kind(c, "len", len(a))])
				how = "shortened"
			} else {
				p.set(json.Number(bigNumber(c)))
				how = "number"
			}
		case 5:
			if a, ok := old.([]any); ok {
				b := append([]any{}, a...)
				for k, m := 0, pbt.IntN(c, "more", 1, 3); k < m; k++ {
					if len(a) > 0 && pbt.Chance(c, "copy", 70) {
						b = append(b, a[pbt.Kind(c, "which", len(a))])
					} else {
						b = append(b, nil)
					}
				}
				p.set(b)
				how = "lengthened"
			} else {
				p.set(json.Number(bigNumber(c)))
				how = "number"
			}
		case 6:
			q := ps[pbt.Kind(c, "other", len(ps))]
			p.set(parse(text(q.get())))
			how = "copy of " + q.path
		case 7:
			if _, ok := old.([]any); ok {
				p.set([]any{})
			} else {
				p.set(map[string]any{})
			}
			how = "empty"
		case 8, 9:
			p.set(json.Number(bigNumber(c)))
			how = "number"
		case 10:
			if m, ok := old.(map[string]any); ok && m["X"] != nil && m["Y"] != nil {
				switch pbt.Kind(c, "point", 4) {
				case 0:
					m["X"], m["Y"] = m["Y"], m["X"]
				case 1:
					m["Y"] = json.Number("0")
				case 2:
					m["X"] = json.Number("0")
				case 3:
					m["X"], m["Y"] = json.Number(bigNumber(c)), json.Number(bigNumber(c))
				}
				how = "point changed"
			} else {
				p.set(map[string]any{"X": json.Number("0"), "Y": json.Number("0")})
				how = "origin"
			}
		case 11:
			p.set(map[string]any{"X": json.Number("0"), "Y": json.Number("0")})
			how = "origin"
		case 12:
			p.set(pbt.Pick[any](c, "odd", "text", true, json.Number("1.5"), json.Number("1e3"), []any{nil}, []any{}, map[string]any{"X": nil}, map[string]any{"X": json.Number("1")}))
			how = "odd"
		}
		what += p.path + " " + how + "; "
	}
	return what
}

// document generates a JSON value from the type that it will be decoded into.
func document(c *pbt.C, t reflect.Type, depth int, pool []node) node {
	if pbt.Chance(c, "null", 6) {
		return nil
	}
	switch {
	case t == reflect.TypeOf((*big.Int)(nil)):
		return json.Number(bigNumber(c))
	case t == reflect.TypeOf((*p256.P256)(nil)):
		if pbt.Chance(c, "valid point", 80) {
			return pool[pbt.Kind(c, "point", len(pool))]
		}
		return map[string]any{"X": json.Number(bigNumber(c)), "Y": json.Number(bigNumber(c))}
	case t.Kind() == reflect.Int64:
		return json.Number(pbt.Pick(c, "int", numbers...))
	case t.Kind() == reflect.Pointer:
		return document(c, t.Elem(), depth+1, pool)
	case t.Kind() == reflect.Slice:
		n := pbt.Pick(c, "len", 0, 1, 2, 2, 4, 8, 3, 1)
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, document(c, t.Elem(), depth+1, pool))
		}
		return out
	case t.Kind() == reflect.Struct:
		out := map[string]any{}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() && !pbt.Chance(c, "absent", 4) {
				out[t.Field(i).Name] = document(c, t.Field(i).Type, depth+1, pool)
			}
		}
		// sizes that fit are rare by chance
		if n, ok := out["Gg"].([]any); ok && pbt.Chance(c, "fit", 70) {
			out["N"] = json.Number(fmt.Sprint(len(n)))
			h := []any{}
			for range n {
				h = append(h, pool[pbt.Kind(c, "point", len(pool))])
			}
			out["Hh"] = h
		}
		return out
	}
	return nil
}

func pool(c *pbt.C) []node {
	p := ref.Setup(4)
	pts := []ref.Pt{ref.G, p.H, p.U, ref.G.Neg(), ref.G.Add(p.H), p.Gg[0], p.Gg[1], p.Hh[0], p.Hh[1], ref.O}
	var out []node
	for _, q := range pts {
		x, y := "0", "0"
		if !q.Inf {
			x, y = q.X.String(), q.Y.String()
		}
		out = append(out, map[string]any{"X": json.Number(x), "Y": json.Number(y)})
	}
	return out
}

// missing says why a decoded range proof must not be accepted.
func missing(p *bp.BulletProof) string {
	for _, s := range append(bpx.Slots(p), bpx.Generators(p)...) {
		if s.Pt != nil {
			if *s.Pt == nil {
				return s.Name + " is missing"
			}
			if !valid(*s.Pt) {
				return s.Name + " is not on the curve"
			}
		} else if *s.Sc == nil {
			return s.Name + " is missing"
		}
	}
	n := p.Params.N
	switch n {
	case 1, 2, 4, 8, 16, 32:
	default:
		return fmt.Sprintf("size %d", n)
	}
	k := bits.TrailingZeros64(uint64(n))
	if len(p.Params.Gg) != int(n) || len(p.Params.Hh) != int(n) || len(p.InnerProductProof.Ls) != k || len(p.InnerProductProof.Rs) != k {
		return "unsuitable lengths"
	}
	return ""
}

func valid(p *p256.P256) bool {
	if (p.X == nil) != (p.Y == nil) {
		return false
	}
	if p.X == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return true
	}
	x, y := new(big.Int).Mod(p.X, ref.P), new(big.Int).Mod(p.Y, ref.P)
	return ref.Pt{X: x, Y: y}.OnCurve()
}

// sameElements compares what a verifier relies on.
func sameElements(p, q *bp.BulletProof) bool {
	a, b := append(bpx.Slots(p), bpx.Generators(p)...), append(bpx.Slots(q), bpx.Generators(q)...)
	if len(a) != len(b) || p.Params.N != q.Params.N {
		return false
	}
	for i := range a {
		if a[i].Pt != nil && (*a[i].Pt == nil || *b[i].Pt == nil) || a[i].Sc != nil && (*a[i].Sc == nil || *b[i].Sc == nil) {
			return false
		}
		if !bpx.SameSlot(a[i], b[i]) {
			return false
		}
	}
	return true
}

// decide verifies a decoded proof: it must return, and may accept only if why is empty.
func decide(c *pbt.C, doc string, verify func() (bool, error), why func() string) {
	var ok bool
	var err error
	if p, st := pbt.Guard(func() { ok, err = verify() }); p != nil {
		c.Fatalf("verification panics: %v\ndocument: %s\n%s", p, pbt.Clip(doc, 4000), st)
	}
	if ok {
		c.Label("accepted")
		if w := why(); w != "" {
			c.Fatalf("accepted (error %v) although %s\ndocument: %s", err, w, pbt.Clip(doc, 4000))
		}
	} else if err != nil {
		c.Label("error")
	} else {
		c.Label("rejected")
	}
}

func honest(c *pbt.C, n int) bp.BulletProof {
	p, err := bp.Prove(bpx.InRange(c, "v", n), bpx.Params(c, n))
	if err != nil {
		c.Fatalf("Prove: %v", err)
	}
	return p
}

func TestMutatedProof(t *testing.T) {
	pbt.Check(t, 1600, 60000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 2, 4, 8)
		p := honest(c, n)
		enc := bpx.JSON(c, p)
		for i, k := 0, pbt.IntN(c, "documents", 4, 12); i < k; i++ {
			v := parse(enc)
			what := mutate(c, v)
			doc := text(v)
			var q bp.BulletProof
			if err := json.Unmarshal([]byte(doc), &q); err != nil {
				c.Label("not decodable")
				continue
			}
			c.Eval(doc)
			c.Sample(map[string]any{"n": n, "changes": what})
			decide(c, doc, q.Verify, func() string {
				if w := missing(&q); w != "" {
					return w
				}
				if !sameElements(&p, &q) {
					return "elements were changed: " + what
				}
				return ""
			})
		}
	})
}

func TestGeneratedProof(t *testing.T) {
	typ := reflect.TypeOf(bp.BulletProof{})
	pbt.Check(t, 2400, 90000, func(c *pbt.C) {
		pts := pool(c)
		doc := text(document(c, typ, 0, pts))
		if pbt.Chance(c, "setup", 70) { // with the generators of a setup
			n := pbt.Pick(c, "n", 1, 2, 4)
			v := parse(doc)
			if m, ok := v.(map[string]any); ok {
				m["Params"] = parse(bpx.JSON(c, bpx.Params(c, n)))
				doc = text(v)
			}
		}
		var q bp.BulletProof
		if err := json.Unmarshal([]byte(doc), &q); err != nil {
			c.Label("not decodable")
			return
		}
		c.Eval(doc)
		c.Sample(map[string]any{"document": pbt.Clip(doc, 300)})
		decide(c, doc, q.Verify, func() string {
			if w := missing(&q); w != "" {
				return w
			}
			return "it is random"
		})
	})
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 40, 1200, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -100, 100))
		b := a + int64(pbt.IntN(c, "w", 2, 1000))
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		p, err := bp.ProveGeneric(big.NewInt(a), params)
		if err != nil {
			c.Fatalf("ProveGeneric: %v", err)
		}
		enc := bpx.JSON(c, p)
		for i := 0; i < 6; i++ {
			v := parse(enc)
			what := mutate(c, v)
			doc := text(v)
			var q bp.ProofBPRP
			if err := json.Unmarshal([]byte(doc), &q); err != nil {
				c.Label("not decodable")
				continue
			}
			c.Eval(doc)
			c.Sample(map[string]any{"generic": fmt.Sprintf("[%d,%d)", a, b), "changes": what})
			decide(c, doc, q.Verify, func() string {
				for _, h := range []*bp.BulletProof{&q.P1, &q.P2} {
					if w := missing(h); w != "" {
						return w
					}
				}
				if !sameElements(&p.P1, &q.P1) || !sameElements(&p.P2, &q.P2) {
					return "elements were changed: " + what
				}
				if q.B-q.A != p.B-p.A { // shifting both ends is the same statement
					return "the interval was changed"
				}
				return ""
			})
		}
	})
}

// Malformed halves are found without the cost of valid ones.
func TestGeneratedGeneric(t *testing.T) {
	typ := reflect.TypeOf(bp.ProofBPRP{})
	pbt.Check(t, 240, 9000, func(c *pbt.C) {
		doc := text(document(c, typ, 0, pool(c)))
		var q bp.ProofBPRP
		if err := json.Unmarshal([]byte(doc), &q); err != nil {
			return
		}
		c.Eval(doc)
		decide(c, doc, q.Verify, func() string { return "it is random" })
	})
}

func ipMissing(p *bp.InnerProductProof) string {
	n := p.N
	if n <= 0 || n&(n-1) != 0 {
		return fmt.Sprintf("size %d", n)
	}
	k := bits.TrailingZeros64(uint64(n))
	if int64(len(p.Params.Gg)) != n || int64(len(p.Params.Hh)) != n || len(p.Ls) != k || len(p.Rs) != k {
		return "unsuitable lengths"
	}
	pts := map[string][]*p256.P256{"L": p.Ls, "R": p.Rs, "generator g": p.Params.Gg, "generator h": p.Params.Hh, "U": {p.U}, "P": {p.Params.P}}
	for name, l := range pts {
		for _, q := range l {
			if q == nil {
				return name + " is missing"
			}
			if !valid(q) {
				return name + " is not on the curve"
			}
		}
	}
	if p.A == nil || p.B == nil {
		return "A or B is missing"
	}
	return ""
}

// The proof of the inner product argument, also on its own.
func TestInnerProduct(t *testing.T) {
	typ := reflect.TypeOf(bp.InnerProductProof{})
	pbt.Check(t, 1600, 60000, func(c *pbt.C) {
		var docs []string
		if pbt.Chance(c, "generated", 40) {
			v := document(c, typ, 0, pool(c))
			if m, ok := v.(map[string]any); ok && pbt.Chance(c, "rounds fit", 60) {
				pm, _ := m["Params"].(map[string]any)
				g, _ := pm["Gg"].([]any)
				if len(g) > 0 {
					m["N"] = json.Number(fmt.Sprint(len(g)))
					k := bits.Len(uint(len(g))) - 1
					for _, f := range []string{"Ls", "Rs"} {
						l := []any{}
						for i := 0; i < k; i++ {
							l = append(l, pool(c)[pbt.Kind(c, "round", 10)])
						}
						m[f] = l
					}
				}
			}
			docs = append(docs, text(v))
		} else {
			p := honest(c, pbt.Pick(c, "n", 1, 2, 4, 8))
			enc := bpx.JSON(c, p.InnerProductProof)
			for i, k := 0, pbt.IntN(c, "documents", 3, 8); i < k; i++ {
				if pbt.Chance(c, "lengths", 20) {
					q := bpx.Clone(p.InnerProductProof)
					bpx.Misfit(c, &q)
					docs = append(docs, bpx.JSON(c, q))
					continue
				}
				v := parse(enc)
				mutate(c, v)
				docs = append(docs, text(v))
			}
		}
		for _, doc := range docs {
			var q bp.InnerProductProof
			if err := json.Unmarshal([]byte(doc), &q); err != nil {
				c.Label("not decodable")
				continue
			}
			c.Eval(doc)
			c.Label("inner product document")
			decide(c, doc, q.Verify, func() string { return ipMissing(&q) })
		}
	})
}

// Bytes of the encoding are changed. Most results are not decodable.
func TestBytes(t *testing.T) {
	pbt.Check(t, 600, 30000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4)
		p := honest(c, n)
		enc := bpx.JSON(c, p)
		for i := 0; i < 6; i++ {
			b := []byte(enc)
			for j, k := 0, pbt.IntN(c, "edits", 1, 3); j < k; j++ {
				at := pbt.Kind(c, "at", len(b))
				switch pbt.Kind(c, "edit", 4) {
				case 0:
					b[at] = "0123456789-null{}[],:\"XYN"[pbt.Kind(c, "byte", 25)]
				case 1:
					m := pbt.Kind(c, "cut", 40)
					if at+m < len(b) {
						b = append(b[:at], b[at+m:]...)
					}
				case 2:
					if b[at] >= '0' && b[at] <= '9' {
						b[at] = byte('0' + pbt.Kind(c, "digit", 10))
					}
				case 3: // a key is renamed
					if b[at] >= 'A' && b[at] <= 'Z' {
						b[at] = byte('A' + pbt.Kind(c, "letter", 26))
					}
				}
			}
			var q bp.BulletProof
			if bytes.Equal(b, []byte(enc)) || json.Unmarshal(b, &q) != nil {
				continue
			}
			c.Eval(string(b))
			c.Label("edited bytes")
			decide(c, string(b), q.Verify, func() string {
				if w := missing(&q); w != "" {
					return w
				}
				if !sameElements(&p, &q) {
					return "elements were changed"
				}
				return ""
			})
		}
	})
}
