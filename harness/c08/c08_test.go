package c08

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/bpx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one step of a generated history of verifications, encodings, decodings and copies of several proofs sharing parameters, after which every proof and all parameters are compared with their state at the start; non-trivial = distinct (history, step) that verifies a proof which was verified before or follows another operation")
}

// item is something that can be verified, with the state it must keep.
type item struct {
	name   string
	verify func() string // answer, as text
	state  func() string // everything observable
	answer string        // first answer
	start  string
	others map[string]func()
}

func answer(ok bool, err error, p any) string {
	if p != nil {
		return "panic" // crashes are the subject of C07; a repeated crash is no change
	}
	return fmt.Sprintf("%v %v", ok, err != nil)
}

func run(f func() (bool, error)) string {
	var ok bool
	var err error
	p, _ := pbt.Guard(func() { ok, err = f() })
	return answer(ok, err, p)
}

// history applies operations to the items and checks all of them after each step.
func history(c *pbt.C, items []*item, steps int) {
	for _, it := range items {
		it.start = it.state()
	}
	done := ""
	for i := 0; i < steps; i++ {
		it := items[pbt.Kind(c, "item", len(items))]
		var names []string
		for _, n := range []string{"encode", "copy", "decode", "print", "operate"} {
			if it.others[n] != nil {
				names = append(names, n)
			}
		}
		op := "verify"
		if len(names) > 0 && pbt.Chance(c, "other operation", 35) {
			op = names[pbt.Kind(c, "op", len(names))]
			it.others[op]()
		} else {
			a := it.verify()
			if it.answer == "" {
				it.answer = a
			} else if it.answer != a {
				c.Fatalf("%s: first answer %q, now %q, after: %s", it.name, it.answer, a, done)
			}
		}
		key := ""
		if done != "" {
			key = fmt.Sprint(done, op, it.name, len(items), it.start)
		}
		done += op + " " + it.name + "; "
		c.Eval(key)
		c.Label(op)
		for _, o := range items {
			if s := o.state(); s != o.start {
				c.Fatalf("%s changed by: %s\nbefore: %s\nafter:  %s", o.name, done, clipDiff(o.start, s), clipDiff(s, o.start))
			}
		}
	}
	// the end: everything verifies as at first
	for _, it := range items {
		a := it.verify()
		if it.answer != "" && a != it.answer {
			c.Fatalf("%s: first answer %q, at the end %q, after: %s", it.name, it.answer, a, done)
		}
		b := it.verify()
		if a != b {
			c.Fatalf("%s: answers %q and %q in a row, after: %s", it.name, a, b, done)
		}
		if s := it.state(); s != it.start {
			c.Fatalf("%s changed by verification", it.name)
		}
	}
	c.Sample(map[string]any{"history": pbt.Clip(done, 500)})
}

func clipDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	return "..." + pbt.Clip(a[lo:], 200)
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "cannot encode: " + err.Error()
	}
	return string(b)
}

// proofs of the range proof system, some of them invalid.
func bulletproof(c *pbt.C, i int, params bp.BulletProofSetupParams) *item {
	v := bpx.InRange(c, "v", int(params.N))
	if pbt.Chance(c, "out of range", 15) {
		v = new(big.Int).Neg(new(big.Int).Add(v, big.NewInt(1)))
	}
	p, err := bp.Prove(v, params)
	if err != nil {
		c.Fatalf("Prove: %v", err)
	}
	what := "proof"
	if pbt.Chance(c, "altered", 40) {
		p = bpx.Clone(p)
		what = "altered proof"
		switch pbt.Kind(c, "alteration", 3) {
		case 0:
			bpx.Mutate(c, &p)
		case 1:
			bpx.Reshape(c, &p)
		case 2:
			s := bpx.Slots(&p)
			k := s[pbt.Kind(c, "nil", len(s))]
			if k.Pt != nil {
				*k.Pt = nil
			} else {
				*k.Sc = nil
			}
		}
	}
	q := &p
	return &item{name: fmt.Sprintf("%s %d", what, i),
		verify: func() string { return run(q.Verify) },
		state:  func() string { return js(q) },
		others: map[string]func(){
			"encode": func() { js(q) },
			"copy": func() {
				// a shallow copy shares the elements with the original
				r := *q
				pbt.Guard(func() { r.Verify() })
			},
			"decode": func() {
				var r bp.BulletProof
				if json.Unmarshal([]byte(js(q)), &r) == nil {
					if a := run(r.Verify); a != run(q.Verify) {
						c.Fatalf("%s: the decoded copy verifies differently: %q", what, a)
					}
				}
			},
			"operate": func() { // the inner product proof on its own
				pbt.Guard(func() { q.InnerProductProof.Verify() })
			},
		}}
}

func params(c *pbt.C, p *bp.BulletProofSetupParams) *item {
	return &item{name: "parameters", verify: func() string { return "" }, state: func() string { return js(p) },
		others: map[string]func(){"operate": func() {
			if _, err := bp.Prove(bpx.InRange(c, "v", int(p.N)), *p); err != nil {
				c.Fatalf("Prove: %v", err)
			}
		}}}
}

func TestRangeProofs(t *testing.T) {
	pbt.Check(t, 480, 12000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8, 2, 4)
		p := bpx.Params(c, n)
		items := []*item{params(c, &p)}
		for i, k := 0, pbt.IntN(c, "proofs", 1, 3); i < k; i++ {
			items = append(items, bulletproof(c, i, p))
		}
		history(c, items, pbt.IntN(c, "steps", 3, 12))
	})
}

func TestLargeRangeProofs(t *testing.T) {
	pbt.Check(t, 24, 600, func(c *pbt.C) {
		p := bpx.Params(c, pbt.Pick(c, "n", 16, 32))
		history(c, []*item{params(c, &p), bulletproof(c, 0, p)}, pbt.IntN(c, "steps", 3, 6))
	})
}

// One variable holds several proofs in turn, valid and altered ones, put there by
// assignment, element by element or by decoding: the answer is the one that a new
// variable with these contents gives.
func TestReusedVariable(t *testing.T) {
	pbt.Check(t, 160, 4000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 2)
		params := bpx.Params(c, n)
		var contents []bp.BulletProof
		var names, answers []string
		add := func(name string, p bp.BulletProof) {
			q := bpx.Clone(p)
			contents, names, answers = append(contents, p), append(names, name), append(answers, run(q.Verify))
		}
		for i := 0; i < 2; i++ {
			p, err := bp.Prove(bpx.InRange(c, "v", n), params)
			if err != nil {
				c.Fatalf("Prove: %v", err)
			}
			add(fmt.Sprintf("proof %d", i), p)
			for j, k := 0, pbt.IntN(c, "altered", 1, 2); j < k; j++ {
				q := bpx.Clone(p)
				if what := bpx.Mutate(c, &q); what != "" {
					add(fmt.Sprintf("proof %d with %s", i, what), q)
				}
			}
		}
		x := bpx.Clone(contents[0])
		done := ""
		for i, steps := 0, pbt.IntN(c, "steps", 3, 7); i < steps; i++ {
			k := pbt.Kind(c, "content", len(contents))
			if i == 0 {
				k = 0
			}
			q := bpx.Clone(contents[k])
			how := pbt.Pick(c, "how", "assigned", "elements set", "numbers set in place", "decoded")
			switch how {
			case "assigned":
				x = q
			case "elements set":
				x.Params = q.Params
				to := bpx.Slots(&x)
				for j, from := range bpx.Slots(&q) {
					to[j].Copy(from)
				}
			case "numbers set in place":
				x.Params = q.Params
				to := bpx.Slots(&x)
				for j, from := range bpx.Slots(&q) {
					set := func(a **big.Int, b *big.Int) {
						if *a == nil || b == nil {
							*a = b
						} else {
							(*a).Set(b)
						}
					}
					if from.Pt != nil {
						set(&(*to[j].Pt).X, (*from.Pt).X)
						set(&(*to[j].Pt).Y, (*from.Pt).Y)
					} else {
						set(to[j].Sc, *from.Sc)
					}
				}
			case "decoded":
				if err := json.Unmarshal([]byte(js(q)), &x); err != nil {
					c.Fatalf("decoding: %v", err)
				}
				if js(x) != js(q) {
					return // the subject of C37
				}
			}
			done += fmt.Sprintf("%s %s; ", names[k], how)
			c.Eval(fmt.Sprint(n, done, bpx.Ref(x.V)))
			c.Label("variable: " + how)
			for j := 0; j < 2; j++ {
				if a := run(x.Verify); a != answers[k] {
					c.Fatalf("n=%d: %s: %q, in a new variable: %q, history: %s", n, names[k], a, answers[k], done)
				}
			}
		}
	})
}

// The same for the elements of set membership and digit proofs.
func TestReusedPairingVariable(t *testing.T) {
	pbt.Check(t, 24, 700, func(c *pbt.C) {
		var s *ccx.Scheme
		var err error
		xs := []*big.Int{big.NewInt(1), big.NewInt(0)}
		if pbt.Chance(c, "set", 50) {
			s, err = ccx.NewSet([]int64{0, 1})
		} else {
			s, err = ccx.NewUL(2, int64(pbt.IntN(c, "l", 1, 2)))
		}
		if err != nil {
			c.Fatalf("setup: %v", err)
		}
		var contents []ccx.Obj
		var names, answers []string
		add := func(name string, o ccx.Obj) {
			contents, names = append(contents, o), append(names, name)
			answers = append(answers, run(func() (bool, error) { return s.Verify(o.Clone()) }))
		}
		for i, x := range xs {
			o, err := s.Prove(x, pbt.Uniform(c, "r", bnx.Order))
			if err != nil {
				c.Fatalf("proving: %v", err)
			}
			add(fmt.Sprintf("proof %d", i), o)
			q := o.Clone()
			if what := ccx.Alter(c, q.Leaves()); what != "" {
				add(fmt.Sprintf("proof %d with %s", i, what), q)
			}
		}
		v := contents[0].Clone()
		done := ""
		for i, steps := 0, pbt.IntN(c, "steps", 2, 4); i < steps; i++ {
			k := pbt.Kind(c, "content", len(contents))
			if i == 0 {
				k = 0
			}
			q := contents[k].Clone()
			how := pbt.Pick(c, "how", "assigned", "elements set", "set in place")
			to, from := v.Leaves(), q.Leaves()
			switch {
			case how == "assigned" || len(to) != len(from):
				v.Assign(q)
			case how == "elements set":
				for j := range to {
					to[j].Ref.Set(from[j].Ref)
				}
			default:
				for j := range to {
					if to[j].Nil() || from[j].Nil() {
						to[j].Ref.Set(from[j].Ref)
					} else if to[j].IsInt() {
						to[j].Int().Set(from[j].Int())
					} else {
						to[j].Ref.Elem().Set(from[j].Ref.Elem())
					}
				}
			}
			done += fmt.Sprintf("%s %s; ", names[k], how)
			c.Eval(fmt.Sprint(done, s.Base, v.Text()))
			c.Label("pairing variable: " + how)
			if a := run(func() (bool, error) { return s.Verify(v) }); a != answers[k] {
				c.Fatalf("%s: %q, in a new variable: %q, history: %s", names[k], a, answers[k], done)
			}
		}
	})
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 32, 800, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -1000, 1000))
		b := a + int64(pbt.IntN(c, "w", 2, 5000))
		sp, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		x := big.NewInt(a + int64(pbt.IntN(c, "x", -2, int(b-a)+2)))
		kept := x.String()
		p, err := bp.ProveGeneric(x, sp)
		if err != nil {
			c.Fatalf("ProveGeneric: %v", err)
		}
		if x.String() != kept {
			c.Fatalf("ProveGeneric changed the secret from %s to %v", kept, x)
		}
		if pbt.Chance(c, "altered", 30) {
			p = bpx.Clone(p)
			bpx.Mutate(c, pbt.Pick(c, "half", &p.P1, &p.P2))
		}
		it := &item{name: "generic proof", verify: func() string { return run(p.Verify) }, state: func() string { return js(p) + js(sp) },
			others: map[string]func(){
				"copy": func() { r := p; pbt.Guard(func() { r.Verify() }) },
				"decode": func() {
					var r bp.ProofBPRP
					if json.Unmarshal([]byte(js(p)), &r) == nil {
						if a, b := run(r.Verify), run(p.Verify); a != b {
							c.Fatalf("the decoded copy of a generic proof verifies differently: %q and %q", a, b)
						}
					}
				},
				"operate": func() { pbt.Guard(func() { p.P1.Verify() }) },
			}}
		history(c, []*item{it}, pbt.IntN(c, "steps", 2, 4))
	})
}

// set membership and digit proofs share parameters and elements.
func TestPairingProofs(t *testing.T) {
	pbt.Check(t, 96, 3000, func(c *pbt.C) {
		var s *ccx.Scheme
		var err error
		var in func() *big.Int
		if pbt.Chance(c, "set", 50) {
			set := []int64{int64(pbt.IntN(c, "e", -5, 5)), 100, 1 << 40}
			s, err = ccx.NewSet(set)
			in = func() *big.Int { return big.NewInt(set[pbt.Kind(c, "x", len(set))]) }
		} else {
			u, l := int64(pbt.IntN(c, "u", 2, 4)), int64(pbt.IntN(c, "l", 1, 2))
			s, err = ccx.NewUL(u, l)
			top := u
			if l == 2 {
				top = u * u
			}
			in = func() *big.Int { return big.NewInt(int64(pbt.IntN(c, "x", 0, int(top)-1))) }
		}
		if err != nil {
			c.Fatalf("setup: %v", err)
		}
		ps := &item{name: "parameters", verify: func() string { return "" }, state: s.Params.Text,
			others: map[string]func(){"operate": func() {
				if _, err := s.Prove(in(), pbt.Uniform(c, "r", bnx.Order)); err != nil {
					c.Fatalf("proving: %v", err)
				}
			}}}
		items := []*item{ps}
		for i, k := 0, pbt.IntN(c, "proofs", 1, 2); i < k; i++ {
			o, err := s.Prove(in(), pbt.IntSigned(c, "r", bnx.Order))
			if err != nil {
				c.Fatalf("proving: %v", err)
			}
			name := "proof"
			if pbt.Chance(c, "altered", 40) {
				name = "altered proof"
				ls := o.Leaves()
				l := ls[pbt.Kind(c, "leaf", len(ls))]
				switch {
				case l.IsInt():
					l.Set(new(big.Int).Add(l.Int(), pbt.Pick(c, "d", big.NewInt(1), bnx.Order)))
				case l.IsG2():
					l.Set(new(bn256.G2).Add(ccx.CopyG2(l.G2()), new(bn256.G2).ScalarBaseMult(big.NewInt(1))))
				case l.IsGT():
					l.Set(new(bn256.GT).Add(l.GT(), l.GT()))
				}
			}
			items = append(items, &item{name: fmt.Sprintf("%s %d", name, i), verify: func() string { return run(func() (bool, error) { return s.Verify(o) }) },
				state: o.Text, others: map[string]func(){"copy": func() {
					if a, b := run(func() (bool, error) { return s.Verify(o.Clone()) }), run(func() (bool, error) { return s.Verify(o) }); a != b {
						c.Fatalf("a copy verifies differently: %q and %q", a, b)
					}
				}, "operate": func() {
					// encodings and other uses of the elements
					for _, l := range o.Leaves() {
						switch {
						case l.IsG2():
							l.G2().Marshal()
							_ = l.G2().String()
							new(bn256.G2).ScalarMult(l.G2(), big.NewInt(3))
						case l.IsGT():
							l.GT().Marshal()
							_ = l.GT().String()
						}
					}
				}}})
		}
		history(c, items, pbt.IntN(c, "steps", 3, 6))
	})
}

func TestPairingRange(t *testing.T) {
	pbt.Check(t, 16, 400, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", 0, 20))
		b := a + int64(pbt.IntN(c, "w", 2, 60))
		z, err := ccx.NewRange(a, b)
		if err != nil {
			c.Fatalf("Setup(%d,%d): %v", a, b, err)
		}
		x := int64(pbt.IntN(c, "x", int(a)-1, int(b)))
		if err, _ := z.Prove(big.NewInt(x), pbt.Uniform(c, "r", bnx.Order)); err != nil {
			c.Label("cannot prove")
			return
		}
		it := &item{name: "range proof", verify: func() string { return run(z.Z.Verify) }, state: z.Obj().Text,
			others: map[string]func(){"copy": func() {
				if a, b := run(z.Copy().Z.Verify), run(z.Z.Verify); a != b {
					c.Fatalf("a copy verifies differently: %q and %q", a, b)
				}
			}}}
		history(c, []*item{it}, 2)
	})
}

// Signatures: the verifier is not exported, its inputs are.
func TestSignatures(t *testing.T) {
	pbt.Check(t, 96, 3000, func(c *pbt.C) {
		kp, err := bbsignatures.Keygen()
		if err != nil {
			c.Fatalf("Keygen: %v", err)
		}
		m := pbt.IntSigned(c, "m", bnx.Order)
		sig, err := bbsignatures.Sign(m, kp.Privk)
		if err != nil {
			return
		}
		if pbt.Chance(c, "altered", 30) {
			sig = new(bn256.G2).Add(sig, new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
		}
		all := struct {
			K *bbsignatures.Keypair
			M *big.Int
			S *bn256.G2
		}{&kp, m, sig}
		it := &item{name: "signature", verify: func() string { return run(func() (bool, error) { return bbsignatures.VerifVerify(sig, m, kp.Pubk) }) },
			state: ccx.Obj{Ptr: &all}.Text,
			others: map[string]func(){"encode": func() { sig.Marshal(); kp.Pubk.Marshal() }, "print": func() { _ = sig.String() + kp.Pubk.String() },
				"operate": func() { bbsignatures.Sign(m, kp.Privk) }}}
		history(c, []*item{it}, pbt.IntN(c, "steps", 2, 5))
	})
}
