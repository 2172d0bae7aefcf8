package c31

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/byteconversion"

	"verif/bnx"
	"verif/bpx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	if plan := os.Getenv("VERIF_COLD_PLAN"); plan != "" {
		cold(plan)
	}
	pbt.Main(m, "one evaluation = one operation that ran concurrently with others on shared objects under the race detector and whose result was compared with the result of the same operation on separate copies without concurrency; non-trivial = distinct (operation, object, randomness) in a schedule with at least 2 goroutines that share an object")
}

// reader gives every goroutine that runs an operation a stream of its own, so that the
// result does not depend on the schedule. Goroutines that are not known share one.
type reader struct {
	mu     sync.Mutex
	byID   map[string]*pbt.Tape
	common *pbt.Tape
	odd    bool // an unknown goroutine took part
}

func id() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

func (r *reader) Read(p []byte) (int, error) {
	r.mu.Lock()
	t := r.byID[id()]
	if t == nil {
		t, r.odd = r.common, true
	}
	r.mu.Unlock()
	return t.Read(p)
}

func (r *reader) own(seed uint64) {
	r.mu.Lock()
	r.byID[id()] = pbt.NewTape(seed)
	r.mu.Unlock()
}

var _ io.Reader = (*reader)(nil)

// op is an operation on the shared objects. Its result must be a function of the
// objects and of the randomness.
type op[W any] struct {
	name   string
	random bool // draws randomness
	run    func(w *W, seed uint64) string
}

func result(f func() string) (s string) {
	if p, _ := pbt.Guard(func() { s = f() }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return s
}

type step struct {
	op   int
	seed uint64
}

// storm runs generated operations on w concurrently and compares with a run on copies.
func storm[W any](c *pbt.C, w *W, ops []op[W], maxG, maxOps int) {
	g := pbt.IntN(c, "goroutines", 2, maxG)
	plan := make([][]step, g)
	n := 0
	focus := -1
	if pbt.Chance(c, "focus", 40) { // all goroutines start with the same operation
		focus = pbt.Kind(c, "first", len(ops))
	}
	for i := range plan {
		k := pbt.IntN(c, "steps", 1, maxOps)
		for j := 0; j < k; j++ {
			s := step{pbt.Kind(c, "op", len(ops)), pbt.SeedOf(c, "seed")}
			if j == 0 && focus >= 0 {
				s.op = focus
			}
			plan[i] = append(plan[i], s)
			n++
		}
	}
	orig := ccx.Obj{Ptr: w}
	rd := &reader{byID: map[string]*pbt.Tape{}, common: pbt.NewTape(1)}
	c.Use(rd)

	// the goroutines start together, some of them a little later
	got := make([][]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	delays := make([]int, g)
	for i := range delays {
		delays[i] = pbt.Pick(c, "delay", 0, 0, 1, 3) // yields before starting
	}
	before := orig.Clone()
	for i := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < delays[i]; j++ {
				runtime.Gosched()
			}
			for _, s := range plan[i] {
				rd.own(s.seed)
				got[i] = append(got[i], result(func() string { return ops[s.op].run(w, s.seed) }))
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		fmt.Fprintf(os.Stderr, "VERIF-DEADLOCK: concurrent operations do not finish\n%s\n", b)
		os.Exit(1)
	}
	if a, b := orig.Text(), before.Text(); a != b {
		c.Fatalf("the shared objects changed\nbefore: %s\nafter:  %s", pbt.Clip(b, 400), pbt.Clip(a, 400))
	}
	// alone, every step on a copy of its own
	for i := range plan {
		for j, s := range plan[i] {
			o := ops[s.op]
			rd.own(s.seed)
			alone := before.Clone().Ptr.(*W)
			want := result(func() string { return o.run(alone, s.seed) })
			c.Eval(fmt.Sprint(o.name, s.seed, pbt.Clip(want, 100)))
			c.Label(o.name)
			if got[i][j] != want && !(o.random && rd.odd) {
				c.Fatalf("goroutine %d of %d, step %d, %s: the result differs from that without concurrency\nconcurrent: %s\nalone:      %s", i, g, j, o.name, pbt.Clip(got[i][j], 300), pbt.Clip(want, 300))
			}
			if strings.HasPrefix(want, "FAILED") || strings.HasPrefix(got[i][j], "FAILED") {
				c.Fatalf("goroutine %d of %d, step %d, %s: %s", i, g, j, o.name, got[i][j])
			}
		}
	}
	var names []string
	for i := range plan {
		line := ""
		for _, s := range plan[i] {
			line += ops[s.op].name + "; "
		}
		names = append(names, line)
	}
	sort.Strings(names)
	c.Sample(map[string]any{"goroutines": g, "operations": n, "schedule": names})
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "FAILED to encode: " + err.Error()
	}
	return string(b)
}

func verdict(ok bool, err error) string { return fmt.Sprint(ok, err != nil) }

// mustHold marks the result of an operation that must succeed.
func mustHold(s string, ok bool, err error) string {
	if !ok || err != nil {
		return fmt.Sprintf("FAILED: %v %v", ok, err)
	}
	return s
}

// ---- range proofs

type bpWorld struct {
	N      int64
	V      *big.Int
	Params bp.BulletProofSetupParams
	Proofs []*bp.BulletProof
	Honest []bool
	Points []*p256.P256
	Scal   []*big.Int
}

func bpOps(n int) []op[bpWorld] {
	pick := func(w *bpWorld, seed uint64) (*bp.BulletProof, bool) {
		i := int(seed % uint64(len(w.Proofs)))
		return w.Proofs[i], w.Honest[i]
	}
	ver := op[bpWorld]{"verify", false, func(w *bpWorld, seed uint64) string {
		p, honest := pick(w, seed)
		ok, err := p.Verify()
		if honest && !ok {
			return fmt.Sprintf("FAILED: honest proof rejected: %v", err)
		}
		return verdict(ok, err)
	}}
	prv := op[bpWorld]{"prove", true, func(w *bpWorld, seed uint64) string {
		p, err := bp.Prove(w.V, w.Params)
		if err != nil {
			return "FAILED: " + err.Error()
		}
		ok, err := p.Verify()
		return mustHold(js(p), ok, err)
	}}
	return []op[bpWorld]{ver, prv, ver, prv, ver,
		{"encode proof", false, func(w *bpWorld, seed uint64) string { p, _ := pick(w, seed); return js(p) }},
		{"encode parameters", false, func(w *bpWorld, seed uint64) string { return js(w.Params) }},
		{"decode and verify", false, func(w *bpWorld, seed uint64) string {
			p, honest := pick(w, seed)
			var q bp.BulletProof
			if err := json.Unmarshal([]byte(js(p)), &q); err != nil {
				return "cannot decode"
			}
			ok, err := q.Verify()
			if honest && !ok {
				return fmt.Sprintf("FAILED: honest proof rejected: %v", err)
			}
			return verdict(ok, err)
		}},
		{"verify inner product", false, func(w *bpWorld, seed uint64) string {
			p, _ := pick(w, seed)
			ok, err := p.InnerProductProof.Verify()
			return verdict(ok, err)
		}},
		{"verify a copy", false, func(w *bpWorld, seed uint64) string {
			p, _ := pick(w, seed)
			q := *p
			ok, err := q.Verify()
			return verdict(ok, err)
		}},
		{"setup", false, func(w *bpWorld, seed uint64) string {
			p, err := bp.Setup(int64(1) << uint(w.N))
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return js(p)
		}},
		{"print points", false, func(w *bpWorld, seed uint64) string {
			s := ""
			for _, p := range w.Points {
				s += p.String() + fmt.Sprint(p.IsZero())
			}
			return s
		}},
		{"point arithmetic", false, func(w *bpWorld, seed uint64) string {
			a, b := w.Points[seed%uint64(len(w.Points))], w.Points[(seed/7)%uint64(len(w.Points))]
			k := w.Scal[seed%uint64(len(w.Scal))]
			r := new(p256.P256).ScalarMult(a, k)
			s := r.String()
			s += new(p256.P256).Multiply(r, b).String()
			s += new(p256.P256).Neg(a).String()
			s += new(p256.P256).Double(b).String()
			s += new(p256.P256).ScalarBaseMult(k).String()
			return s + fmt.Sprint(a.IsOnCurve(), b.IsOnCurve())
		}},
		{"hash to point", false, func(w *bpWorld, seed uint64) string {
			p, err := p256.MapToGroup(fmt.Sprint("point ", seed%5))
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return p.String()
		}},
		{"commit", false, func(w *bpWorld, seed uint64) string {
			p, err := util.CommitG1(w.Scal[seed%uint64(len(w.Scal))], w.Scal[(seed/3)%uint64(len(w.Scal))], w.Params.H)
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return p.String()
		}},
		{"hash", false, func(w *bpWorld, seed uint64) string {
			y, z, err := bp.HashBP(w.Points[0], w.Points[1], w.Points...)
			return fmt.Sprint(y, z, err)
		}},
		{"vectors", false, func(w *bpWorld, seed uint64) string {
			s, e1 := bp.VectorAdd(w.Scal, w.Scal)
			t, e2 := bp.VectorMul(w.Scal, w.Scal)
			u, e3 := bp.ScalarProduct(w.Scal, w.Scal)
			x, e4 := bp.VectorExp(w.Points[:len(w.Scal)], w.Scal)
			return fmt.Sprint(s, t, u, x, e1, e2, e3, e4)
		}},
		{"two's complement", false, func(w *bpWorld, seed uint64) string {
			b := byteconversion.ToByteArray(w.Scal[0])
			x, err := byteconversion.FromByteArray(b)
			return fmt.Sprintf("%x %v %v", b, x, err)
		}},
	}
}

func TestBulletproofs(t *testing.T) {
	pbt.Check(t, 64, 1400, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 2, 8)
		w := &bpWorld{N: int64(n), V: bpx.InRange(c, "v", n), Params: bpx.Params(c, n)}
		for i, k := 0, pbt.IntN(c, "proofs", 1, 2); i < k; i++ {
			c.Tape(pbt.SeedOf(c, "proof"))
			p, err := bp.Prove(w.V, w.Params)
			if err != nil {
				c.Fatalf("Prove: %v", err)
			}
			honest := true
			if pbt.Chance(c, "altered", 25) {
				p = bpx.Clone(p)
				bpx.Mutate(c, &p)
				honest = false
			} else if pbt.Chance(c, "decoded", 25) {
				p = bpx.ViaJSON(c, p)
			}
			w.Proofs, w.Honest = append(w.Proofs, &p), append(w.Honest, honest)
		}
		for i := 0; i < 4; i++ {
			x := pbt.IntSigned(c, "scalar", bpx.Order)
			if i < 3 {
				w.Scal = append(w.Scal, x)
			}
			w.Points = append(w.Points, new(p256.P256).ScalarBaseMult(x))
		}
		w.Points = append(w.Points, w.Params.H, w.Proofs[0].V)
		storm(c, w, bpOps(n), 5, 3)
	})
}

// ---- generic range proofs

type genWorld struct {
	A, B  int64
	X     *big.Int
	Proof *bp.ProofBPRP
}

func TestGeneric(t *testing.T) {
	pbt.Check(t, 6, 160, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -100, 100))
		b := a + int64(pbt.IntN(c, "w", 1, 500))
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		x := big.NewInt(a + int64(pbt.IntN(c, "x", 0, int(b-a)-1)))
		c.Tape(pbt.SeedOf(c, "proof"))
		p, err := bp.ProveGeneric(x, params)
		if err != nil {
			c.Fatalf("ProveGeneric: %v", err)
		}
		start := ccx.Obj{Ptr: params}.Text()
		w := &genWorld{a, b, x, &p}
		ver := op[genWorld]{"verify generic", false, func(w *genWorld, seed uint64) string {
			ok, err := w.Proof.Verify()
			return mustHold("", ok, err)
		}}
		storm(c, w, []op[genWorld]{ver, ver,
			{"prove generic", true, func(w *genWorld, seed uint64) string {
				// the parameters are shared by everybody
				p, err := bp.ProveGeneric(w.X, params)
				if err != nil {
					return "FAILED: " + err.Error()
				}
				return js(p)
			}},
			{"encode generic", false, func(w *genWorld, seed uint64) string { return js(w.Proof) + js(params) }},
		}, 4, 1)
		if s := (ccx.Obj{Ptr: params}).Text(); s != start {
			c.Fatalf("the parameters changed")
		}
	})
}

// ---- elements of the pairing groups

type bnWorld struct {
	A []*bn256.G1
	B []*bn256.G2
	T []*bn256.GT
	K []*big.Int
	S bbsignatures.Keypair
	M *big.Int
	G *bn256.G2
}

func bnOps() []op[bnWorld] {
	a := func(w *bnWorld, s uint64) *bn256.G1 { return w.A[s%uint64(len(w.A))] }
	b := func(w *bnWorld, s uint64) *bn256.G2 { return w.B[s%uint64(len(w.B))] }
	t := func(w *bnWorld, s uint64) *bn256.GT { return w.T[s%uint64(len(w.T))] }
	k := func(w *bnWorld, s uint64) *big.Int { return w.K[s%uint64(len(w.K))] }
	hex := func(b []byte) string { return fmt.Sprintf("%x", b) }
	return []op[bnWorld]{
		{"encode G1", false, func(w *bnWorld, s uint64) string { return hex(a(w, s).Marshal()) }},
		{"encode G2", false, func(w *bnWorld, s uint64) string { return hex(b(w, s).Marshal()) }},
		{"encode GT", false, func(w *bnWorld, s uint64) string { return hex(t(w, s).Marshal()) }},
		{"print", false, func(w *bnWorld, s uint64) string {
			// the text of an element may depend on its representation, its existence counts
			return fmt.Sprint(len(a(w, s).String()) > 0, len(b(w, s).String()) > 0, len(t(w, s).String()) > 0)
		}},
		{"inspect", false, func(w *bnWorld, s uint64) string {
			return fmt.Sprint(a(w, s).IsZero(), b(w, s).IsZero(), t(w, s).IsZero(), t(w, s).IsOne())
		}},
		{"pairing", false, func(w *bnWorld, s uint64) string { return hex(bn256.Pair(a(w, s), b(w, s/5)).Marshal()) }},
		{"pairing check", false, func(w *bnWorld, s uint64) string {
			return fmt.Sprint(bn256.PairingCheck(w.A, w.B[:len(w.A)]))
		}},
		{"multiply G1", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.G1).ScalarMult(a(w, s), k(w, s/3)).Marshal())
		}},
		{"multiply G2", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.G2).ScalarMult(b(w, s), k(w, s/3)).Marshal())
		}},
		{"multiply GT", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.GT).ScalarMult(t(w, s), k(w, s/3)).Marshal())
		}},
		{"multiply generators", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.G1).ScalarBaseMult(k(w, s)).Marshal()) + hex(new(bn256.G2).ScalarBaseMult(k(w, s)).Marshal())
		}},
		{"add", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.G1).Add(a(w, s), a(w, s/3)).Marshal()) + hex(new(bn256.G2).Add(b(w, s), b(w, s/3)).Marshal()) + hex(new(bn256.GT).Add(t(w, s), t(w, s/3)).Marshal())
		}},
		{"negate", false, func(w *bnWorld, s uint64) string {
			return hex(new(bn256.G1).Neg(a(w, s)).Marshal()) + hex(new(bn256.G2).Neg(b(w, s)).Marshal()) + hex(new(bn256.GT).Neg(t(w, s)).Marshal()) + hex(new(bn256.GT).Invert(t(w, s)).Marshal())
		}},
		{"decode", false, func(w *bnWorld, s uint64) string {
			x, ok := new(bn256.G2).Unmarshal(b(w, s).Marshal())
			y, ok2 := new(bn256.G1).Unmarshal(a(w, s).Marshal())
			z, ok3 := new(bn256.GT).Unmarshal(t(w, s).Marshal())
			if !ok || !ok2 || !ok3 {
				return fmt.Sprint("FAILED to decode", ok, ok2, ok3)
			}
			return hex(x.Marshal()) + hex(y.Marshal()) + hex(z.Marshal())
		}},
		{"hash elements", false, func(w *bnWorld, s uint64) string {
			x, e := util.HashSet(w.T[0], w.B[0], w.B...)
			y, f := util.Hash(w.T, w.B[0], w.B...)
			return fmt.Sprint(x, e, y, f)
		}},
		{"commit", false, func(w *bnWorld, s uint64) string {
			x, err := util.Commit(k(w, s), k(w, s/3), b(w, s))
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return hex(x.Marshal())
		}},
		{"sign", false, func(w *bnWorld, s uint64) string {
			x, err := bbsignatures.Sign(w.M, w.S.Privk)
			if err != nil {
				return "cannot sign"
			}
			return hex(x.Marshal())
		}},
		{"verify signature", false, func(w *bnWorld, s uint64) string {
			ok, err := bbsignatures.VerifVerify(w.G, w.M, w.S.Pubk)
			return mustHold("", ok, err)
		}},
		{"new key", true, func(w *bnWorld, s uint64) string {
			kp, err := bbsignatures.Keygen()
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return kp.Privk.String() + hex(kp.Pubk.Marshal())
		}},
		{"random element", true, func(w *bnWorld, s uint64) string {
			k, e, err := bn256.RandomG1(pbt.NewTape(s))
			l, f, err2 := bn256.RandomG2(pbt.NewTape(s))
			if err != nil || err2 != nil {
				return "FAILED"
			}
			return k.String() + l.String() + hex(e.Marshal()) + hex(f.Marshal())
		}},
		{"library generators", false, func(w *bnWorld, s uint64) string {
			x := new(bn256.G1).ScalarMult(util.G1, k(w, s))
			y := new(bn256.GT).ScalarMult(util.E, k(w, s))
			return hex(x.Marshal()) + hex(y.Marshal()) + hex(util.G1.Marshal()) + hex(util.E.Marshal()) + fmt.Sprint(len(util.G1.String()) > 0)
		}},
	}
}

func TestGroups(t *testing.T) {
	pbt.Check(t, 56, 1400, func(c *pbt.C) {
		w := &bnWorld{M: pbt.IntSigned(c, "m", bnx.Order)}
		for i := 0; i < 2; i++ {
			k := bnx.Exponent(c, "k")
			w.K = append(w.K, k)
			// sums have a representation that has to be normalised somewhere
			x, _ := bnx.Make1(c, "a", bnx.Exponent(c, "ka"))
			y, _ := bnx.Make2(c, "b", bnx.Exponent(c, "kb"))
			z, _ := bnx.MakeT(c, "t", bnx.Exponent(c, "kt"))
			w.A, w.B, w.T = append(w.A, x), append(w.B, y), append(w.T, z)
		}
		var err error
		c.Tape(pbt.SeedOf(c, "key"))
		if w.S, err = bbsignatures.Keygen(); err != nil {
			c.Fatalf("Keygen: %v", err)
		}
		if w.G, err = bbsignatures.Sign(w.M, w.S.Privk); err != nil {
			return
		}
		storm(c, w, bnOps(), 6, 4)
	})
}

// ---- set membership and digit proofs

type ccWorld struct {
	Params any
	X, R   *big.Int
	Proof  any
	Honest bool
}

func TestPairingProofs(t *testing.T) {
	pbt.Check(t, 20, 400, func(c *pbt.C) {
		var s *ccx.Scheme
		var err error
		var x *big.Int
		if pbt.Chance(c, "set", 50) {
			set := []int64{int64(pbt.IntN(c, "e", -5, 5)), 100, -1 << 40}
			s, err = ccx.NewSet(set)
			x = big.NewInt(set[pbt.Kind(c, "x", len(set))])
		} else {
			u, l := int64(pbt.IntN(c, "u", 2, 3)), int64(pbt.IntN(c, "l", 1, 2))
			s, err = ccx.NewUL(u, l)
			x = big.NewInt(int64(pbt.IntN(c, "x", 0, int(u)-1)))
		}
		if err != nil {
			c.Fatalf("setup: %v", err)
		}
		r := pbt.Uniform(c, "r", bnx.Order)
		o, err := s.Prove(x, r)
		if err != nil {
			c.Fatalf("proving: %v", err)
		}
		w := &ccWorld{Params: s.Params.Ptr, X: x, R: r, Proof: o.Ptr, Honest: true}
		if pbt.Chance(c, "altered", 20) {
			ls := o.Leaves()
			if l := ls[pbt.Kind(c, "leaf", len(ls))]; l.IsInt() && !l.Nil() {
				l.Set(new(big.Int).Add(l.Int(), big.NewInt(1)))
				w.Honest = false
			}
		}
		// the copies of the objects used alone have the same types
		scheme := func(w *ccWorld) *ccx.Scheme { return s.Rebind(ccx.Obj{Ptr: w.Params}) }
		ver := op[ccWorld]{"verify", false, func(w *ccWorld, seed uint64) string {
			ok, err := scheme(w).Verify(ccx.Obj{Ptr: w.Proof})
			if w.Honest {
				return mustHold("", ok, err)
			}
			return verdict(ok, err)
		}}
		prv := op[ccWorld]{"prove", true, func(w *ccWorld, seed uint64) string {
			p, err := scheme(w).Prove(w.X, w.R)
			if err != nil {
				return "FAILED: " + err.Error()
			}
			return p.Text()
		}}
		storm(c, w, []op[ccWorld]{ver, prv, ver, prv,
			{"encode elements", false, func(w *ccWorld, seed uint64) string {
				var b bytes.Buffer
				for _, l := range (ccx.Obj{Ptr: w.Proof}).Leaves() {
					switch {
					case l.IsG2():
						fmt.Fprintf(&b, "%x", l.G2().Marshal())
						_ = l.G2().String()
					case l.IsGT():
						fmt.Fprintf(&b, "%x", l.GT().Marshal())
						_ = l.GT().String()
					}
				}
				return b.String()
			}},
			{"encode parameters", false, func(w *ccWorld, seed uint64) string {
				p, ok := scheme(w).Public()
				if !ok {
					return ""
				}
				return fmt.Sprintf("%x %x %v", p.H.Marshal(), p.Key.Marshal(), len(p.H.String()) > 0)
			}},
		}, 4, 2)
	})
}

// ---- range proofs of the pairing based scheme

var shared *ccx.Range // one setup per process is expensive enough

func TestPairingRange(t *testing.T) {
	pbt.Check(t, 8, 120, func(c *pbt.C) {
		a, b := int64(3), int64(40)
		if shared == nil || pbt.Thorough && pbt.Chance(c, "new setup", 10) {
			z, err := ccx.NewRange(a, b)
			if err != nil {
				c.Fatalf("Setup: %v", err)
			}
			shared = z
		}
		x := big.NewInt(int64(pbt.IntN(c, "x", int(a), int(b)-1)))
		mine := shared.Copy()
		if err, _ := mine.Prove(x, pbt.Uniform(c, "r", bnx.Order)); err != nil {
			c.Fatalf("Prove: %v", err)
		}
		g := pbt.IntN(c, "goroutines", 2, 3)
		seeds := make([]uint64, g)
		kinds := make([]bool, g)
		for i := range seeds {
			seeds[i], kinds[i] = pbt.SeedOf(c, "seed"), pbt.Chance(c, "prove", 50)
		}
		rd := &reader{byID: map[string]*pbt.Tape{}, common: pbt.NewTape(1)}
		c.Use(rd)
		res := make([]string, g)
		var wg sync.WaitGroup
		for i := range seeds {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rd.own(seeds[i])
				res[i] = result(func() string {
					if kinds[i] {
						z := shared.Copy()
						if err, _ := z.Prove(x, big.NewInt(int64(i+5))); err != nil {
							return "FAILED: " + err.Error()
						}
						return ""
					}
					ok, err := mine.Z.Verify() // the same proof
					return mustHold("", ok, err)
				})
			}()
		}
		wg.Wait()
		for i, s := range res {
			c.Eval(fmt.Sprint("range", x, seeds[i], kinds[i]))
			c.Label("pairing based range")
			if s != "" {
				c.Fatalf("goroutine %d of %d (prove: %v) for %v in [%d,%d): %s", i, g, kinds[i], x, a, b, s)
			}
		}
	})
}
