package c12

import (
	"crypto/rand"
	"fmt"
	"math/big"
	"sync"
	"testing"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/bnx"
	"verif/bpx"
	"verif/ccx"
	"verif/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "one evaluation = one run of an operation during which one read of the randomness source fails (with an error or end of file, before or after part of the bytes, once or for ever); every position of the failing read is enumerated for the small operations; non-trivial = distinct (operation, arguments, position, kind of failure) in which the failing read happened")
}

// op is an operation that needs randomness. run returns its error.
type op struct {
	name string
	run  func() error
}

// fault runs o with one failing read. It says whether the failing read happened.
func fault(c *pbt.C, o op, seed uint64, at int, kind int) bool {
	t := pbt.NewTape(seed)
	t.FailAt = at
	t.Short, t.Sticky, t.EOF = kind&1 != 0, kind&2 != 0, kind&4 != 0
	c.Use(t)
	var err error
	p, _ := pbt.Guard(func() { err = o.run() })
	if t.Reads <= at {
		return false // the operation needs fewer random numbers
	}
	c.Eval(fmt.Sprint(o.name, seed, at, kind))
	switch {
	case p != nil:
		c.Label(o.name0() + ": stopped by a panic")
	case err != nil:
		c.Label(o.name0() + ": error")
	default:
		c.Fatalf("%s succeeds although read %d of its randomness fails (short %v, all later reads fail %v, end of file %v)", o.name, at, t.Short, t.Sticky, t.EOF)
	}
	return true
}

func (o op) name0() string {
	for i, r := range o.name {
		if r == ' ' || r == '(' {
			return o.name[:i]
		}
	}
	return o.name
}

// reads counts the reads of a run without failure, which must succeed.
func reads(c *pbt.C, o op, seed uint64) int {
	t := pbt.NewTape(seed)
	c.Use(t)
	var err error
	p, st := pbt.Guard(func() { err = o.run() })
	if p != nil || err != nil {
		c.Fatalf("%s fails with perfect randomness: %v %v\n%s", o.name, err, p, st)
	}
	return t.Reads
}

var kinds = []int{0, 1, 2, 3, 4, 5, 6, 7}

// every enumerates all positions and some (or all) kinds of failure.
func every(c *pbt.C, o op, all bool) {
	seed := pbt.SeedOf(c, "seed")
	n := reads(c, o, seed)
	if n == 0 {
		c.Fatalf("%s uses no randomness", o.name)
	}
	c.Label(fmt.Sprintf("%s: %d reads", o.name0(), n))
	c.Sample(map[string]any{"operation": o.name, "reads": n})
	for at := 0; at < n; at++ {
		if all {
			for _, k := range kinds {
				fault(c, o, seed, at, k)
			}
		} else {
			fault(c, o, seed, at, 0)
			fault(c, o, seed, at, kinds[pbt.Kind(c, "kind", len(kinds))])
		}
	}
}

// some samples positions, the first and last ones always.
func some(c *pbt.C, o op, k int) {
	seed := pbt.SeedOf(c, "seed")
	n := reads(c, o, seed)
	if n == 0 {
		c.Fatalf("%s uses no randomness", o.name)
	}
	c.Label(fmt.Sprintf("%s: %d reads", o.name0(), n))
	for j := 0; j < k; j++ {
		at := pbt.Kind(c, "at", n)
		if j == 0 {
			at = n - 1
		}
		fault(c, o, seed, at, kinds[pbt.Kind(c, "kind", len(kinds))])
	}
}

func TestProve(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 1, 2, 4, 8)
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		every(c, op{fmt.Sprintf("Prove(%v, n=%d)", v, n), func() error { _, err := bp.Prove(v, params); return err }}, n <= 2)
	})
}

func TestProveLarge(t *testing.T) {
	pbt.Check(t, 24, 800, func(c *pbt.C) {
		n := pbt.Pick(c, "n", 16, 32)
		params := bpx.Params(c, n)
		v := bpx.InRange(c, "v", n)
		some(c, op{fmt.Sprintf("Prove(%v, n=%d)", v, n), func() error { _, err := bp.Prove(v, params); return err }}, 8)
	})
}

func TestProveGeneric(t *testing.T) {
	pbt.Check(t, 24, 600, func(c *pbt.C) {
		a := int64(pbt.IntN(c, "a", -100, 100))
		b := a + int64(pbt.IntN(c, "w", 2, 1000))
		params, err := bp.SetupGeneric(a, b)
		if err != nil {
			c.Fatalf("SetupGeneric: %v", err)
		}
		x := big.NewInt(a + int64(pbt.IntN(c, "x", 0, int(b-a-1))))
		some(c, op{fmt.Sprintf("ProveGeneric(%v, [%d,%d))", x, a, b), func() error { _, err := bp.ProveGeneric(x, params); return err }}, 10)
	})
}

func TestKeys(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		every(c, op{"Keygen", func() error { _, err := bbsignatures.Keygen(); return err }}, true)
	})
}

// The group elements that are made of random numbers.
func TestRandomElements(t *testing.T) {
	pbt.Check(t, 64, 1500, func(c *pbt.C) {
		every(c, op{"RandomG1", func() error { _, _, err := bn256.RandomG1(readerNow(c)); return err }}, true)
		every(c, op{"RandomG2", func() error { _, _, err := bn256.RandomG2(readerNow(c)); return err }}, true)
	})
}

func TestSetups(t *testing.T) {
	pbt.Check(t, 120, 3000, func(c *pbt.C) {
		s := []int64{int64(pbt.IntN(c, "e", -9, 9)), 100}[:pbt.IntN(c, "size", 0, 2)]
		every(c, op{fmt.Sprintf("SetupSet(%v)", s), func() error { _, err := ccs08.SetupSet(s); return err }}, true)
		u, l := int64(pbt.IntN(c, "u", 2, 4)), int64(pbt.IntN(c, "l", 1, 3))
		every(c, op{fmt.Sprintf("SetupUL(%d,%d)", u, l), func() error { _, err := ccs08.SetupUL(u, l); return err }}, true)
		a := int64(pbt.IntN(c, "a", 0, 9))
		b := a + int64(pbt.IntN(c, "w", 2, 100))
		fault(c, op{fmt.Sprintf("Setup(%d,%d)", a, b), func() error { return new(ccs08.VerifRange).Setup(a, b) }}, 1, 0, pbt.Kind(c, "kind", 8))
	})
}

var (
	once  sync.Once
	sets  *ccx.Scheme
	uls   *ccx.Scheme
	rng   *ccx.Range
	setup string
)

// schemes are fixed: only the proofs are generated.
func schemes(c *pbt.C) {
	once.Do(func() {
		c.Tape(5)
		var err [3]error
		sets, err[0] = ccx.NewSet([]int64{-5, 0, 7, 100})
		uls, err[1] = ccx.NewUL(3, 3)
		rng, err[2] = ccx.NewRange(10, 90)
		setup = fmt.Sprint(err)
	})
	if sets == nil || uls == nil || rng.Z == nil || setup != fmt.Sprint([3]error{}) {
		c.Fatalf("setups fail: %s", setup)
	}
}

func TestPairingProofs(t *testing.T) {
	pbt.Check(t, 80, 2000, func(c *pbt.C) {
		schemes(c)
		r := pbt.Uniform(c, "r", bnx.Order)
		x := pbt.Pick(c, "x", int64(-5), 0, 7, 100)
		every(c, op{fmt.Sprintf("ProveSet(%d)", x), func() error { _, err := sets.Prove(big.NewInt(x), r); return err }}, false)
		y := int64(pbt.IntN(c, "y", 0, 26))
		every(c, op{fmt.Sprintf("ProveUL(%d)", y), func() error { _, err := uls.Prove(big.NewInt(y), r); return err }}, false)
	})
}

// A range proof object.
func TestPairingRange(t *testing.T) {
	pbt.Check(t, 24, 600, func(c *pbt.C) {
		schemes(c)
		r := pbt.Uniform(c, "r", bnx.Order)
		x := int64(pbt.IntN(c, "x", 10, 89))
		z := rng.Copy()
		o := op{fmt.Sprintf("Prove(%d in [10,90))", x), func() error {
			ccs08.VerifSetSecret(z.Z, big.NewInt(x), r)
			return z.Z.Prove()
		}}
		some(c, o, 5)
	})
}

// readerNow reads from whatever source the case has installed.
func readerNow(c *pbt.C) reader { return reader{} }

type reader struct{}

func (reader) Read(p []byte) (int, error) { return rand.Reader.Read(p) }
