package c31

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	"github.com/ing-bank/zkrp/util/byteconversion"

	"verif/bpx"
	"verif/ccx"
	"verif/pbt"
)

// What a program computes first may be computed by several goroutines at once: caches
// and tables are empty then. Every case is a process of its own that has used nothing of
// the library before its goroutines start.

var coldOps = []struct {
	name string
	run  func(arg int64) string
}{
	{"setup", func(a int64) string {
		p, err := bp.Setup(int64(1) << uint(bpx.Sizes[a%int64(len(bpx.Sizes))]))
		return fmt.Sprint(js(p), err)
	}},
	{"prove", func(a int64) string {
		p, err := bp.Setup(int64(1) << uint(bpx.Sizes[a%4]))
		if err != nil {
			return "FAILED: " + err.Error()
		}
		q, err := bp.Prove(big.NewInt(a%2), p)
		if err != nil {
			return "FAILED: " + err.Error()
		}
		ok, err := q.Verify()
		return mustHold("", ok, err)
	}},
	{"verify", func(a int64) string {
		var q bp.BulletProof
		if err := json.Unmarshal([]byte(os.Getenv("VERIF_COLD_PROOF")), &q); err != nil {
			return "cannot decode"
		}
		ok, err := q.Verify()
		return mustHold("", ok, err)
	}},
	{"generic setup", func(a int64) string {
		p, err := bp.SetupGeneric(a, a+100)
		return fmt.Sprint(js(p), err)
	}},
	{"hash to point", func(a int64) string {
		p, err := p256.MapToGroup(fmt.Sprint("cold ", a%3))
		return fmt.Sprint(p, err)
	}},
	{"points", func(a int64) string {
		g := new(p256.P256).ScalarBaseMult(big.NewInt(a))
		h := new(p256.P256).ScalarMult(g, big.NewInt(a+1))
		g2, err := util.CommitG1(big.NewInt(a), big.NewInt(a+2), h)
		y, z, err2 := bp.HashBP(g, h)
		return fmt.Sprint(g, h, g2, y, z, err, err2)
	}},
	{"pairing groups", func(a int64) string {
		g, h := new(bn256.G1).ScalarBaseMult(big.NewInt(a)), new(bn256.G2).ScalarBaseMult(big.NewInt(a+1))
		return fmt.Sprintf("%x %x", g.Marshal(), h.Marshal())
	}},
	{"pairing", func(a int64) string {
		g, h := new(bn256.G1).ScalarBaseMult(big.NewInt(a)), new(bn256.G2).ScalarBaseMult(big.NewInt(a+1))
		e := bn256.Pair(g, h)
		return fmt.Sprintf("%x %v", e.Marshal(), bn256.PairingCheck([]*bn256.G1{g}, []*bn256.G2{h}))
	}},
	{"constants", func(a int64) string { return fmt.Sprintf("%x %x", util.G1.Marshal(), util.E.Marshal()) }},
	{"signature", func(a int64) string {
		kp, err := bbsignatures.Keygen()
		if err != nil {
			return "FAILED: " + err.Error()
		}
		s, err := bbsignatures.Sign(big.NewInt(a), kp.Privk)
		if err != nil {
			return "FAILED: " + err.Error()
		}
		ok, err := bbsignatures.VerifVerify(s, big.NewInt(a), kp.Pubk)
		return mustHold("", ok, err)
	}},
	{"set membership", func(a int64) string {
		s, err := ccx.NewSet([]int64{a})
		if err != nil {
			return "FAILED: " + err.Error()
		}
		o, err := s.Prove(big.NewInt(a), big.NewInt(a+7))
		if err != nil {
			return "FAILED: " + err.Error()
		}
		ok, err := s.Verify(o)
		return mustHold("", ok, err)
	}},
	{"digits", func(a int64) string {
		s, err := ccx.NewUL(2, 1)
		if err != nil {
			return "FAILED: " + err.Error()
		}
		o, err := s.Prove(big.NewInt(a%2), big.NewInt(a+7))
		if err != nil {
			return "FAILED: " + err.Error()
		}
		ok, err := s.Verify(o)
		return mustHold("", ok, err)
	}},
	{"numbers", func(a int64) string {
		d, err := util.Decompose(big.NewInt(a), 57, 4)
		b := byteconversion.ToByteArray(big.NewInt(-a))
		x, err2 := byteconversion.FromByteArray(b)
		l, err3 := byteconversion.ParseInput([]byte(fmt.Sprint(a, ",", -a)))
		h, err4 := bn.CalculateHash(big.NewInt(a), nil)
		return fmt.Sprint(d, b, x, l, h, bn.ModPow(big.NewInt(a+2), big.NewInt(-3), big.NewInt(1000003)), err, err2, err3, err4)
	}},
}

// cold runs a plan: goroutines separated by ";", their operations by ",".
func cold(plan string) {
	type action struct {
		op  int
		arg int64
	}
	var all [][]action
	for _, g := range strings.Split(plan, ";") {
		var as []action
		for _, s := range strings.Split(g, ",") {
			p := strings.Split(s, ":")
			op, err := strconv.Atoi(p[0])
			if err != nil || op < 0 || op >= len(coldOps) {
				pbt.Broken("plan %q", plan)
			}
			arg, err := strconv.ParseInt(p[1], 10, 64)
			if err != nil {
				pbt.Broken("plan %q", plan)
			}
			as = append(as, action{op, arg})
		}
		all = append(all, as)
	}
	got := make([][]string, len(all))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, a := range all[i] {
				got[i] = append(got[i], result(func() string { return coldOps[a.op].run(a.arg) }))
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		fmt.Println("COLD: concurrent operations do not finish")
		os.Exit(1)
	}
	for i := range all {
		for j, a := range all[i] {
			o := coldOps[a.op]
			want := result(func() string { return o.run(a.arg) })
			if got[i][j] != want || strings.HasPrefix(want, "FAILED") || strings.HasPrefix(want, "panic") {
				fmt.Printf("COLD: goroutine %d, %s(%d): first, with others: %s; later, alone: %s\n", i, o.name, a.arg, pbt.Clip(got[i][j], 500), pbt.Clip(want, 500))
				os.Exit(1)
			}
		}
	}
	fmt.Println("COLD: done")
	os.Exit(0)
}

func TestColdStart(t *testing.T) {
	pbt.Check(t, 40, 1200, func(c *pbt.C) {
		g := pbt.IntN(c, "goroutines", 2, 4)
		focus := -1
		if pbt.Chance(c, "focus", 60) {
			focus = pbt.Kind(c, "first", len(coldOps))
		}
		same := pbt.Chance(c, "same argument", 50)
		arg := int64(pbt.IntN(c, "arg", 1, 60))
		var plan, names []string
		for i := 0; i < g; i++ {
			var as []string
			line := ""
			for j, k := 0, pbt.IntN(c, "steps", 1, 2); j < k; j++ {
				op := pbt.Kind(c, "op", len(coldOps))
				if j == 0 && focus >= 0 {
					op = focus
				}
				a := arg
				if !same {
					a = int64(pbt.IntN(c, "arg", 1, 60))
				}
				as = append(as, fmt.Sprintf("%d:%d", op, a))
				line += fmt.Sprintf("%s(%d); ", coldOps[op].name, a)
			}
			plan, names = append(plan, strings.Join(as, ",")), append(names, line)
		}
		n := pbt.Pick(c, "n", 1, 2, 4)
		params := bpx.Params(c, n)
		p, err := bp.Prove(bpx.InRange(c, "v", n), params)
		if err != nil {
			c.Fatalf("Prove: %v", err)
		}
		text := strings.Join(plan, ";")
		cmd := exec.Command(os.Args[0], "-test.run", "^$")
		cmd.Env = append(os.Environ(), "VERIF_COLD_PLAN="+text, "VERIF_COLD_PROOF="+js(p), "VERIF_STATS=", "GORACE=halt_on_error=1 exitcode=66")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err = cmd.Run()
		s := out.String()
		c.Eval("cold " + text)
		c.Label("cold start")
		c.Sample(map[string]any{"new process, goroutines": names})
		switch {
		case err == nil && strings.Contains(s, "COLD: done"):
		case strings.Contains(s, "DATA RACE"), strings.Contains(s, "COLD:"), strings.Contains(s, "fatal error: concurrent map"):
			c.Fatalf("a new process with goroutines %q: %s", names, pbt.Clip(s, 3000))
		case strings.Contains(s, "HARNESS-ERROR"), !strings.Contains(s, "panic") && !strings.Contains(s, "fatal error"):
			pbt.Broken("cold process: %v\n%s", err, s)
		default:
			c.Fatalf("a new process with goroutines %q ends with %v: %s", names, err, pbt.Clip(s, 3000))
		}
	})
}
