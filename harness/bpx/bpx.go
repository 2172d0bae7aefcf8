// Package bpx connects the Bulletproofs of the library with the reference model.
package bpx

import (
	"encoding/json"
	"math/big"
	"reflect"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"

	"verif/pbt"
	"verif/ref"
)

// Order of the group (independent constant).
var Order = ref.N

// Sizes are the supported bit lengths.
var Sizes = []int{1, 2, 4, 8, 16, 32}

// Params are the parameters of the library for n bits.
func Params(c *pbt.C, n int) bp.BulletProofSetupParams {
	p, err := bp.Setup(int64(1) << uint(n))
	if err != nil {
		c.Fatalf("Setup(2^%d) failed: %v", n, err)
	}
	return p
}

// Lib converts a point of the model.
func Lib(p ref.Pt) *p256.P256 {
	if p.Inf {
		return new(p256.P256).SetInfinity()
	}
	return &p256.P256{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

// Ref converts a point of the library without looking at its methods.
func Ref(p *p256.P256) ref.Pt {
	if p == nil || p.X == nil || p.Y == nil || p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return ref.O
	}
	return ref.Pt{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

func Libs(ps []ref.Pt) []*p256.P256 {
	r := make([]*p256.P256, len(ps))
	for i := range ps {
		r[i] = Lib(ps[i])
	}
	return r
}

func Refs(ps []*p256.P256) []ref.Pt {
	r := make([]ref.Pt, len(ps))
	for i := range ps {
		r[i] = Ref(ps[i])
	}
	return r
}

// RefProof reads the elements of a proof that matter to a verifier.
func RefProof(p *bp.BulletProof) ref.Proof {
	return ref.Proof{
		N: int(p.Params.N), V: Ref(p.V), A: Ref(p.A), S: Ref(p.S), T1: Ref(p.T1), T2: Ref(p.T2),
		Commit: Ref(p.Commit), Taux: p.Taux, Mu: p.Mu, Tprime: p.Tprime,
		IP: ref.IPProof{Ls: Refs(p.InnerProductProof.Ls), Rs: Refs(p.InnerProductProof.Rs),
			A: p.InnerProductProof.A, B: p.InnerProductProof.B},
	}
}

// LibProof fills in a proof of the library, including the redundant elements of the
// inner product proof.
func LibProof(pr ref.Proof, rp ref.Params) bp.BulletProof {
	n := int64(rp.N)
	params := LibParams(rp)
	y, _ := ref.YZ(pr.A, pr.S, pr.V)
	hp := Libs(ref.HPrime(rp.Hh, y))
	x := ref.HashIP(rp.Gg, ref.HPrime(rp.Hh, y), pr.Commit, pr.Tprime)
	u := rp.U.Mul(x)
	pp := pr.Commit.Add(u.Mul(pr.Tprime))
	ip := bp.InnerProductParams{N: n, Cc: pr.Tprime, Uu: Lib(rp.U), H: Lib(rp.H), Gg: Libs(rp.Gg), Hh: hp, P: Lib(pp)}
	params.InnerProductParams = ip
	return bp.BulletProof{
		V: Lib(pr.V), A: Lib(pr.A), S: Lib(pr.S), T1: Lib(pr.T1), T2: Lib(pr.T2),
		Taux: pr.Taux, Mu: pr.Mu, Tprime: pr.Tprime, Commit: Lib(pr.Commit), Params: params,
		InnerProductProof: bp.InnerProductProof{N: n, Ls: Libs(pr.IP.Ls), Rs: Libs(pr.IP.Rs),
			U: Lib(u), P: Lib(pp), Gg: Lib(rp.Gg[0]), Hh: Lib(rp.Hh[0]),
			A: pr.IP.A, B: pr.IP.B, Params: ip},
	}
}

// LibParams converts generators of the model (not necessarily the canonical ones).
func LibParams(rp ref.Params) bp.BulletProofSetupParams {
	return bp.BulletProofSetupParams{N: int64(rp.N), G: Lib(ref.G), H: Lib(rp.H), Gg: Libs(rp.Gg), Hh: Libs(rp.Hh)}
}

// Clone copies a proof, generic proof or parameters deeply.
func Clone[V any](v V) V {
	return deep(reflect.ValueOf(&v).Elem()).Interface().(V)
}

var bigPtr = reflect.TypeOf((*big.Int)(nil))

func deep(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		if v.Type() == bigPtr {
			out.Set(reflect.ValueOf(new(big.Int).Set(v.Interface().(*big.Int))))
			return out
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deep(v.Elem()))
		out.Set(p)
	case reflect.Struct:
		out.Set(v) // unexported fields, if any, stay shared
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(deep(v.Field(i)))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deep(v.Index(i)))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deep(v.Elem()))
		}
	default:
		out.Set(v)
	}
	return out
}

// JSON encodes any value; failing to encode is a failure of the case.
func JSON(c *pbt.C, v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("cannot encode %T: %v", v, err)
	}
	return string(b)
}

// ViaJSON encodes and decodes a value.
func ViaJSON[V any](c *pbt.C, v V) V {
	var w V
	if err := json.Unmarshal([]byte(JSON(c, v)), &w); err != nil {
		c.Fatalf("cannot decode %T: %v", v, err)
	}
	return w
}

// Special scalars that the tape can force the prover to draw.
func SpecialScalar(c *pbt.C, label string) []byte {
	x := new(big.Int)
	switch pbt.IntN(c, label, 0, 6) {
	case 0:
	case 1:
		x.SetInt64(1)
	case 2:
		x.Sub(Order, big.NewInt(1))
	case 3:
		x.SetInt64(int64(pbt.IntN(c, label+".small", 2, 300)))
	case 4:
		x.Rsh(Order, 1)
	case 5: // not below the order: must be drawn again
		x.Add(Order, big.NewInt(int64(pbt.IntN(c, label+".over", 0, 2))))
	case 6:
		x.Lsh(big.NewInt(1), 256)
		x.Sub(x, big.NewInt(1))
	}
	return x.FillBytes(make([]byte, 32))
}

// OddTape makes some of the first reads of the tape return special scalars.
func OddTape(c *pbt.C, t *pbt.Tape, reads int) {
	t.Over = map[int][]byte{}
	k := pbt.IntN(c, "odd.n", 1, 5)
	for j := 0; j < k; j++ {
		t.Over[pbt.IntN(c, "odd.at", 0, reads-1)] = SpecialScalar(c, "odd.v")
	}
}

// InRange draws an element of [0, 2^n) with the ends preferred.
func InRange(c *pbt.C, label string, n int) *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), uint(n))
	x := new(big.Int)
	switch pbt.IntN(c, label+".kind", 0, 3) {
	case 0:
		x.SetInt64(int64(pbt.IntN(c, label, 0, 3)))
	case 1:
		x.Sub(top, big.NewInt(int64(pbt.IntN(c, label, 1, 4))))
	case 2:
		x.Lsh(big.NewInt(1), uint(pbt.IntN(c, label, 0, n)))
		x.Sub(x, big.NewInt(int64(pbt.IntN(c, label+".d", 0, 1))))
	default:
		x = pbt.Uniform(c, label, top)
	}
	return x.Mod(x, top)
}

// SmallSize prefers cheap sizes, but reaches all of them.
func SmallSize(c *pbt.C, label string) int {
	return pbt.Pick(c, label, 1, 2, 4, 8, 1, 2, 4, 8, 16, 2, 4, 8, 32)
}
