package ccx

import (
	"fmt"
	"math/big"

	"github.com/ing-bank/zkrp/ccs08"

	"verif/pbt"
)

// Range is the range proof scheme for [a, b).
type Range struct{ Z *ccs08.VerifRange }

// NewRange runs Setup.
func NewRange(a, b int64) (*Range, error) {
	z := new(ccs08.VerifRange)
	err := z.Setup(a, b)
	return &Range{z}, err
}

// Copy shares the parameters and has its own proof.
func (r *Range) Copy() *Range {
	z := *r.Z
	return &Range{&z}
}

// Prove proves for x with randomness k. An error says whether it panicked.
func (r *Range) Prove(x, k *big.Int) (err error, panicked bool) {
	ccs08.VerifSetSecret(r.Z, x, k)
	if p, st := pbt.Guard(func() { err = r.Z.Prove() }); p != nil {
		return fmt.Errorf("panic: %v\n%s", p, st), true
	}
	return err, false
}

// Accepts verifies; a panic counts as a rejection.
func (r *Range) Accepts() (ok bool, err error) {
	if p, st := pbt.Guard(func() { ok, err = r.Z.Verify() }); p != nil {
		return false, fmt.Errorf("panic: %v\n%s", p, st)
	}
	return
}

// Obj gives access to the fields.
func (r *Range) Obj() Obj { return Obj{r.Z} }

// Half is a pointer to the first or second half of the proof.
func (r *Range) Half(i int) (Obj, bool) {
	f, ok := r.Obj().Field(fmt.Sprintf("proof_out.p%d", i+1))
	if !ok || !f.CanAddr() {
		return Obj{}, false
	}
	return Obj{f.Addr().Interface()}, true
}
