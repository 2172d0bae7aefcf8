// Package ccx gives access to the pairing based proofs of the library, whose types are
// not exported: calls keep the concrete types behind closures, elements are reached by
// reflection. An element that does not exist any more leaves a case undecided.
package ccx

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/ing-bank/zkrp/ccs08"
	"github.com/ing-bank/zkrp/crypto/bn256"

	"verif/pbt"
)

var (
	tInt = reflect.TypeOf((*big.Int)(nil))
	tG1  = reflect.TypeOf((*bn256.G1)(nil))
	tG2  = reflect.TypeOf((*bn256.G2)(nil))
	tGT  = reflect.TypeOf((*bn256.GT)(nil))
)

// Obj is a pointer to a value of the library.
type Obj struct{ Ptr any }

// open makes a field settable although it is not exported.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// Leaf is one group element or number inside of a value; Ref is a settable pointer.
type Leaf struct {
	Path string
	Ref  reflect.Value
}

func (l Leaf) G1() *bn256.G1 { v, _ := l.Ref.Interface().(*bn256.G1); return v }
func (l Leaf) G2() *bn256.G2 { v, _ := l.Ref.Interface().(*bn256.G2); return v }
func (l Leaf) GT() *bn256.GT { v, _ := l.Ref.Interface().(*bn256.GT); return v }
func (l Leaf) Int() *big.Int { v, _ := l.Ref.Interface().(*big.Int); return v }
func (l Leaf) IsG1() bool    { return l.Ref.Type() == tG1 }
func (l Leaf) IsG2() bool    { return l.Ref.Type() == tG2 }
func (l Leaf) IsGT() bool    { return l.Ref.Type() == tGT }
func (l Leaf) IsInt() bool   { return l.Ref.Type() == tInt }
func (l Leaf) Set(v any)     { l.Ref.Set(reflect.ValueOf(v)) }
func (l Leaf) Nil() bool     { return l.Ref.IsNil() }

// Value is a canonical text of the element.
func (l Leaf) Value() string {
	if l.Ref.IsNil() {
		return "nil"
	}
	switch v := l.Ref.Interface().(type) {
	case *big.Int:
		return v.String()
	case *bn256.G1:
		return fmt.Sprintf("%x", copyG1(v).Marshal())
	case *bn256.G2:
		return fmt.Sprintf("%x", CopyG2(v).Marshal())
	case *bn256.GT:
		return fmt.Sprintf("%x", v.Marshal())
	}
	return "?"
}

func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		if v.Type() == tInt {
			out.Set(reflect.ValueOf(new(big.Int).Set(v.Interface().(*big.Int))))
			return out
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		out.Set(p)
	case reflect.Struct:
		src := v
		if !src.CanAddr() {
			src = reflect.New(v.Type()).Elem()
			src.Set(v)
		}
		for i := 0; i < v.NumField(); i++ {
			open(out.Field(i)).Set(deepCopy(open(src.Field(i))))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for it := v.MapRange(); it.Next(); {
			out.SetMapIndex(it.Key(), deepCopy(it.Value()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCopy(v.Elem()))
		}
	default:
		out.Set(v)
	}
	return out
}

func copyG1(p *bn256.G1) *bn256.G1 { return deepCopy(reflect.ValueOf(p)).Interface().(*bn256.G1) }

// CopyG2 copies an element with its representation.
func CopyG2(p *bn256.G2) *bn256.G2 { return deepCopy(reflect.ValueOf(p)).Interface().(*bn256.G2) }

// CopyGT copies an element.
func CopyGT(p *bn256.GT) *bn256.GT { return deepCopy(reflect.ValueOf(p)).Interface().(*bn256.GT) }

// Clone copies the value deeply.
func (o Obj) Clone() Obj { return Obj{deepCopy(reflect.ValueOf(o.Ptr)).Interface()} }

// Leaves lists the group elements and numbers of a value in a fixed order.
func (o Obj) Leaves() []Leaf {
	var out []Leaf
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		switch v.Type() {
		case tInt, tG1, tG2, tGT:
			out = append(out, Leaf{path, v})
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(path, v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, open(v.Field(i)))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		}
	}
	walk("", reflect.ValueOf(o.Ptr).Elem())
	return out
}

// Text is a canonical text of all numbers and elements, including those in maps.
func (o Obj) Text() string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Type() {
		case tInt, tG1, tG2, tGT:
			b.WriteString(Leaf{"", v}.Value() + ";")
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil;")
			} else {
				walk(v.Elem())
			}
		case reflect.Struct:
			src := v
			if !src.CanAddr() {
				src = reflect.New(v.Type()).Elem()
				src.Set(v)
			}
			for i := 0; i < v.NumField(); i++ {
				walk(open(src.Field(i)))
			}
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(&b, "%d[", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			b.WriteString("]")
		case reflect.Map:
			keys := map[string]reflect.Value{}
			var names []string
			for it := v.MapRange(); it.Next(); {
				n := fmt.Sprint(it.Key().Interface())
				keys[n] = it.Value()
				names = append(names, n)
			}
			sortStrings(names)
			for _, n := range names {
				b.WriteString(n + ":")
				walk(keys[n])
			}
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil;")
			} else {
				walk(v.Elem())
			}
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		default:
			fmt.Fprintf(&b, "%v;", v.Interface())
		}
	}
	walk(reflect.ValueOf(o.Ptr))
	return b.String()
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Field finds a field by its path of names, ignoring case and underscores.
func (o Obj) Field(path string) (reflect.Value, bool) {
	v := reflect.ValueOf(o.Ptr).Elem()
	for _, name := range strings.Split(path, ".") {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return v, false
		}
		found := false
		exact := -1
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == name {
				exact = i
			}
		}
		for i := 0; !found && i < v.NumField(); i++ {
			if exact == i || exact < 0 && norm(v.Type().Field(i).Name) == norm(name) {
				v = open(v.Field(i))
				found = true
			}
		}
		if !found {
			return v, false
		}
	}
	return v, true
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// Lookup is the value of a field with a known type; false if there is none.
func Lookup[V any](o Obj, path string) (out V, ok bool) {
	f, ok := o.Field(path)
	if !ok {
		return out, false
	}
	if f.Type() != reflect.TypeOf(&out).Elem() {
		return out, false
	}
	return f.Interface().(V), true
}

// Put sets a field; false if there is none of this type.
func Put[V any](o Obj, path string, x V) bool {
	f, ok := o.Field(path)
	if !ok || f.Type() != reflect.TypeOf(&x).Elem() {
		return false
	}
	f.Set(reflect.ValueOf(&x).Elem())
	return true
}

// Parts are the elements of a set membership proof (with one component each) or of a
// digit proof.
type Parts struct {
	V        []*bn256.G2
	D, C     *bn256.G2
	A        []*bn256.GT
	Zsig, Zv []*big.Int
	Ch, Zr   *big.Int
}

// Scheme is a set membership or a digit based scheme with fixed parameters.
type Scheme struct {
	Set    bool
	Params Obj
	Digits int   // components of a proof
	Base   int64 // 0 for sets
	Prove  func(x, r *big.Int) (Obj, error)
	Verify func(Obj) (bool, error)
	fresh  func() Obj
	rebind func(Obj) *Scheme
}

func verify[P, Q any](f func(*P, *Q) (bool, error), params *Q) func(Obj) (bool, error) {
	return func(o Obj) (bool, error) { return f(o.Ptr.(*P), params) }
}

func fresh[P, Q any](f func(*P, *Q) (bool, error)) func() Obj {
	return func() Obj { return Obj{new(P)} }
}

// bind makes a scheme of concrete functions and parameters.
func bindSet[P, Q any](prove func(int64, *big.Int, Q) (P, error), ver func(*P, *Q) (bool, error), p *Q) *Scheme {
	return &Scheme{Set: true, Params: Obj{p}, Digits: 1,
		Prove: func(x, r *big.Int) (Obj, error) {
			q, err := prove(x.Int64(), r, *p)
			return Obj{&q}, err
		},
		Verify: verify(ver, p), fresh: fresh(ver),
		rebind: func(o Obj) *Scheme { return bindSet(prove, ver, o.Ptr.(*Q)) }}
}

func bindUL[P, Q any](prove func(x, r *big.Int, p Q) (P, error), ver func(*P, *Q) (bool, error), p *Q) *Scheme {
	return &Scheme{Params: Obj{p},
		Prove: func(x, r *big.Int) (Obj, error) {
			q, err := prove(x, r, *p)
			return Obj{&q}, err
		},
		Verify: verify(ver, p), fresh: fresh(ver),
		rebind: func(o Obj) *Scheme { return bindUL(prove, ver, o.Ptr.(*Q)) }}
}

// WithParams is the scheme with its own copy of the parameters.
func (s *Scheme) WithParams(c *pbt.C) *Scheme {
	n := s.rebind(s.Params.Clone())
	n.Digits, n.Base = s.Digits, s.Base
	return n
}

// Rebind is the scheme with other parameters of the same type.
func (s *Scheme) Rebind(params Obj) *Scheme {
	n := s.rebind(params)
	n.Digits, n.Base = s.Digits, s.Base
	return n
}

// Assign copies the contents of another value of the same type.
func (o Obj) Assign(from Obj) {
	reflect.ValueOf(o.Ptr).Elem().Set(reflect.ValueOf(from.Ptr).Elem())
}

// NewSet sets up a set membership scheme.
func NewSet(s []int64) (*Scheme, error) {
	p, err := ccs08.SetupSet(s)
	if err != nil {
		return nil, err
	}
	return bindSet(ccs08.ProveSet, ccs08.VerifySet, &p), nil
}

// NewUL sets up a digit based scheme.
func NewUL(u, l int64) (*Scheme, error) {
	p, err := ccs08.SetupUL(u, l)
	if err != nil {
		return nil, err
	}
	s := bindUL(ccs08.ProveUL, ccs08.VerifyUL, &p)
	s.Digits, s.Base = int(l), u
	return s, nil
}

// Accepts verifies; a panic counts as a rejection (crashes are another property's
// subject).
func (s *Scheme) Accepts(o Obj) (ok bool) {
	pbt.Guard(func() {
		a, _ := s.Verify(o)
		ok = a
	})
	return ok
}

// Parts reads the elements of a proof.
func (s *Scheme) Parts(o Obj) (p Parts, ok bool) {
	get2 := func(name string) (*bn256.G2, bool) { return Lookup[*bn256.G2](o, name) }
	oks := make([]bool, 0, 8)
	add := func(b bool) { oks = append(oks, b) }
	var b bool
	p.D, b = get2("D")
	add(b)
	p.C, b = get2("C")
	add(b)
	p.Ch, b = Lookup[*big.Int](o, "c")
	add(b)
	p.Zr, b = Lookup[*big.Int](o, "zr")
	add(b)
	if s.Set {
		v, b := get2("V")
		add(b)
		a, b := Lookup[*bn256.GT](o, "a")
		add(b)
		z, b := Lookup[*big.Int](o, "zsig")
		add(b)
		w, b := Lookup[*big.Int](o, "zv")
		add(b)
		p.V, p.A, p.Zsig, p.Zv = []*bn256.G2{v}, []*bn256.GT{a}, []*big.Int{z}, []*big.Int{w}
	} else {
		p.V, b = Lookup[[]*bn256.G2](o, "V")
		add(b)
		p.A, b = Lookup[[]*bn256.GT](o, "a")
		add(b)
		p.Zsig, b = Lookup[[]*big.Int](o, "zsig")
		add(b)
		p.Zv, b = Lookup[[]*big.Int](o, "zv")
		add(b)
	}
	for _, b := range oks {
		if !b {
			return p, false
		}
	}
	return p, true
}

// Build makes a proof of the elements.
func (s *Scheme) Build(p Parts) (Obj, bool) {
	o := s.fresh()
	ok := Put(o, "D", p.D) && Put(o, "C", p.C) && Put(o, "c", p.Ch) && Put(o, "zr", p.Zr)
	if s.Set {
		ok = ok && Put(o, "V", p.V[0]) && Put(o, "a", p.A[0]) && Put(o, "zsig", p.Zsig[0]) && Put(o, "zv", p.Zv[0])
	} else {
		ok = ok && Put(o, "V", p.V) && Put(o, "a", p.A) && Put(o, "zsig", p.Zsig) && Put(o, "zv", p.Zv)
	}
	return o, ok
}

// Public are the public elements of the parameters.
type Public struct {
	H    *bn256.G2
	Key  *bn256.G1
	Sigs map[int64]*bn256.G2
}

// Public reads the parameters.
func (s *Scheme) Public() (p Public, ok bool) {
	h, a := Lookup[*bn256.G2](s.Params, "H")
	k, b := Lookup[*bn256.G1](s.Params, "kp.Pubk")
	if !a || !b {
		return p, false
	}
	p.H, p.Key, p.Sigs = h, k, map[int64]*bn256.G2{}
	f, ok := s.Params.Field("signatures")
	if !ok || f.Kind() != reflect.Map || f.Type().Elem() != tG2 {
		return p, false
	}
	for it := f.MapRange(); it.Next(); {
		x, good := new(big.Int).SetString(fmt.Sprint(it.Key().Interface()), 10)
		if !good || !x.IsInt64() {
			return p, false
		}
		p.Sigs[x.Int64()] = it.Value().Interface().(*bn256.G2)
	}
	return p, true
}
