package ccx

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
)

// Number is a number found somewhere in a value.
type Number struct {
	Path  string
	Value *big.Int
}

// Numbers lists everything in a value that can be read as a number: big integers,
// integers, byte strings and texts, in fields, lists, maps (keys and values) and behind
// interfaces. Group elements are not taken apart.
func (o Obj) Numbers() []Number {
	var out []Number
	add := func(path string, x *big.Int) { out = append(out, Number{path, x}) }
	text := func(path, s string) {
		if x, ok := new(big.Int).SetString(s, 10); ok {
			add(path, x)
		}
		if x, ok := new(big.Int).SetString(s, 0); ok {
			add(path, x)
		}
		if b, err := hex.DecodeString(s); err == nil && len(b) > 0 {
			add(path, new(big.Int).SetBytes(b))
		}
		if len(s) >= 8 {
			add(path, new(big.Int).SetBytes([]byte(s)))
		}
	}
	seen := map[uintptr]bool{}
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		switch v.Type() {
		case tG1, tG2, tGT:
			return
		case tInt:
			if !v.IsNil() {
				add(path, new(big.Int).Set(v.Interface().(*big.Int)))
			}
			return
		case tInt.Elem():
			c := reflect.New(v.Type())
			c.Elem().Set(v)
			add(path, new(big.Int).Set(c.Interface().(*big.Int)))
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(path, v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(path, v.Elem())
			}
		case reflect.Struct:
			src := v
			if !src.CanAddr() {
				src = reflect.New(v.Type()).Elem()
				src.Set(v)
			}
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, open(src.Field(i)))
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b := make([]byte, v.Len())
				reflect.Copy(reflect.ValueOf(b), v)
				if len(b) > 0 {
					add(path, new(big.Int).SetBytes(b))
				}
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				p := fmt.Sprintf("%s[%v]", path, it.Key())
				walk(p+" (key)", it.Key())
				walk(p, it.Value())
			}
		case reflect.String:
			text(path, v.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			add(path, big.NewInt(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			add(path, new(big.Int).SetUint64(v.Uint()))
		}
	}
	walk("", reflect.ValueOf(o.Ptr))
	return out
}
