// Package vk is the harness interface.  The symbolic executor interprets the
// functions below itself; the bodies here are used only when a solver
// counterexample is replayed natively against the real code.
package vk

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
)

var vals map[string]int64

func init() {
	b, err := os.ReadFile(os.Getenv("VK_REPLAY"))
	if err == nil {
		var f struct{ Model map[string]int64 }
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		vals = f.Model
	}
}

func val(name string, lo, hi int) int {
	v, ok := vals[name]
	if !ok {
		// unconstrained in the counterexample
		if lo <= 0 && hi >= 0 {
			return 0
		}
		return lo
	}
	if int(v) < lo || int(v) > hi {
		fmt.Println("VK-RANGE", name)
		os.Exit(77)
	}
	return int(v)
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return val(name, lo, hi) }

func IntAt(name string, i int, lo, hi int) int {
	return val(fmt.Sprintf("%s[%d]", name, i), lo, hi)
}

func Bool(name string) bool { return val(name, 0, 1) != 0 }

func BoolAt(name string, i int) bool { return val(fmt.Sprintf("%s[%d]", name, i), 0, 1) != 0 }

func Byte(name string) byte { return byte(val(name, 0, 255)) }

// Bytes is an arbitrary byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i), 0, 255))
	}
	return b
}

func Ints(name string, n int, lo, hi int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = val(fmt.Sprintf("%s[%d]", name, i), lo, hi)
	}
	return b
}

// Fill sets every integer and boolean reachable from *p (through arrays,
// structs and slices) to arbitrary values.
func Fill(name string, p any, lo, hi int) { fill(name, reflect.ValueOf(p).Elem(), lo, hi) }

func fill(name string, v reflect.Value, lo, hi int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(val(name, 0, 1) != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(val(name, lo, hi)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(val(name, lo, hi)))
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			fill(fmt.Sprintf("%s[%d]", name, i), v.Index(i), lo, hi)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(name+"."+v.Type().Field(i).Name, v.Field(i), lo, hi)
		}
	}
}

// Eq is deep equality in which a nil slice equals an empty one.
func Eq(a, b any) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func eq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	switch a.Kind() {
	case reflect.Array, reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return a.Uint() == b.Uint()
	}
	panic("vk.Eq: unsupported kind " + a.Kind().String())
}

// Ite selects without branching.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// And, Or, Imp combine without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Imp(a, b bool) bool { return !a || b }

func Assume(c bool) {
	if !c {
		fmt.Println("VK-ASSUME not satisfied")
		os.Exit(77)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VK-ASSERT " + msg)
		os.Exit(1)
	}
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) {}

// Try runs f and reports whether it completed without panicking.
func Try(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

// Split and SplitBool case-split on a value: the executor explores each case
// on its own path.
func Split(name string, x, lo, hi int) int { return x }

func SplitBool(name string, x bool) bool { return x }

// Join lets paths separated by Split merge again.
func Join() {}

// Pin keeps paths apart while *p has different constant values.
func Pin(p *int) {}

// Thorough reports the tier; harnesses widen their bounds with it.
func Thorough() bool { return os.Getenv("VK_TIER") == "thorough" }

// Cut names a value: exploration treats it as an arbitrary value of its range
// and puts the definition back before a violation is reported.
func Cut(name string, x int) int { return x }
