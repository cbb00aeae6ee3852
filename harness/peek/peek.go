// Package peek reads unexported state by name or by type.
package peek

import (
	"fmt"
	"reflect"
	"unsafe"
)

func open(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// Find returns every non-nil pointer of type t (and the address of every
// value t points to) reachable from p through
// pointers, structs, slices, arrays, maps and interfaces of the packages
// under test, in traversal order; values of the skipped types are not entered.
func Find(p interface{}, t reflect.Type, skip ...reflect.Type) []interface{} {
	var out []interface{}
	skipped := map[reflect.Type]bool{}
	for _, s := range skip {
		skipped[s] = true
	}
	seen := map[unsafe.Pointer]map[reflect.Type]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if skipped[v.Type()] {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			ptr := unsafe.Pointer(v.Pointer())
			if seen[ptr] == nil {
				seen[ptr] = map[reflect.Type]bool{}
			}
			if seen[ptr][v.Type()] {
				return
			}
			seen[ptr][v.Type()] = true
			if v.Type() == t {
				out = append(out, reflect.NewAt(t.Elem(), ptr).Interface())
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			if v.CanAddr() && v.Type() == t.Elem() { // held by value
				ptr := unsafe.Pointer(v.UnsafeAddr())
				if seen[ptr] == nil {
					seen[ptr] = map[reflect.Type]bool{}
				}
				if !seen[ptr][t] {
					seen[ptr][t] = true
					out = append(out, reflect.NewAt(t.Elem(), ptr).Interface())
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(open(v.Field(i)))
			}
		case reflect.Slice, reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Array, reflect.Interface, reflect.Map:
				if skipped[v.Type().Elem()] {
					return
				}
				for i := 0; i < v.Len(); i++ {
					walk(open(v.Index(i)))
				}
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		}
	}
	walk(reflect.ValueOf(p))
	return out
}

// First returns the first pointer of type t reachable from p.
func First(p interface{}, t reflect.Type, skip ...reflect.Type) interface{} {
	f := Find(p, t, skip...)
	if len(f) == 0 {
		panic(fmt.Sprintf("HARNESS-BUG: no %v in %T", t, p))
	}
	return f[0]
}

// IntTables returns every table of integers the struct p points to holds:
// slices and arrays of integers, and slices of such slices concatenated, by
// field name, also in structs nested in it.
func IntTables(p interface{}) map[string][]int {
	out := map[string][]int{}
	var ints func(v reflect.Value) ([]int, bool)
	ints = func(v reflect.Value) ([]int, bool) {
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return nil, false
		}
		o := []int{}
		switch k := v.Type().Elem().Kind(); {
		case k >= reflect.Int && k <= reflect.Int64:
			for i := 0; i < v.Len(); i++ {
				o = append(o, int(v.Index(i).Int()))
			}
		case k >= reflect.Uint && k <= reflect.Uint64:
			for i := 0; i < v.Len(); i++ {
				o = append(o, int(v.Index(i).Uint()))
			}
		case k == reflect.Slice || k == reflect.Array:
			for i := 0; i < v.Len(); i++ {
				x, ok := ints(v.Index(i))
				if !ok {
					return nil, false
				}
				o = append(o, x...)
			}
		default:
			return nil, false
		}
		return o, true
	}
	var walk func(prefix string, v reflect.Value, depth int)
	walk = func(prefix string, v reflect.Value, depth int) {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || depth > 3 {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			name := prefix + v.Type().Field(i).Name
			if x, ok := ints(v.Field(i)); ok {
				out[name] = x
			} else {
				walk(name+".", v.Field(i), depth+1)
			}
		}
	}
	walk("", reflect.ValueOf(p), 0)
	return out
}
