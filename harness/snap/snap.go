// Package snap takes fingerprints of the memory a value holds, field by field, to see what an operation changed.
package snap

import (
	"reflect"
	"unsafe"
)

// Sum is a fingerprint under construction.
type Sum uint64

func (s *Sum) word(x uint64) {
	h := uint64(*s)
	h = (h ^ x) * 0x9E3779B97F4A7C15
	h ^= h >> 29
	*s = Sum(h)
}

func (s *Sum) bytes(p unsafe.Pointer, n uintptr) {
	h := uint64(*s)
	for ; n >= 8; n -= 8 {
		h = (h ^ *(*uint64)(p)) * 0x9E3779B97F4A7C15
		h ^= h >> 29
		p = unsafe.Add(p, 8)
	}
	for ; n > 0; n-- {
		h = (h ^ uint64(*(*byte)(p))) * 0x9E3779B97F4A7C15
		h ^= h >> 29
		p = unsafe.Add(p, 1)
	}
	*s = Sum(h)
}

var flat = map[reflect.Kind]bool{reflect.Int: true, reflect.Int8: true, reflect.Int16: true, reflect.Int32: true, reflect.Int64: true, reflect.Uint: true, reflect.Uint8: true, reflect.Uint16: true,
	reflect.Uint32: true, reflect.Uint64: true, reflect.Uintptr: true, reflect.Bool: true, reflect.Float32: true, reflect.Float64: true}

func isFlat(t reflect.Type) bool {
	for t.Kind() == reflect.Array {
		t = t.Elem()
	}
	return flat[t.Kind()]
}

// Add takes in the value. It must be addressable.
func (s *Sum) Add(v reflect.Value) {
	t := v.Type()
	if isFlat(t) {
		s.bytes(unsafe.Pointer(v.UnsafeAddr()), t.Size())
		return
	}
	switch t.Kind() {
	case reflect.Slice:
		n := v.Len()
		s.word(uint64(n))
		if n == 0 {
			return
		}
		if isFlat(t.Elem()) {
			s.bytes(v.UnsafePointer(), uintptr(n)*t.Elem().Size())
			return
		}
		for i := 0; i < n; i++ {
			s.Add(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.Add(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.Add(v.Field(i))
		}
	case reflect.Ptr:
		if v.IsNil() {
			s.word(0)
		} else {
			s.word(1)
			s.Add(v.Elem())
		}
	case reflect.String:
		for _, c := range []byte(v.String()) {
			s.word(uint64(c))
		}
		s.word(uint64(v.Len()))
	}
	// maps, functions, channels and interfaces are not looked into
}

// Of is the fingerprint of what p points to.
func Of(p interface{}) Sum {
	var s Sum
	s.Add(reflect.ValueOf(p).Elem())
	return s
}

// Fields are the fingerprints of the fields of the struct p points to; those skip names are left out.
func Fields(p interface{}, skip func(name string) bool) map[string]Sum {
	v := reflect.ValueOf(p).Elem()
	o := map[string]Sum{}
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if skip != nil && skip(n) {
			continue
		}
		var s Sum
		s.Add(v.Field(i))
		o[n] = s
	}
	return o
}

// Changed names a field that is not as it was, the first in alphabetical order, or "".
func Changed(before, after map[string]Sum) string {
	first := ""
	for n, s := range before {
		if after[n] != s && (first == "" || n < first) {
			first = n
		}
	}
	return first
}
