package hdr

import (
	"compress/gzip"
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/state"
)

// CdfFields lists the names of the distributions a frame has.
func CdfFields() []string {
	var o []string
	t := reflect.TypeOf(state.State{})
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Name
		if strings.HasSuffix(n, "Cdf") && !strings.HasPrefix(n, "Tile") && !strings.HasPrefix(n, "Saved") {
			o = append(o, n)
		}
	}
	return o
}

// CdfClearer returns a function that empties the distributions of s.
func CdfClearer(s *state.State) func() {
	v := reflect.ValueOf(s).Elem()
	var fs, zs []reflect.Value
	for _, n := range CdfFields() {
		fs = append(fs, v.FieldByName(n))
		zs = append(zs, reflect.Zero(v.FieldByName(n).Type()))
	}
	return func() {
		for i := range fs {
			fs[i].Set(zs[i])
		}
	}
}

// Flat lists the numbers of a nested array, and where each innermost array ends.
func Flat(v reflect.Value) (nums []int, ends []int) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return
		}
		if v.Type().Elem().Kind() == reflect.Int {
			for i := 0; i < v.Len(); i++ {
				nums = append(nums, int(v.Index(i).Int()))
			}
			ends = append(ends, len(nums))
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i))
		}
	}
	walk(v)
	return
}

// Table is a default distribution table as the specification gives it: flattened.
type Table struct {
	Nums, Ends []int
	Dims       []int // the sizes of the array, the outermost first
}

// Dims returns the sizes of a nested array, and whether all arrays of a level have the same.
func Dims(v reflect.Value) (dims []int, ok bool) {
	ok = true
	var walk func(v reflect.Value, level int)
	walk = func(v reflect.Value, level int) {
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return
		}
		if level == len(dims) {
			dims = append(dims, v.Len())
		}
		ok = ok && dims[level] == v.Len()
		if v.Type().Elem().Kind() == reflect.Int {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), level+1)
		}
	}
	walk(v, 0)
	return
}

// Golden is the content of golden/cdfs.json.gz: the default tables, by syntax element and, for those chosen by
// the quantizer, by range.
type Golden map[string][]Table

func (g Golden) Get(name string, ctx int) (Table, bool) {
	t, ok := g[name]
	if !ok {
		return Table{}, false
	}
	if len(t) == 1 {
		return t[0], true
	}
	return t[ctx], true
}

// Context is the range of a base quantizer index.
func Context(q int) int {
	switch {
	case q <= 20:
		return 0
	case q <= 60:
		return 1
	case q <= 120:
		return 2
	}
	return 3
}

// LoadGolden reads the tables.
func LoadGolden(dir string) Golden {
	f, err := os.Open(filepath.Join(dir, "golden", "cdfs.json.gz"))
	if err == nil {
		var z *gzip.Reader
		if z, err = gzip.NewReader(f); err == nil {
			g := Golden{}
			if err = json.NewDecoder(z).Decode(&g); err == nil {
				return g
			}
		}
	}
	panic(err)
}

// Same compares a distribution array with a table; counters reports whether the counts matter.
func Same(v reflect.Value, t Table) (ok bool, at int) {
	i, ok, at := 0, true, -1
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !ok {
			return
		}
		if x, is := v.Interface().([]int); is {
			for _, y := range x {
				if i >= len(t.Nums) || t.Nums[i] != y {
					ok, at = false, i
					return
				}
				i++
			}
			return
		}
		for k := 0; k < v.Len(); k++ {
			walk(v.Index(k))
		}
	}
	walk(v)
	if ok && i != len(t.Nums) {
		return false, i
	}
	return ok, at
}

// Walker returns a function that visits the innermost arrays of an addressable nested array.
func Walker(v reflect.Value) func(f func([]int)) {
	switch p := v.Addr().Interface().(type) {
	case *[]int:
		return func(f func([]int)) { f(*p) }
	case *[][]int:
		return func(f func([]int)) {
			for _, x := range *p {
				f(x)
			}
		}
	case *[][][]int:
		return func(f func([]int)) {
			for _, y := range *p {
				for _, x := range y {
					f(x)
				}
			}
		}
	case *[][][][]int:
		return func(f func([]int)) {
			for _, z := range *p {
				for _, y := range z {
					for _, x := range y {
						f(x)
					}
				}
			}
		}
	}
	if v.Kind() == reflect.Array && v.Type().Elem().Kind() != reflect.Int {
		var subs []func(func([]int))
		for i := 0; i < v.Len(); i++ {
			subs = append(subs, Walker(v.Index(i)))
		}
		return func(f func([]int)) {
			for _, s := range subs {
				s(f)
			}
		}
	}
	return func(f func([]int)) {
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
				return
			}
			if v.Type().Elem().Kind() == reflect.Int {
				f(v.Slice(0, v.Len()).Interface().([]int))
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
		walk(v)
	}
}

// Set is a family of distributions kept together: a frame's, a tile's, the saved ones, a slot's.
type Set struct {
	Names []string
	walk  []func(func([]int))
	base  reflect.Value
	pre   string

	fields map[string]reflect.Value
}

// NewSet collects the fields of an addressable struct that hold the named distributions.
func NewSet(v reflect.Value, prefix string, names []string) *Set {
	s := &Set{base: v, pre: prefix, fields: map[string]reflect.Value{}}
	for _, n := range names {
		f := v.FieldByName(prefix + n)
		if !f.IsValid() {
			continue
		}
		s.Names = append(s.Names, n)
		s.fields[n] = f
		s.walk = append(s.walk, Walker(f))
	}
	return s
}

func (s *Set) Field(name string) reflect.Value {
	if f, ok := s.fields[name]; ok {
		return f
	}
	return s.base.FieldByName(s.pre + name)
}

// Values is the content of a Set, by name.
type Values map[string][]int

// Read copies the content.
func (s *Set) Read() Values {
	o := Values{}
	for i, n := range s.Names {
		var x []int
		s.walk[i](func(l []int) { x = append(x, l...) })
		o[n] = x
	}
	return o
}

// Change applies f to every distribution.
func (s *Set) Change(f func(name string, l []int)) {
	for i, n := range s.Names {
		s.walk[i](func(l []int) { f(n, l) })
	}
}

// Differs names the first distribution that is not as wanted. Counts may be zero instead if reset allows it.
func (s *Set) Differs(want Values, reset bool) (name string, at, got, exp int) {
	for i, n := range s.Names {
		w := want[n]
		k, bad := 0, -1
		s.walk[i](func(l []int) {
			for j, x := range l {
				if bad < 0 && (k >= len(w) || w[k] != x) && !(reset && j == len(l)-1 && x == 0 && k < len(w)) {
					bad, got = k, x
				}
				k++
			}
		})
		if bad < 0 && k != len(w) {
			return n, k, 0, w[k]
		}
		if bad >= 0 {
			e := 0
			if bad < len(w) {
				e = w[bad]
			}
			return n, bad, got, e
		}
	}
	return "", 0, 0, 0
}
