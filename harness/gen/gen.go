// Package gen makes headers: it is the source of syntax elements whose values the explorer picks.
package gen

import (
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// Gen is a spec.Source that writes what the explorer picks.
type Gen struct {
	C    *mc.Ch
	W    spec.Writer
	Base func(name string, idx, n int) int // default value of a field
	// Cost of departing from the default; 0 fixes the field to it, a negative cost explores every alternative
	// whatever the bound.
	Cost func(name string, idx int) int
	// Whole says that all values of fields up to this width are alternatives, whatever the field.
	Whole int
	// All says that the field takes every value of its width when nothing else departs (width up to 9).
	All func(name string) bool
	// Values replaces the alternatives of a field.
	Values map[string][]int
	Bound  int
	buf    [64]int
}

func (g *Gen) Pos() int { return g.W.Pos }

func mask(n int) int { return 1<<uint(n) - 1 }

// alternatives of an n-bit field with default v: everything if it is narrow, else the corners.
func (g *Gen) alternatives(n, v, whole int, vals []int) []int {
	o := g.buf[:0]
	m := mask(n)
	if vals != nil {
		for _, x := range vals {
			if x <= m && x != v {
				o = append(o, x)
			}
		}
		return o
	}
	if n <= whole {
		for x := 0; x <= m; x++ {
			if x != v {
				o = append(o, x)
			}
		}
		return o
	}
corner:
	for _, x := range [6]int{0, m, 1, 1 << uint(n-1), m >> 1, (0x2D5A6E93C1B7 >> 3) & m} {
		if x == v {
			continue
		}
		for _, y := range o {
			if y == x {
				continue corner
			}
		}
		o = append(o, x)
	}
	return o
}

func (g *Gen) F(n int, name string, idx int) int {
	if n == 0 {
		return 0
	}
	v := g.Base(name, idx, n) & mask(n)
	if cost := g.Cost(name, idx); cost != 0 && cost <= g.Bound {
		if cost < 0 {
			cost = 0
		}
		done := false
		if g.All != nil && n > g.Whole && n <= 9 && g.All(name) {
			if i := g.C.Pick(1+mask(n), g.Bound); i > 0 {
				// every other value, alone
				v = (v + i) & mask(n)
				done = true
			}
		}
		if !done {
			alt := g.alternatives(n, v, g.Whole, g.Values[name])
			if i := g.C.Pick(1+len(alt), cost); i > 0 {
				v = alt[i-1]
			}
		}
	}
	g.W.Put(n, v)
	if g.C.Tracing() {
		g.C.Note("%s[%d] = %d (%d bits)", name, idx, v, n)
	}
	return v
}

func (g *Gen) Forced(n int, name string, idx int, v int) int {
	g.W.Put(n, v)
	if g.C.Tracing() {
		g.C.Note("%s[%d] = %d (%d bits, only supported value)", name, idx, v, n)
	}
	return v
}

// Uvlc picks a number of leading zeros and a value.
func (g *Gen) Uvlc(name string) int {
	zs := []int{0, 1, 2, 5, 17, 31, 32, 33}
	z := g.Base(name, 0, 5) % 4
	if cost := g.Cost(name, 0); cost != 0 && cost <= g.Bound {
		if cost < 0 {
			cost = 0
		}
		if i := g.C.Pick(1+len(zs), cost); i > 0 {
			z = zs[i-1]
		}
	}
	for i := 0; i < z; i++ {
		g.W.Put(1, 0)
	}
	g.W.Put(1, 1)
	v := 1<<32 - 1
	if z < 32 {
		v = g.F(z, name+".value", 0) + (1 << uint(z)) - 1
	}
	if g.C.Tracing() {
		g.C.Note("%s = %d (uvlc, %d leading zeros)", name, v, z)
	}
	return v
}

// Profiles of default values.

func Zeros(name string, idx, n int) int { return 0 }
func Ones(name string, idx, n int) int  { return mask(n) }

// Hash gives each field its own arbitrary but fixed bits.
func Hash(seed uint64) func(string, int, int) int {
	return func(name string, idx, n int) int {
		h := 14695981039346656037 ^ seed*0x9E3779B97F4A7C15
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 1099511628211
		}
		h = (h ^ uint64(idx+1)) * 1099511628211
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
		return int(h>>5) & mask(n)
	}
}

// With overrides some fields of a profile.
func With(base func(string, int, int) int, over map[string]int) func(string, int, int) int {
	return func(name string, idx, n int) int {
		if v, ok := over[name]; ok {
			return v
		}
		return base(name, idx, n)
	}
}

// Merge joins override maps, later ones winning.
func Merge(ms ...map[string]int) map[string]int {
	o := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			o[k] = v
		}
	}
	return o
}
