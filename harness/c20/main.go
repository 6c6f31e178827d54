// C20: literals and non-symmetric values inside tiles.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/ac"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func st(c *mc.Ch) *state.State {
	if s, ok := c.Local["s"].(*state.State); ok {
		return s
	}
	s := &state.State{}
	c.Local["s"] = s
	return s
}

var even = []int{16384, 32768, 0}

// op is one thing coded in a tile.
type op struct {
	kind int // 0 literal of n bits, 1 non-symmetric below n, 2 symbol of an adapting distribution
	n, v int
}

func bits(o op) []int {
	var out []int
	put := func(n, v int) {
		for i := n - 1; i >= 0; i-- {
			out = append(out, (v>>uint(i))&1)
		}
	}
	switch o.kind {
	case 0:
		put(o.n, o.v)
	case 1:
		w := 0
		for 1<<uint(w) <= o.n {
			w++
		}
		m := 1<<uint(w) - o.n
		if o.v < m {
			put(w-1, o.v)
		} else {
			put(w-1, (o.v+m)>>1)
			put(1, (o.v+m)&1)
		}
	}
	return out
}

// tile codes the operations and has the decoder read them back.
func tile(c *mc.Ch, ops []op, how int, off bool) *mc.Fail {
	m := ac.New()
	d := []int{9000, 20000, 32768, 0}
	for _, o := range ops {
		if o.kind == 2 {
			m.Take(d, o.v)
			if !off {
				ac.Adapt(d, o.v)
			}
			continue
		}
		for _, b := range bits(o) {
			m.Take(even, b)
		}
	}
	w := m.Word(how, 0)
	data := append([]byte{0xc9}, w...)
	s := st(c)
	b := &bitstream.BitStream{Data: data, Position: 8}
	size := len(w)
	n := 8 * size
	if n > 15 {
		n = 15
	}
	mm := ac.New()
	s.SymbolValue, s.SymbolRange, s.SymbolMaxBits = 32767-b.F(n)<<uint(15-n), 32768, mm.MaxBits(size)
	uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: off}
	cdf, own := []int{9000, 20000, 32768, 0}, []int{9000, 20000, 32768, 0}
	for i, o := range ops {
		got := -1
		c.Steps++
		e := mc.Catch(func() {
			switch o.kind {
			case 0:
				got = literal.L(o.n, s, b, uh)
			case 1:
				got = literal.NS(o.n, s, b, uh)
			case 2:
				got = symbol.ReadSymbol(cdf, s, b, uh)
			}
		})
		name := []string{"L", "NS", "symbol"}[o.kind]
		if e != nil {
			return mc.Failf("panic in "+name, "%s( %d ) fails, operation %d of %v: %v", name, o.n, i, ops, e)
		}
		if got != o.v {
			return mc.Failf(name, "%s( %d ) = %d, want %d, operation %d of %v", name, o.n, got, o.v, i, ops)
		}
		if o.kind == 2 {
			mm.Take(own, o.v)
			if !off {
				ac.Adapt(own, o.v)
			}
		} else {
			for _, x := range bits(o) {
				mm.Take(even, x)
			}
		}
		if s.SymbolRange != mm.Range || s.SymbolMaxBits != mm.MaxBits(size) || s.SymbolValue != mm.Value(w, size) || b.Position != 8+mm.Pos(size) {
			return mc.Failf("after "+name, "after %s( %d ), operation %d of %v: value %d range %d max bits %d position %d, want %d %d %d %d", name, o.n, i, ops,
				s.SymbolValue, s.SymbolRange, s.SymbolMaxBits, b.Position, mm.Value(w, size), mm.Range, mm.MaxBits(size), 8+mm.Pos(size))
		}
	}
	return nil
}

func main() {
	r := mc.Start()
	maxL, maxN, depth := 13, 520, 4
	if r.Thorough() {
		maxL, maxN, depth = 16, 2060, 5
	}
	scs := []mc.Scenario{
		{Name: "every literal", Run: func(c *mc.Ch) *mc.Fail {
			n := c.All(maxL + 1)
			before := c.All(3)
			hi := 0
			if n > 6 {
				hi = c.All(1 << uint(n-6))
			}
			lo := n
			if lo > 6 {
				lo = 6
			}
			for v := 0; v < 1<<uint(lo); v++ {
				c.Inner++
				ops := []op{{0, n, hi<<6 | v}, {2, 0, v % 3}, {0, n, hi<<6 | v}}
				if before > 0 {
					ops = append([]op{{2, 0, before}}, ops...)
				}
				if f := tile(c, ops, v%3, v&4 == 0); f != nil {
					return f
				}
			}
			c.Note("every %d-bit literal starting with %#x", n, hi)
			return nil
		}},
		{Name: "every long literal with few ones or zeros", Run: func(c *mc.Ch) *mc.Fail {
			n := 12 + c.All(20)
			i, j := c.All(n), c.All(n)
			v := 1<<uint(i) | 1<<uint(j)
			if c.All(2) == 1 {
				v = 1<<uint(n) - 1 - v
			}
			return tile(c, []op{{0, n, v}, {2, 0, 1}, {0, 3, 5}}, i%3, false)
		}},
		{Name: "every non-symmetric value", Run: func(c *mc.Ch) *mc.Fail {
			n := 1 + c.All(maxN)
			how := c.All(3)
			for v := 0; v < n; v++ {
				c.Inner++
				if f := tile(c, []op{{1, n, v}, {2, 0, v % 3}, {1, n, n - 1 - v}}, how, v&1 == 0); f != nil {
					return f
				}
			}
			c.Note("every value below %d", n)
			return nil
		}},
		{Name: "every sequence of reads", Run: func(c *mc.Ch) *mc.Fail {
			menu := []op{{0, 0, 0}, {0, 1, 0}, {0, 1, 1}, {0, 3, 0}, {0, 3, 5}, {0, 3, 7}, {0, 8, 0}, {0, 8, 255}, {0, 8, 0x5a}, {1, 1, 0}, {1, 3, 0}, {1, 3, 1}, {1, 3, 2}, {1, 8, 7}, {1, 13, 2}, {1, 13, 3}, {1, 13, 12}, {2, 0, 0}, {2, 0, 1}, {2, 0, 2}}
			ops := make([]op, depth)
			for i := range ops {
				ops[i] = menu[c.All(len(menu))]
			}
			how := c.All(3)
			c.Note("%v", ops)
			for off := 0; off < 2; off++ {
				c.Inner++
				if f := tile(c, ops, how, off == 1); f != nil {
					return f
				}
			}
			return nil
		}},
	}
	r.Explore(scs...)
	r.Bound("every literal of 0..%d bits, longer ones with up to two odd bits; every value below every n up to %d; every sequence of %d out of 20 reads; three code words each", maxL, maxN, depth)
	r.Finish()
}
