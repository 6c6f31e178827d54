// C19: adaptation of distributions.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/ac"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func st(c *mc.Ch) *state.State {
	if s, ok := c.Local["s"].(*state.State); ok {
		return s
	}
	s := &state.State{}
	c.Local["s"] = s
	return s
}

func clone(x []int) []int { return append([]int{}, x...) }

// decode makes the decoder decode symbol want, and returns what it decodes.
func decode(c *mc.Ch, s *state.State, cdf []int, want int, off bool) (got int, e interface{}) {
	s.SymbolRange = 32768 + 1000*want
	s.SymbolValue = ac.Cur(cdf, s.SymbolRange, want)
	s.SymbolMaxBits = 32
	b := bitstream.BitStream{Data: []byte{0x5a, 0xa5, 0x3c, 0xc3}}
	c.Steps++
	e = mc.Catch(func() {
		got = symbol.ReadSymbol(cdf, s, &b, uncompressedheader.UncompressedHeader{DisableCdfUpdate: off})
	})
	return
}

// coded reports whether the symbol can be decoded at all in the range used.
func coded(cdf []int, s, rng int) bool { return ac.Cur(cdf, rng, s-1) > ac.Cur(cdf, rng, s) }

// valid reports what is wrong with a distribution.
func valid(cdf []int) string {
	n := len(cdf) - 1
	for i := 0; i < n; i++ {
		if cdf[i] < 0 || cdf[i] > 32768 || i > 0 && cdf[i] < cdf[i-1] {
			return fmt.Sprintf("%v is not increasing", cdf)
		}
	}
	if cdf[n-1] != 32768 {
		return fmt.Sprintf("%v does not end at 32768", cdf)
	}
	if cdf[n] < 0 || cdf[n] > 32 {
		return fmt.Sprintf("%v has count %d", cdf, cdf[n])
	}
	return ""
}

// once decodes a symbol out of a distribution kept among others.
func once(c *mc.Ch, s *state.State, d []int, sym int, off bool) *mc.Fail {
	n := len(d)
	// neighbours on both sides, and spare room behind: nothing but the distribution itself may move
	store := make([]int, 0, 3*n+4)
	store = append(store, d...)
	store = append(store, d...)
	store = append(store, d...)
	store = append(store, 7, 7, 7, 7)
	cdf := store[n : 2*n]
	if sym > 0 && sym < n-1 && !coded(cdf, sym, 32768+1000*sym) {
		return nil
	}
	want := clone(d)
	if !off {
		ac.Adapt(want, sym)
	}
	got, e := decode(c, s, cdf, sym, off)
	if e != nil {
		return mc.Failf("panic", "decoding symbol %d of %v fails: %v", sym, d, e)
	}
	if got != sym {
		return nil // the symbol is wrong: not this property's business
	}
	for i := range want {
		if cdf[i] != want[i] {
			return mc.Failf("adaptation", "symbol %d turns %v into %v, want %v (updates off: %v)", sym, d, cdf, want, off)
		}
	}
	if v := valid(cdf); v != "" {
		return mc.Failf("validity", "symbol %d turns %v into something invalid: %s", sym, d, v)
	}
	for i := range d {
		if store[i] != d[i] || store[2*n+i] != d[i] {
			return mc.Failf("others", "symbol %d of %v changes another distribution", sym, d)
		}
	}
	for i := 3 * n; i < 3*n+4; i++ {
		if store[i] != 7 {
			return mc.Failf("others", "symbol %d of %v writes behind the distribution", sym, d)
		}
	}
	return nil
}

// walk explores every sequence of symbols over a set of distributions.
func walk(name string, depth int, dists [][]int, off bool) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) *mc.Fail {
		s := st(c)
		k := c.All(len(dists))
		have := [][]int{clone(dists[k]), clone(dists[(k+1)%len(dists)])}
		want := [][]int{clone(have[0]), clone(have[1])}
		for i := 0; i < depth; i++ {
			which := 0
			if i > 0 {
				which = c.All(2)
			}
			sym := c.All(len(have[which]) - 1)
			c.Note("symbol %d of distribution %d: %v", sym, which, have[which])
			if !coded(have[which], sym, 32768+1000*sym) {
				return nil
			}
			got, e := decode(c, s, have[which], sym, off)
			if e != nil {
				return mc.Failf("panic", "decoding symbol %d of %v fails: %v", sym, have[which], e)
			}
			if got != sym {
				return nil
			}
			if !off {
				ac.Adapt(want[which], sym)
			}
			for j := range have {
				for x := range have[j] {
					if have[j][x] != want[j][x] {
						return mc.Failf("adaptation", "after symbol %d of distribution %d, distribution %d is %v, want %v", sym, which, j, have[j], want[j])
					}
				}
				if v := valid(have[j]); v != "" {
					return mc.Failf("validity", "%s", v)
				}
			}
		}
		return nil
	}}
}

func main() {
	r := mc.Start()
	var all [][]int
	for n := 2; n <= 16; n++ {
		all = append(all, ac.Shapes(n)...)
	}
	more := 0
	if r.Thorough() {
		more = 2
	}
	scs := []mc.Scenario{
		{Name: "every count, symbol and shape", Run: func(c *mc.Ch) *mc.Fail {
			d := clone(all[c.All(len(all))])
			off := c.All(2) == 1
			s := st(c)
			for count := 0; count <= 32; count++ {
				d[len(d)-1] = count
				for sym := 0; sym < len(d)-1; sym++ {
					c.Inner++
					if f := once(c, s, d, sym, off); f != nil {
						return f
					}
				}
			}
			c.Note("every symbol of %v at every count, updates off: %v", d, off)
			return nil
		}},
		{Name: "every binary distribution", Run: func(c *mc.Ch) *mc.Fail {
			p := 1 + 128*c.All(256)
			s := st(c)
			for ; p < 32768; p++ {
				for _, count := range []int{0, 15, 16, 31, 32} {
					for sym := 0; sym < 2; sym++ {
						c.Inner++
						if f := once(c, s, []int{p, 32768, count}, sym, false); f != nil {
							return f
						}
					}
				}
				if p%128 == 0 {
					break
				}
			}
			c.Note("binary distributions up to %d", p)
			return nil
		}},
		{Name: "every ternary distribution on a grid", Run: func(c *mc.Ch) *mc.Fail {
			step := 256
			if r.Thorough() {
				step = 64
			}
			p := 1 + step*c.All(32768/step)
			s := st(c)
			for q := p + 1; q < 32768; q += step - 1 {
				for _, count := range []int{0, 15, 16, 31, 32} {
					for sym := 0; sym < 3; sym++ {
						c.Inner++
						if f := once(c, s, []int{p, q, 32768, count}, sym, false); f != nil {
							return f
						}
					}
				}
			}
			c.Note("ternary distributions starting with %d", p)
			return nil
		}},
		{Name: "a long run of one symbol", Run: func(c *mc.Ch) *mc.Fail {
			d := clone(all[c.All(len(all))])
			sym := c.All(len(d) - 1)
			s := st(c)
			for i := 0; i < 300; i++ {
				c.Inner++
				if f := once(c, s, d, sym, false); f != nil {
					return f
				}
				ac.Adapt(d, sym)
			}
			c.Note("300 times symbol %d, ending at %v", sym, d)
			return nil
		}},
		walk("every sequence over two distributions, small alphabets", 7+more, all[:9], false),
		walk("every sequence over two distributions, large alphabets", 3, all[len(all)-12:], false),
		walk("every sequence with updates off", 4, all[:12], true),
	}
	r.Explore(scs...)
	r.Bound("every count 0..32 x every symbol x %d distributions over 2..16 symbols; every binary distribution; every sequence of symbols up to the stated depths over two distributions", len(all))
	r.Finish()
}
