// C18: arithmetic decoding recovers exactly the coded symbols.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/ac"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func st(c *mc.Ch) *state.State {
	if s, ok := c.Local["s"].(*state.State); ok {
		return s
	}
	s := &state.State{}
	c.Local["s"] = s
	return s
}

func registers(m *ac.Model, data []byte, lead int, size int, s *state.State, b *bitstream.BitStream) string {
	in := data[lead : lead+size]
	if v := m.Value(in, size); v != s.SymbolValue {
		return fmt.Sprintf("SymbolValue = %d, want %d", s.SymbolValue, v)
	}
	if m.Range != s.SymbolRange {
		return fmt.Sprintf("SymbolRange = %d, want %d", s.SymbolRange, m.Range)
	}
	if m.MaxBits(size) != s.SymbolMaxBits {
		return fmt.Sprintf("SymbolMaxBits = %d, want %d", s.SymbolMaxBits, m.MaxBits(size))
	}
	if p := 8*lead + m.Pos(size); p != b.Position {
		return fmt.Sprintf("position = %d, want %d", b.Position, p)
	}
	return ""
}

func clone(x []int) []int { return append([]int{}, x...) }

// start checks the registers after initialisation, on data of size bytes after lead others.
func start(c *mc.Ch, data []byte, lead, size int) (*state.State, *bitstream.BitStream, *ac.Model, *mc.Fail) {
	s := st(c)
	s.SymbolValue, s.SymbolRange, s.SymbolMaxBits = 12345, 54321, 777
	b := &bitstream.BitStream{Data: data, Position: 8 * lead}
	m := ac.New()
	c.Steps++
	if e := mc.Catch(func() { initSymbol(c, size, b, s) }); e != nil {
		return nil, nil, nil, mc.Failf("panic in init", "init_symbol( %d ) fails: %v", size, e)
	}
	if d := registers(m, data, lead, size, s, b); d != "" {
		return nil, nil, nil, mc.Failf("init", "after init_symbol( %d ) on % x: %s", size, data[lead:], d)
	}
	return s, b, m, nil
}

// step decodes one symbol on both sides.
func step(c *mc.Ch, m *ac.Model, cdf, own []int, data []byte, lead, size int, s *state.State, b *bitstream.BitStream, off bool) (int, *mc.Fail) {
	in := data[lead : lead+size]
	want := m.Decode(own, in, size)
	got := -1
	c.Steps++
	if e := mc.Catch(func() {
		got = symbol.ReadSymbol(cdf, s, b, uncompressedheader.UncompressedHeader{DisableCdfUpdate: off})
	}); e != nil {
		return 0, mc.Failf("panic", "read_symbol fails on distribution %v, data % x, %d bits in: %v", own, in, m.K, e)
	}
	if got != want {
		return 0, mc.Failf("symbol", "symbol = %d, want %d (distribution %v, data % x, %d bits in, range %d)", got, want, own, in, m.K, m.Range)
	}
	m.Take(own, want)
	if d := registers(m, data, lead, size, s, b); d != "" {
		return 0, mc.Failf("registers", "after symbol %d of %v on % x: %s", got, own, in, d)
	}
	return got, nil
}

// finish leaves the tile.
func finish(c *mc.Ch, m *ac.Model, lead, size int, s *state.State, b *bitstream.BitStream) *mc.Fail {
	e := mc.Catch(func() { exitSymbol(c, size, b, s) })
	c.Steps++
	if m.MaxBits(size) < -14 {
		return nil // not a conformant stream: whatever
	}
	if e != nil {
		return mc.Failf("panic in exit", "exit_symbol fails with %d bits left: %v", m.MaxBits(size), e)
	}
	if b.Position != 8*(lead+size) {
		return mc.Failf("exit", "the stream stands at bit %d after exit_symbol, want %d", b.Position, 8*(lead+size))
	}
	return nil
}

// words explores every symbol sequence: encode, decode, compare.
func words(name string, depth int, dists [][]int, adapt bool, mixed bool) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) *mc.Fail {
		k := c.All(len(dists))
		m := ac.New()
		cds := make([][]int, len(dists))
		get := func(set [][]int, i int) []int {
			if set[i] == nil {
				set[i] = clone(dists[i])
			}
			return set[i]
		}
		var syms, which []int
		for i := 0; i < depth; i++ {
			j := k
			if mixed {
				j = (k + i*(i+1)/2) % len(dists)
			}
			d := get(cds, j)
			s := c.All(len(d) - 1)
			syms, which = append(syms, s), append(which, j)
			m.Take(d, s)
			if adapt {
				ac.Adapt(d, s)
			}
		}
		c.Note("symbols %v of distributions %v starting with %v", syms, which, dists[k])
		for how := 0; how < 3; how++ {
			for _, pad := range []int{0, 2} {
				w := m.Word(how, pad)
				if m.MaxBits(len(w)) < -14 {
					w = append(w, 0, 0)
				}
				c.Inner++
				lead := len(syms) % 3
				data := make([]byte, lead, lead+len(w)+3)
				data = append(data, w...)
				size := len(w)
				if pad == 2 {
					data = append(data, 0xff, 0x5a, 0xff) // the next tile: never looked at
				}
				s, b, mm, f := start(c, data, lead, size)
				if f != nil {
					return f
				}
				cd2 := make([][]int, len(dists))
				own := make([][]int, len(dists))
				for i := range syms {
					d, o := get(cd2, which[i]), get(own, which[i])
					got, f := step(c, mm, d, o, data, lead, size, s, b, !adapt)
					if f != nil {
						return f
					}
					if got != syms[i] {
						return mc.Failf("round trip", "symbols %v of %v decode as %d at %d", syms, which, got, i)
					}
					if adapt {
						ac.Adapt(o, got)
					}
				}
				if f := finish(c, mm, lead, size, s, b); f != nil {
					return f
				}
			}
		}
		return nil
	}}
}

func main() {
	r := mc.Start()
	var all [][]int
	for n := 2; n <= 16; n++ {
		all = append(all, ac.Shapes(n)...)
	}
	var small [][]int
	for n := 2; n <= 4; n++ {
		small = append(small, ac.Shapes(n)...)
	}
	pick := [][]int{{16384, 32768, 0}, {1, 32768, 0}, {32767, 32768, 40}, ac.Shapes(3)[1], ac.Shapes(16)[0], ac.Shapes(11)[2], ac.Shapes(8)[3], ac.Shapes(16)[4]}
	bin := [][]int{{16384, 32768, 0}, {32000, 32768, 0}, {300, 32768, 16}, {1, 32768, 32}, {32767, 32768, 5}}
	thorough := 0
	if r.Thorough() {
		thorough = 1
	}
	scs := []mc.Scenario{
		{Name: "every two bytes of data", Run: func(c *mc.Ch) *mc.Fail {
			hi := c.All(256)
			size := 1 + c.All(4)
			d := pick[c.All(len(pick))]
			for lo := 0; lo < 256; lo++ {
				c.Inner++
				lead := lo % 2
				data := []byte{0xb6, byte(hi), byte(lo), byte(lo*37 + hi), byte(hi * 5)}[1-lead:]
				data = data[: lead+size : lead+size]
				s, b, m, f := start(c, data, lead, size)
				if f != nil {
					return f
				}
				cdf, own := clone(d), clone(d)
				n := 0
				for n < 12 && m.MaxBits(size) >= -30 {
					got, f := step(c, m, cdf, own, data, lead, size, s, b, hi&1 == 1)
					if f != nil {
						return f
					}
					if hi&1 == 0 {
						ac.Adapt(own, got)
					}
					n++
				}
			}
			c.Note("first byte %#x, any second byte, %d bytes, distribution %v, symbols until the data runs out", hi, size, d)
			return nil
		}},
		{Name: "every position of every range", Run: func(c *mc.Ch) *mc.Fail {
			// any value in any of many ranges, without looking at how it was reached
			d := all[c.All(len(all))]
			rngs := []int{32768, 32769, 33000, 40000, 49151, 49152, 65535, 65280, 65279, 57343}
			rng := rngs[c.All(len(rngs))]
			s := st(c)
			cdf := clone(d)
			data := []byte{0xa5, 0x5a}
			want := 0
			for v := rng - 1; v >= 0; v-- {
				c.Inner++
				c.Steps++
				for v < ac.Cur(d, rng, want) {
					want++
				}
				s.SymbolRange, s.SymbolValue, s.SymbolMaxBits = rng, v, 16
				b := bitstream.BitStream{Data: data}
				got := -1
				if e := mc.Catch(func() {
					got = symbol.ReadSymbol(cdf, s, &b, uncompressedheader.UncompressedHeader{DisableCdfUpdate: true})
				}); e != nil {
					return mc.Failf("panic", "read_symbol fails in range %d, value %d, distribution %v: %v", rng, v, d, e)
				}
				if got != want {
					return mc.Failf("symbol", "symbol = %d, want %d in range %d at value %d, distribution %v", got, want, rng, v, d)
				}
				lo := ac.Cur(d, rng, want)
				r := ac.Cur(d, rng, want-1) - lo
				n := uint(0)
				for r < 32768 {
					r *= 2
					n++
				}
				new := (0xa55a >> (16 - n)) & (1<<n - 1)
				val := (v-lo+1)<<n - 1 - new
				if s.SymbolRange != r || s.SymbolValue != val || s.SymbolMaxBits != 16-int(n) || b.Position != int(n) {
					return mc.Failf("registers", "after symbol %d in range %d at value %d of %v: range %d value %d max bits %d position %d, want %d %d %d %d", got, rng, v, d, s.SymbolRange, s.SymbolValue, s.SymbolMaxBits, b.Position, r, val, 16-int(n), n)
				}
			}
			c.Note("every value in range %d, distribution %v", rng, d)
			return nil
		}},
		words("every word of 3 symbols, adapting", 3, all[:len(all)/2], true, false),
		words("every word of 2 symbols, large alphabets", 2, all[len(all)/2:], true, false),
		words("every word of 4 symbols over mixed small alphabets", 4, small, true, true),
		words("every word of 3 symbols over mixed alphabets, not adapting", 3, all[:20], false, true),
		words("every word of binary symbols", 9+2*thorough, bin, true, false),
		words("every word of binary symbols over mixed distributions", 8+2*thorough, bin, true, true),
	}
	if r.Thorough() {
		scs = append(scs,
			words("every word of 3 symbols, large alphabets", 3, all[len(all)/2:], true, true),
			words("every word of 5 symbols, small alphabets", 5, small, true, false),
			words("every word of 6 symbols over mixed small alphabets", 6, small[:9], true, true),
		)
	}
	r.Explore(scs...)
	r.Bound("all 65536 two-byte starts x sizes 1..4 x 8 distributions, decoded beyond the end of the data; every value of 10 ranges x %d distributions over 2..16 symbols; every symbol word up to the stated depths with three code words each, with and without a following tile; real init and exit: %v", len(all), real)
	r.Finish()
}
