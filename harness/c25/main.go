// C25: integer helpers.
package main

import (
	"math/big"
	"math/bits"

	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const maxInt = int(^uint(0) >> 1)

// around gives the numbers within d of each power of two and its negative, and of the ends.
func around(d, top int) []int {
	var o []int
	for k := 0; k <= top; k++ {
		for e := -d; e <= d; e++ {
			o = append(o, 1<<uint(k)+e, -(1<<uint(k))+e)
		}
	}
	return o
}

func span(lo, hi int) []int {
	o := make([]int, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		o = append(o, i)
	}
	return o
}

// floorDiv is floor(x / 2^n), exactly.
func floorShift(x *big.Int, n int) int {
	var d, q, m big.Int
	d.Lsh(big.NewInt(1), uint(n))
	q.DivMod(x, &d, &m) // Euclidean: the divisor is positive, so this is the floor
	return int(q.Int64())
}

func round2(x, n int) int {
	b := big.NewInt(int64(x))
	if n > 0 {
		b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(n-1)))
	}
	return floorShift(b, n)
}

func inverseRecenter(r, v int) int {
	// 0 is r itself, then alternately one less, one more, ... until the lower side is used up
	if v > 2*r {
		return v
	}
	if v%2 == 1 {
		return r - (v+1)/2
	}
	return r + v/2
}

// each runs one case per number, as inner cases of one execution.
func each(name string, blocks int, body func(c *mc.Ch, k int) *mc.Fail) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) (f *mc.Fail) {
		k := c.All(blocks)
		c.Note("%s, part %d of %d", name, k, blocks)
		if e := mc.Catch(func() { f = body(c, k) }); e != nil {
			return mc.Failf(name+": panic", "%s, part %d: %v", name, k, e)
		}
		return
	}}
}

func main() {
	r := mc.Start()
	deep := 1
	if r.Thorough() {
		deep = 4
	}
	pairs := append(span(-40*deep, 40*deep), around(1, 62)...)
	triples := append(span(-12*deep, 12*deep), -maxInt-1, -maxInt, maxInt, maxInt-1, 1<<31, -(1 << 31), 1<<16, -(1 << 16))
	singles := append(span(0, 1<<18), around(3, 61)...)
	signed := append(span(-1200*deep, 1200*deep), around(3, 40)...)
	r.Explore(
		each("Min, Max", len(pairs), func(c *mc.Ch, k int) *mc.Fail {
			x := pairs[k]
			for _, y := range pairs {
				lo, hi := x, y
				if y < x {
					lo, hi = y, x
				}
				c.Inner++
				c.Steps += 2
				if a, b := util.Min(x, y), util.Max(x, y); a != lo || b != hi {
					return mc.Failf("min max", "Min(%d,%d) = %d, Max = %d", x, y, a, b)
				}
			}
			return nil
		}),
		each("Abs, Bool, Int", 1, func(c *mc.Ch, k int) *mc.Fail {
			for _, x := range append(span(-70000, 70000), around(3, 62)...) {
				w := x
				if x < 0 {
					w = -x
				}
				c.Inner++
				c.Steps += 2
				if g := util.Abs(x); g != w {
					return mc.Failf("abs", "Abs(%d) = %d", x, g)
				}
				if g := util.Bool(x); g != (x != 0) {
					return mc.Failf("bool", "Bool(%d) = %v", x, g)
				}
			}
			if util.Int(true) != 1 || util.Int(false) != 0 {
				return mc.Failf("int", "Int(true) = %d, Int(false) = %d", util.Int(true), util.Int(false))
			}
			return nil
		}),
		each("Clip3", len(triples), func(c *mc.Ch, k int) *mc.Fail {
			lo := triples[k]
			for _, hi := range triples {
				if hi < lo {
					continue
				}
				for _, z := range triples {
					w := z
					if z < lo {
						w = lo
					} else if z > hi {
						w = hi
					}
					c.Inner++
					c.Steps++
					if g := util.Clip3(lo, hi, z); g != w {
						return mc.Failf("clip3", "Clip3(%d,%d,%d) = %d, want %d", lo, hi, z, g, w)
					}
				}
			}
			return nil
		}),
		each("Clip1", 16, func(c *mc.Ch, k int) *mc.Fail {
			d := k + 1
			top := 1<<uint(d) - 1
			xs := append(span(-300, 300), around(2, 40)...)
			for e := -300; e <= 300; e++ {
				xs = append(xs, top+e)
			}
			if d == 8 || d == 10 || d == 12 {
				xs = append(xs, span(-5000, 9000)...)
			}
			for _, x := range xs {
				w := x
				if x < 0 {
					w = 0
				} else if x > top {
					w = top
				}
				c.Inner++
				c.Steps++
				if g := util.Clip1(x, d); g != w {
					return mc.Failf("clip1", "Clip1(%d) at %d bits = %d, want %d", x, d, g, w)
				}
			}
			return nil
		}),
		each("FloorLog2, CeilLog2", 1, func(c *mc.Ch, k int) *mc.Fail {
			for _, x := range singles {
				if x < 0 {
					continue
				}
				c.Inner++
				c.Steps += 2
				if x >= 1 {
					if g, w := util.FloorLog2(x), bits.Len64(uint64(x))-1; g != w {
						return mc.Failf("floor log2", "FloorLog2(%d) = %d, want %d", x, g, w)
					}
				}
				w := 0
				if x >= 2 {
					w = bits.Len64(uint64(x - 1))
				}
				if g := util.CeilLog2(x); g != w {
					return mc.Failf("ceil log2", "CeilLog2(%d) = %d, want %d", x, g, w)
				}
			}
			return nil
		}),
		each("TileLog2", 66, func(c *mc.Ch, k int) *mc.Fail {
			blks := []int{128, 4096}
			blk := k + 1
			if k >= 64 {
				blk = blks[k-64]
			}
			for _, t := range append(span(0, 5000*deep), around(2, 40)...) {
				if t < 0 {
					continue
				}
				// the smallest k with blk * 2^k >= t
				w, p := 0, big.NewInt(int64(blk))
				for p.Cmp(big.NewInt(int64(t))) < 0 {
					p.Lsh(p, 1)
					w++
				}
				c.Inner++
				c.Steps++
				if g := util.TileLog2(blk, t); g != w {
					return mc.Failf("tile log2", "TileLog2(%d,%d) = %d, want %d", blk, t, g, w)
				}
			}
			return nil
		}),
		each("Round2, Round2Signed", 33, func(c *mc.Ch, n int) *mc.Fail {
			for _, x := range signed {
				w := round2(x, n)
				c.Inner++
				c.Steps += 2
				if g := util.Round2(x, n); g != w {
					return mc.Failf("round2", "Round2(%d,%d) = %d, want %d", x, n, g, w)
				}
				if x < 0 {
					w = -round2(-x, n)
				}
				if g := util.Round2Signed(x, n); g != w {
					return mc.Failf("round2 signed", "Round2Signed(%d,%d) = %d, want %d", x, n, g, w)
				}
			}
			return nil
		}),
		each("InverseRecenter", 300*deep, func(c *mc.Ch, r int) *mc.Fail {
			if r >= 290*deep {
				r = 1<<uint(r-290*deep+8) + r%3
			}
			vs := append(span(0, 700*deep), 2*r-2, 2*r-1, 2*r, 2*r+1, 2*r+2, r, r-1, r+1, 1<<20, 1<<20+1)
			for _, v := range vs {
				if v < 0 {
					continue
				}
				c.Inner++
				c.Steps++
				if g, w := util.InverseRecenter(r, v), inverseRecenter(r, v); g != w {
					return mc.Failf("inverse recenter", "InverseRecenter(%d,%d) = %d, want %d", r, v, g, w)
				}
			}
			// a permutation: every value is reached exactly once
			if r < 290*deep {
				seen := map[int]bool{}
				for v := 0; v <= 3*r+3; v++ {
					g := util.InverseRecenter(r, v)
					if g < 0 || g > 3*r+3 || seen[g] {
						return mc.Failf("inverse recenter", "InverseRecenter(%d,%d) = %d, which is out of range or met before", r, v, g)
					}
					seen[g] = true
				}
			}
			return nil
		}),
		each("CountUnitsInFrame", 12, func(c *mc.Ch, k int) *mc.Fail {
			unit := 1 << uint(k)
			for size := 1; size <= 1<<16; size++ {
				// the nearest number of units, halves up, at least one
				w := size / unit
				if 2*(size%unit) >= unit && unit > 1 {
					w++
				}
				if w < 1 {
					w = 1
				}
				c.Inner++
				c.Steps++
				if g := util.CountUnitsInFrame(unit, size); g != w {
					return mc.Failf("count units", "CountUnitsInFrame(%d,%d) = %d, want %d", unit, size, g, w)
				}
			}
			return nil
		}),
	)
	r.Bound("every pair of %d operands, every ordered triple of %d, every operand up to 2^18 and within 3 of each power of two, shifts 0 to 32, restoration units 1 to 2048 with every frame size to 65536", len(pairs), len(triples))
	r.Assume("operands outside the domain AV1 defines (log2 of nothing, clipping to an empty interval, negative recentering) are not looked at")
	r.Finish()
}
