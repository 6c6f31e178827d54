// C26: lookup helpers.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// interleave lists 0..max-1 in the order segment ids are coded in when ref is predicted.
func interleave(ref, max int) []int {
	if ref == 0 {
		var o []int
		for i := 0; i < max; i++ {
			o = append(o, i)
		}
		return o
	}
	o := []int{ref}
	for d := 1; len(o) < max; d++ {
		if ref+d < max {
			o = append(o, ref+d)
		}
		if ref-d >= 0 {
			o = append(o, ref-d)
		}
	}
	return o
}

var masks = map[int][]int{
	2: {45, 64}, 4: {39, 50, 59, 64}, 8: {36, 42, 48, 53, 57, 61, 64, 64},
	16: {34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64},
	32: {33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 48, 50, 51, 52, 53, 55, 56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64, 64},
}

func each(name string, blocks int, body func(c *mc.Ch, k int) *mc.Fail) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) (f *mc.Fail) {
		k := c.All(blocks)
		c.Note("%s, part %d of %d", name, k, blocks)
		if e := mc.Catch(func() { f = body(c, k) }); e != nil {
			return mc.Failf(name+": panic", "%s, part %d: %v", name, k, e)
		}
		return
	}}
}

func cos(a int) int { return int(math.Round(4096 * math.Cos(math.Pi*float64(a)/128))) }

func main() {
	r := mc.Start()
	deep := 0
	if r.Thorough() {
		deep = 1
	}
	r.Explore(
		each("cosine and sine", 64, func(c *mc.Ch, k int) *mc.Fail {
			for i := 0; i < 256; i++ {
				a := (k-32)*256 + i
				if k == 0 {
					a -= 1 << 40
				}
				if k == 63 {
					a += 1 << 40
				}
				c.Inner++
				c.Steps += 2
				if g, w := util.Cos128(a), cos(a&255); g != w {
					return mc.Failf("cos", "Cos128(%d) = %d, want %d", a, g, w)
				}
				if g, w := util.Sin128(a), cos((a-64)&255); g != w {
					return mc.Failf("sin", "Sin128(%d) = %d, want %d", a, g, w)
				}
				if a > -(1<<39) && a < 1<<39 && (util.Cos128(-a) != util.Cos128(a) || util.Cos128(a+128) != -util.Cos128(a) || util.Sin128(-a) != -util.Sin128(a)) {
					return mc.Failf("symmetry", "Cos128 or Sin128 is not symmetric at %d", a)
				}
			}
			return nil
		}),
		each("bit reversal", 17+2*deep, func(c *mc.Ch, n int) *mc.Fail {
			for x := 0; x < 1<<uint(n); x++ {
				w := 0
				for i := 0; i < n; i++ {
					w = w*2 + (x>>uint(i))&1
				}
				c.Inner++
				c.Steps += 2
				g := util.Brev(n, x)
				if g != w {
					return mc.Failf("brev", "Brev(%d,%d) = %d, want %d", n, x, g, w)
				}
				if util.Brev(n, g) != x {
					return mc.Failf("brev", "Brev(%d,Brev(%d,%d)) is not %d", n, n, x, x)
				}
			}
			return nil
		}),
		each("segment id mapping", 64, func(c *mc.Ch, k int) *mc.Fail {
			max := k + 1
			for ref := 0; ref < max; ref++ {
				want := interleave(ref, max)
				for d := 0; d < max; d++ {
					c.Inner++
					c.Steps++
					w := want[d]
					if g := util.NegDeinterleave(d, ref, max); g != w {
						return mc.Failf("neg deinterleave", "NegDeinterleave(%d,%d,%d) = %d, want %d", d, ref, max, g, w)
					}
				}
			}
			return nil
		}),
		each("sorting a range", 9+2*deep, func(c *mc.Ch, n int) *mc.Fail {
			if n == 0 {
				return nil
			}
			// every array of up to five values in three, longer ones in two; and rotated distinct values
			base := 3
			if n > 5 {
				base = 2
			}
			total := 1
			for i := 0; i < n; i++ {
				total *= base
			}
			for code := 0; code < total+2*n; code++ {
				a := make([]int, n)
				x := code
				for i := range a {
					if code < total {
						a[i] = x % base * 7
						x /= base
					} else if k := code - total; k < n {
						a[i] = (i+k)%n*3 + 1
					} else {
						a[i] = (2*n-i-k)%n*3 - 5
					}
				}
				for i1 := 0; i1 < n; i1++ {
					for i2 := i1; i2 < n; i2++ {
						in := append([]int{}, a...)
						want := append([]int{}, a...)
						sort.Ints(want[i1 : i2+1])
						got := util.Sort(in, i1, i2)
						c.Inner++
						c.Steps++
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return mc.Failf("sort", "Sort(%v,%d,%d) = %v, want %v", a, i1, i2, got, want)
						}
					}
				}
			}
			return nil
		}),
		each("overlap masks", 2, func(c *mc.Ch, again int) *mc.Fail {
			for n, want := range masks {
				c.Inner++
				c.Steps++
				if got := util.GetObmcMask(n); fmt.Sprint(got) != fmt.Sprint(want) {
					return mc.Failf("obmc mask", "the overlap mask of %d is %v, want %v", n, got, want)
				}
			}
			return nil
		}),
	)
	r.Bound("angles -8192 to 8191 and around +-2^40, bit reversal of every number of up to %d bits, segment ids for every count to 64, sorting of every range of every array of up to 5 values in 3 and %d values in 2, the five overlap masks: exhaustive", 16+2*deep, 8+2*deep)
	r.Assume("cosine is compared with the correctly rounded cosine, which is what the table of the specification holds")
	r.Finish()
}
