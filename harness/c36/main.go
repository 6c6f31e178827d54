//go:build !noshim

// C36: inverse transforms and reconstruction.
package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/txm"
)

type work struct {
	t *tilegroup.TileGroup
	s *state.State
}

func frame(n int) [3][][]int {
	var f [3][][]int
	for p := range f {
		f[p] = make([][]int, n)
		for y := range f[p] {
			f[p][y] = make([]int, n)
		}
	}
	return f
}

func get(c *mc.Ch) *work {
	w, ok := c.Local["w"].(*work)
	if !ok {
		w = &work{&tilegroup.TileGroup{}, &state.State{}}
		c.Local["w"] = w
	}
	return w
}

// residual runs the inverse transform on the coefficients and compares the whole block.
func residual(c *mc.Ch, size, typ, depth int, lossless bool, in func(i, j int) int, what func() string) *mc.Fail {
	t := get(c).t
	w, h := 1<<uint(txm.Sizes[size][0]), 1<<uint(txm.Sizes[size][1])
	// beyond the coded coefficients there is whatever the last block left
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			t.Dequant[i][j] = 9000 + i - j
			if i < 32 && j < 32 {
				t.Dequant[i][j] = in(i, j)
			}
		}
	}
	t.PlaneTxType, t.Lossless = typ, lossless
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = depth
	if e := mc.Catch(func() { t.InverseTranform(size, sh) }); e != nil {
		return mc.Failf("panic", "transform size %d type %d depth %d lossless %v, %s: %v", size, typ, depth, lossless, what(), e)
	}
	c.Inner++
	c.Steps++
	want := txm.Inverse(size, typ, depth, lossless, in)
	for i := range want {
		for j, x := range want[i] {
			if t.Residual[i][j] != x {
				return mc.Failf("residual", "transform size %d type %d depth %d lossless %v, %s: residual at row %d column %d is %d, want %d", size, typ, depth, lossless, what(), i, j, t.Residual[i][j], x)
			}
		}
	}
	return nil
}

func at(p, q, v, w int) func(i, j int) int {
	return func(i, j int) int {
		switch {
		case i*64+j == p:
			return v
		case i*64+j == q:
			return w
		}
		return 0
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// validate compares the model with the transforms over the reals.
func validate() {
	basis := func(kind byte, n, k, i int) float64 {
		N := float64(n)
		switch {
		case kind == 'D' && k == 0:
			return math.Sqrt(0.5)
		case kind == 'D':
			return math.Cos(float64(2*i+1) * float64(k) * math.Pi / 2 / N)
		case kind == 'I':
			return map[bool]float64{true: math.Sqrt(N / 2), false: 0}[i == k]
		case n == 4:
			return 2 * math.Sqrt2 / 3 * math.Sin(math.Pi*float64(i+1)*float64(2*k+1)/9)
		}
		return math.Sin(math.Pi * float64(2*i+1) * float64(2*k+1) / 4 / N)
	}
	for _, kind := range []byte("DAI") {
		for n := 4; n <= 64; n *= 2 {
			if kind == 'A' && n > 16 || kind == 'I' && n > 32 {
				continue
			}
			for k := 0; k < n; k++ {
				x := make([]int, n)
				x[k] = 10000
				var o []int
				switch kind {
				case 'D':
					o = txm.Dct(x, 20)
				case 'A':
					o = txm.Adst(x, 20)
				default:
					o = txm.Identity(x)
				}
				for i, v := range o {
					if f := 10000 * basis(kind, n, k, i); math.Abs(f-float64(v)) > 8 {
						panic(fmt.Sprintf("the model is not the transform: %c %d of %d, %d: %v %d", kind, k, n, i, f, v))
					}
				}
			}
		}
	}
}

func main() {
	r := mc.Start()
	validate()
	deep := r.Thorough()
	pick := func(c *mc.Ch) (size, typ, depth, lim int) {
		size = c.All(19)
		var types []int
		for t := 0; t < 16; t++ {
			if txm.Allowed(size, t) {
				types = append(types, t)
			}
		}
		typ = types[c.All(len(types))]
		depth = 8 + 2*c.All(3)
		lim = 1 << uint(depth+7)
		c.Note("transform size %d type %d (%s) depth %d", size, typ, txm.Kinds[typ], depth)
		return
	}
	r.Explore(
		mc.Scenario{Name: "one coefficient", Run: func(c *mc.Ch) *mc.Fail {
			size, typ, depth, lim := pick(c)
			w, h := min(32, 1<<uint(txm.Sizes[size][0])), min(32, 1<<uint(txm.Sizes[size][1]))
			i := c.All(h)
			for j := 0; j < w; j++ {
				vals := []int{1000, -lim}
				if deep || w*h <= 64 {
					vals = []int{1000, -lim, lim - 1, -1, 1, 37, -5000}
				}
				for _, v := range vals {
					if f := residual(c, size, typ, depth, false, at(i*64+j, -1, v, 0), func() string { return c36(i, j, v) }); f != nil {
						return f
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "two coefficients of a row or column", Run: func(c *mc.Ch) *mc.Fail {
			size, typ, depth, lim := pick(c)
			w, h := min(32, 1<<uint(txm.Sizes[size][0])), min(32, 1<<uint(txm.Sizes[size][1]))
			row := c.All(2) == 0
			n, m := w, h
			if !row {
				n, m = h, w
			}
			a := c.All(n)
			for b := a + 1; b < n; b++ {
				for _, o := range []int{0, 1, m - 1} {
					if !deep && n > 16 && o > 0 {
						break
					}
					p, q := o*64+a, o*64+b
					if !row {
						p, q = a*64+o, b*64+o
					}
					vals := [][2]int{{lim - 1, lim - 1}, {lim - 1, -lim}}
					if deep || n <= 8 {
						vals = append(vals, [2]int{-lim, -lim}, [2]int{-lim, lim - 1}, [2]int{1, -77}, [2]int{lim / 2, 3})
					}
					for _, v := range vals {
						if f := residual(c, size, typ, depth, false, at(p, q, v[0], v[1]), func() string { return c36(p/64, p%64, v[0]) + ", " + c36(q/64, q%64, v[1]) }); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "full blocks", Run: func(c *mc.Ch) *mc.Fail {
			size, typ, depth, lim := pick(c)
			w, h := min(32, 1<<uint(txm.Sizes[size][0])), min(32, 1<<uint(txm.Sizes[size][1]))
			a := c.All(h)
			step := 1
			if !deep && w*h > 256 {
				step = 4
			}
			for b := a % step; b < w; b += step {
				for _, amp := range []int{lim - 1, 900} {
					f := residual(c, size, typ, depth, false, func(i, j int) int {
						if (bits.OnesCount(uint(i&a))+bits.OnesCount(uint(j&b)))&1 == 1 {
							return -amp
						}
						return amp
					}, func() string { return "Walsh pattern " + c36(a, b, amp) })
					if f != nil {
						return f
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "sign patterns", Run: func(c *mc.Ch) *mc.Fail {
			size, typ, depth, lim := pick(c)
			w, h := 1<<uint(txm.Sizes[size][0]), 1<<uint(txm.Sizes[size][1])
			row := c.All(2) == 0
			n := w
			if !row {
				n = h
			}
			if n > 16 || n == 16 && !deep || n == 16 && (w != h && w*h > 128) {
				return nil
			}
			parts := 1
			if n == 16 {
				parts = 64
			}
			p := c.All(parts)
			for s := p * (1 << uint(n)) / parts; s < (p+1)*(1<<uint(n))/parts; s++ {
				f := residual(c, size, typ, depth, false, func(i, j int) int {
					if !row {
						i, j = j, i
					}
					if i > 0 {
						return 0
					}
					if s>>uint(j)&1 == 1 {
						return -lim
					}
					return lim - 1
				}, func() string { return "signs " + c36(s, 0, lim) })
				if f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "lossless", Run: func(c *mc.Ch) *mc.Fail {
			depth := 8 + 2*c.All(3)
			p, q := c.All(16), c.All(16)
			c.Note("depth %d coefficients %d and %d", depth, p, q)
			vals := []int{-4097, -1023, -64, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 63, 1022, 4096}
			for _, v := range vals {
				for _, x := range vals {
					for bg := 0; bg < 3; bg++ {
						f := residual(c, 0, 0, depth, true, func(i, j int) int {
							switch i*4 + j {
							case p:
								return v
							case q:
								return x
							}
							return []int{0, 5, (i*5+j*3)%7 - 11}[bg]
						}, func() string { return c36(p/4, p%4, v) + ", " + c36(q/4, q%4, x) })
						if f != nil {
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "reconstruction", Run: func(c *mc.Ch) *mc.Fail {
			wk := get(c)
			t, s := wk.t, wk.s
			size := []int{0, 1, 2, 5, 6, 7, 8, 13, 14, 3, 4, 9, 10, 11, 12, 15, 16, 17, 18}[c.All(19)]
			typ := c.All(16)
			plane := c.All(3)
			depth := 8 + 2*c.All(3)
			lossless := typ == 0 && size == 0 && c.All(2) == 1
			w, h := 1<<uint(txm.Sizes[size][0]), 1<<uint(txm.Sizes[size][1])
			c.Note("transform size %d type %d plane %d depth %d lossless %v", size, typ, plane, depth, lossless)
			sh := sequenceheader.SequenceHeader{}
			sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes = depth, 3
			uh := uncompressedheader.UncompressedHeader{}
			top := 1<<uint(depth) - 1
			if typ != 0 && (w == 64 || h == 64 || w+h >= 40 && typ != 9) {
				return nil
			}
			room := 16
			for room < w+4 || room < h+4 && room < 64 {
				room *= 2
			}
			s.CurrFrame = frame(room)
			for x := 0; x+w <= room; x += room / 4 {
				for y := 0; y+h <= room; y += room / 4 {
					for _, pat := range []int{0, 1, 2, 3} {
						level := func(i, j int) int {
							switch pat {
							case 0:
								return 0
							case 1:
								return map[bool]int{true: -200, false: 0}[i+j == 0]
							case 2:
								return map[bool]int{true: 60 * top / 255, false: -3 * top / 255 * (i - j)}[i+j < 2]
							}
							return ((i*7+j*13)%5 - 2) * (top >> 5)
						}
						pix := func(p, i, j int) int { return (p*11 + i*i*37 + j*59 + i*j*5) * (1 + top/101) % (top + 1) }
						for p := range s.CurrFrame {
							for i := range s.CurrFrame[p] {
								for j := range s.CurrFrame[p][i] {
									s.CurrFrame[p][i][j] = pix(p, i, j)
								}
							}
						}
						tw, th, denom := w, h, 1
						if tw > 32 {
							tw = 32
						}
						if th > 32 {
							th = 32
						}
						switch size {
						case 3, 9, 10, 17, 18:
							denom = 2
						case 4, 11, 12:
							denom = 4
						}
						for i := 0; i < th; i++ {
							for j := 0; j < tw; j++ {
								t.Quant[i*tw+j] = level(i, j)
							}
						}
						t.PlaneTxType, t.Lossless, t.SegmentId = typ, lossless, 0
						if e := mc.Catch(func() { tilegroup.VerifReconstruct(t, plane, x, y, size, sh, uh, s) }); e != nil {
							return mc.Failf("panic in reconstruction", "size %d type %d plane %d at (%d,%d): %v", size, typ, plane, x, y, e)
						}
						c.Inner++
						c.Steps++
						res := txm.Inverse(size, typ, depth, lossless, func(i, j int) int {
							if i >= th || j >= tw {
								return 0
							}
							return 4 * level(i, j) / denom
						})
						for p := range s.CurrFrame {
							for i := range s.CurrFrame[p] {
								for j, g := range s.CurrFrame[p][i] {
									want := pix(p, i, j)
									if p == plane && i >= y && i < y+h && j >= x && j < x+w {
										ri, rj := i-y, j-x
										if txm.Kinds[typ][0] == 'F' {
											ri = h - 1 - ri
										}
										if txm.Kinds[typ][1] == 'F' {
											rj = w - 1 - rj
										}
										want += res[ri][rj]
										if want < 0 {
											want = 0
										}
										if want > top {
											want = top
										}
									}
									if g != want {
										return mc.Failf("pixel", "transform size %d type %d depth %d plane %d at (%d,%d), pattern %d: pixel of plane %d at row %d column %d becomes %d from %d, want %d", size, typ, depth, plane, x, y, pat, p, i, j, g, pix(p, i, j), want)
									}
								}
							}
						}
					}
				}
			}
			return nil
		}},
	)
	r.Bound("19 transform sizes x all types each allows x 3 bit depths: every single coefficient with several values up to both limits, every pair within a row or column at the limits, every Walsh pattern of signs over the block, every sign pattern of the first row or column of up to 8 (thorough: 16) coefficients; lossless: every pair of coefficients with 22 values each over 3 backgrounds; reconstruction: 9 sizes, 16 types, all aligned positions of a 16x16 plane")
	r.Assume("the model is written from the structure of the transforms and compared with the transforms over the reals when the check starts", "coefficients within the range dequantization leaves", "pixels are only followed where the decoder has storage for them: 16x16")
	r.Finish()
}

func c36(i, j, v int) string { return fmt.Sprintf("value %d at row %d column %d", v, i, j) }
