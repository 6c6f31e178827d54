//go:build !noshim

// C48: intra prediction.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/zzverif/intra"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// Sizes: log2 of width and height.
var sizes = [19][2]int{{2, 2}, {3, 3}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {3, 4}, {4, 3}, {4, 4}, {3, 5}, {5, 3}, {4, 5}, {5, 4}, {5, 5}, {4, 6}, {6, 4}, {5, 6}, {6, 5}, {6, 6}}

type kind struct{ mode, delta, filter int }

func (k kind) String() string {
	if k.filter >= 0 {
		return fmt.Sprintf("filter mode %d", k.filter)
	}
	return fmt.Sprintf("mode %d delta %d", k.mode, k.delta)
}

var kinds []kind

func init() {
	for m := 0; m <= 12; m++ {
		if _, ok := intra.Angles[m]; ok {
			for d := -3; d <= 3; d++ {
				kinds = append(kinds, kind{m, d, -1})
			}
		} else {
			kinds = append(kinds, kind{m, 0, -1})
		}
	}
	for f := 0; f < 5; f++ {
		kinds = append(kinds, kind{0, 0, f})
	}
}

const room = 288

type work struct {
	t     *tilegroup.TileGroup
	s     *state.State
	frame [3][][]int
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	for p := range w.frame {
		w.frame[p] = make([][]int, room)
		for y := range w.frame[p] {
			w.frame[p][y] = make([]int, room)
		}
	}
	w.s.CurrFrame = w.frame
	c.Local["w"] = w
	return w
}

func hash(y, x int) int {
	v := uint32(y*7919+x*104729+12345) * 2654435761
	v ^= v >> 15
	v *= 2246822519
	return int(v >> 12)
}

var patterns = []func(y, x, top int) int{
	func(y, x, top int) int { return hash(y, x) % (top + 1) },
	func(y, x, top int) int { return (y*5 + x*3) % (top + 1) },
	func(y, x, top int) int { return hash(y, x) & 1 * top },
	func(y, x, top int) int { return top - hash(y, x)%3 },
}

// predict fills what is around the block, runs the decoder and compares.
func (w *work) predict(c *mc.Ch, plane int, b intra.Block, k kind, sx, sy bool, pixel func(y, x int) int) *mc.Fail {
	t, s := w.t, w.s
	y0, y1, x0, x1 := b.Y-4, b.Y+2*b.H+b.W+4, b.X-4, b.X+2*b.W+b.H+4
	if y0 < 0 {
		y0 = 0
	}
	if x0 < 0 {
		x0 = 0
	}
	f := w.frame[plane]
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			f[y][x] = pixel(y, x)
		}
	}
	b.Mode, b.Delta, b.Filter = k.mode, k.delta, k.filter
	want := intra.Predict(b, func(y, x int) int { return f[y][x] })
	t.UseFilterIntra, t.FilterIntraMode = k.filter >= 0, k.filter
	t.AngleDeltaY, t.AngleDeltaUV = k.delta, k.delta
	if k.filter < 0 {
		t.FilterIntraMode = 0
	}
	if plane == 0 {
		t.AngleDeltaUV = -k.delta
	} else {
		t.AngleDeltaY = -k.delta
		t.UseFilterIntra = (b.X+b.Y)&8 != 0 // has no influence on chroma
	}
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes = b.Depth, 3
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sx, sy
	sh.EnableIntraEdgeFilter = b.EdgeFilter
	lw, lh := 2, 2
	for 1<<uint(lw) < b.W {
		lw++
	}
	for 1<<uint(lh) < b.H {
		lh++
	}
	what := func() string {
		return fmt.Sprintf("plane %d, %v, %dx%d at (%d,%d), left %v down %v above %v right %v, last sample (%d,%d), depth %d, edge filter %v smooth %v", plane, k, b.W, b.H, b.X, b.Y, b.Left, b.Down, b.Above, b.Right, b.MaxX, b.MaxY, b.Depth, b.EdgeFilter, b.SmoothAround)
	}
	if e := mc.Catch(func() {
		tilegroup.VerifPredictIntra(t, plane, b.X, b.Y, b.Left, b.Above, b.Right, b.Down, b.Mode, lw, lh, s, sh)
	}); e != nil {
		return mc.Failf("panic in prediction", "%s: %v", what(), e)
	}
	c.Inner++
	c.Steps++
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			i, j := y-b.Y, x-b.X
			if i >= 0 && i < b.H && j >= 0 && j < b.W {
				if f[y][x] != want[i][j] {
					return mc.Failf("sample predicted", "%s: sample at row %d column %d is %d, want %d", what(), i, j, f[y][x], want[i][j])
				}
			} else if p := pixel(y, x); f[y][x] != p {
				return mc.Failf("sample beside the block changed", "%s: sample at row %d column %d became %d from %d", what(), i, j, f[y][x], p)
			}
		}
	}
	return nil
}

// frame sets the limits of the frame so that cols x rows samples of the plane lie at and after the block.
func (w *work) limits(b *intra.Block, plane, cols, rows int, sx, sy bool) {
	mul := func(n int, s bool) int {
		if s && plane > 0 {
			return n * 2
		}
		return n
	}
	w.s.MiCols = mul(b.X+cols, sx) / 4
	w.s.MiRows = mul(b.Y+rows, sy) / 4
	b.MaxX, b.MaxY = b.X+cols-1, b.Y+rows-1
}

// around sets the modes above and left.
func (w *work) around(smooth bool) {
	s, t := w.s, w.t
	s.MiRow, s.MiCol = 8, 8
	s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = true, true, true, true
	m := 0
	if smooth {
		m = intra.Smooth
	}
	for r := 6; r < 10; r++ {
		for c := 6; c < 10; c++ {
			t.YModes[r][c], t.UVModes[r][c] = m, m
			s.RefFrames[r][c] = [2]int{0, -1}
		}
	}
}

func bit(v, i int) bool { return v>>uint(i)&1 == 1 }

func main() {
	r := mc.Start()
	th := r.Thorough()
	formats := [][2]bool{{true, true}, {true, false}, {false, false}}
	r.Explore(
		mc.Scenario{Name: "all modes", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			size := sizes[c.All(19)]
			b := intra.Block{W: 1 << uint(size[0]), H: 1 << uint(size[1])}
			k := kinds[c.All(len(kinds))]
			plane := c.Pick(3, 1)
			if k.filter >= 0 && (plane > 0 || b.W > 32 || b.H > 32) {
				return nil
			}
			format := [2]bool{}
			if plane > 0 {
				format = formats[c.Pick(3, 1)]
			}
			b.Depth = 8 + 2*c.Pick(3, 1)
			b.X, b.Y = 64, 64
			switch c.Pick(4, 1) {
			case 1:
				b.X = 4
			case 2:
				b.Y = 4
			case 3:
				b.X, b.Y = 0, 0
			}
			pattern := patterns[c.Pick(len(patterns), 1)]
			reach := func(n int) int {
				return []int{3 * n, 2 * n, n + 4, n, (n + 7) / 8 * 4, 4}[c.Pick(6, 1)]
			}
			w.limits(&b, plane, reach(b.W), reach(b.H), format[0], format[1])
			pixel := func(y, x int) int { return pattern(y, x, 1<<uint(b.Depth)-1) }
			for a := 0; a < 27; a++ {
				b.EdgeFilter, b.SmoothAround = a%3 > 0, a%3 > 1
				b.Left, b.Down, b.Above, b.Right = a/3%3 > 0, a/3%3 > 1, a/9 > 0, a/9 > 1
				if b.Left && b.X == 0 || b.Above && b.Y == 0 {
					continue
				}
				if b.Down && b.MaxY < b.Y+b.H || b.Right && b.MaxX < b.X+b.W {
					continue // never decoded
				}
				w.around(b.SmoothAround)
				if f := w.predict(c, plane, b, k, format[0], format[1], pixel); f != nil {
					return f
				}
			}
			return nil
		}, Bound: map[bool]int{false: 1, true: 2}[th]},
		mc.Scenario{Name: "each sample alone", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			size := sizes[c.All(19)]
			k := kinds[c.All(len(kinds))]
			b := intra.Block{W: 1 << uint(size[0]), H: 1 << uint(size[1]), X: 64, Y: 64, Left: true, Above: true, Right: true, Down: true, Depth: 8}
			if k.filter >= 0 && (b.W > 32 || b.H > 32) {
				return nil
			}
			w.limits(&b, 0, 3*b.W, 3*b.H, false, false)
			high := c.All(2)
			set := c.All(3)
			b.EdgeFilter, b.SmoothAround = set > 0, set > 1
			w.around(b.SmoothAround)
			for n := -b.W - b.H; n <= b.W+b.H; n++ {
				if !th && b.W+b.H > 48 && n%3 != 0 {
					continue
				}
				f := w.predict(c, 0, b, k, false, false, func(y, x int) int {
					if n <= 0 && x == b.X-1 && y == b.Y-1-n || n > 0 && y == b.Y-1 && x == b.X-1+n {
						return 255 - high*255
					}
					return high * 255
				})
				if f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "smooth neighbours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			s, t := w.s, w.t
			plane := c.All(3)
			format := formats[c.All(3)]
			par := c.All(4)
			ref := []int{0, -1, 1, 7}[c.All(4)]
			uv := c.All(2) == 1
			mode := []int{9, 10, 11, 0, 12, 13, 8}[c.All(7)]
			for at := 0; at < 17; at++ {
				for avail := 0; avail < 16; avail++ {
					w.around(false)
					s.MiRow, s.MiCol = 8+par&1, 8+par>>1
					for r := 5; r < 12; r++ {
						for cc := 5; cc < 12; cc++ {
							t.YModes[r][cc], t.UVModes[r][cc] = 0, 0
							s.RefFrames[r][cc] = [2]int{ref, -1}
						}
					}
					row, col := s.MiRow-2+at%4, s.MiCol-2+at/4
					if at < 16 {
						if uv {
							t.UVModes[row][col] = mode
						} else {
							t.YModes[row][col] = mode
						}
					}
					s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = bit(avail, 0), bit(avail, 1), bit(avail, 2), bit(avail, 3)
					b := intra.Block{W: 4, H: 4, X: 32, Y: 32, Left: true, Above: true, Right: true, Down: true, Depth: 8, EdgeFilter: true}
					w.limits(&b, plane, 16, 16, format[0], format[1])
					smooth := func(r, cc int) bool {
						if plane == 0 {
							return t.YModes[r][cc] >= 9 && t.YModes[r][cc] <= 11
						}
						return s.RefFrames[r][cc][0] <= 0 && t.UVModes[r][cc] >= 9 && t.UVModes[r][cc] <= 11
					}
					up, left := s.AvailU, s.AvailL
					ur, uc, lr, lc := s.MiRow-1, s.MiCol, s.MiRow, s.MiCol-1
					if plane > 0 {
						up, left = s.AvailUChroma, s.AvailLChroma
						// chroma is that of the 8x8 the block is in
						if format[0] {
							uc, lc = s.MiCol|1, s.MiCol&^1-1
						}
						if format[1] {
							ur, lr = s.MiRow&^1-1, s.MiRow|1
						}
					}
					b.SmoothAround = up && smooth(ur, uc) || left && smooth(lr, lc)
					for _, m := range []int{intra.D45, intra.D203} {
						k := kind{m, 0, -1}
						if m == intra.D203 {
							k.delta = 3
							b.W, b.H = 8, 8
						}
						if f := w.predict(c, plane, b, k, format[0], format[1], func(y, x int) int { return hash(y, x) & 255 }); f != nil {
							f.Desc += fmt.Sprintf(" (block at row %d col %d, mode %d at row %d col %d, chroma %v, ref %d, available %04b)", s.MiRow, s.MiCol, mode, row, col, uv, ref, avail)
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "Paeth", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			vals := []int{0, 1, 2, 3, 5, 64, 100, 126, 127, 128, 129, 130, 160, 200, 252, 253, 254, 255}
			corner := vals[c.All(len(vals))]
			b := intra.Block{W: 8, H: 8, X: 8, Y: 8, Left: true, Above: true, Depth: 8}
			w.limits(&b, 0, 8, 8, false, false)
			w.around(false)
			for i := 0; i+8 <= len(vals)+6; i += 8 {
				for j := 0; j+8 <= len(vals)+6; j += 8 {
					f := w.predict(c, 0, b, kind{intra.Paeth, 0, -1}, false, false, func(y, x int) int {
						switch {
						case y == 7 && x == 7:
							return corner
						case y == 7 && x > 7:
							return vals[(i+x-8)%len(vals)]
						case x == 7 && y > 7:
							return vals[(j+y-8)%len(vals)]
						}
						return 77
					})
					if f != nil {
						return f
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "rounding of averages", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			size := sizes[c.All(19)]
			b := intra.Block{W: 1 << uint(size[0]), H: 1 << uint(size[1]), X: 64, Y: 64, Depth: 8}
			w.limits(&b, 0, b.W, b.H, false, false)
			w.around(false)
			a := c.All(4)
			b.Left, b.Above = a&1 > 0, a&2 > 0
			base := []int{0, 254, 100}[c.All(3)]
			for n := 0; n <= b.W+b.H; n++ {
				if f := w.predict(c, 0, b, kind{0, 0, -1}, false, false, func(y, x int) int {
					at := 999
					if x == b.X-1 && y >= b.Y {
						at = y - b.Y
					} else if y == b.Y-1 && x >= b.X {
						at = b.H + x - b.X
						if !b.Left {
							at = x - b.X
						}
					}
					if at < n {
						return base + 1
					}
					return base
				}); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "extremes", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			k := kinds[c.All(len(kinds))]
			b := intra.Block{W: 4, H: 4, X: 64, Y: 64, Left: true, Above: true, Right: true, Down: true, Depth: 8}
			rest := 0
			if th {
				if n := c.All(5); n > 0 {
					b.W, b.H = 1<<uint(sizes[n][0]), 1<<uint(sizes[n][1])
				}
				rest = c.All(2)
			}
			w.limits(&b, 0, 3*b.W, 3*b.H, false, false)
			set := c.All(3)
			b.EdgeFilter, b.SmoothAround = set > 0, set > 1
			w.around(b.SmoothAround)
			n := 5
			for bits := 0; bits < 1<<uint(2*n+1); bits++ {
				if f := w.predict(c, 0, b, k, false, false, func(y, x int) int {
					i := -1
					switch {
					case y == 63 && x >= 63 && x < 64+n:
						i = x - 63
					case x == 63 && y >= 64 && y < 64+n:
						i = y - 64 + n + 1
					}
					if i < 0 {
						return rest * 255
					}
					return bits >> uint(i) & 1 * 255
				}); f != nil {
					return f
				}
			}
			return nil
		}},
	)
	r.Bound("19 sizes x 61 modes and angles and 5 recursive modes x what is available x edge filter and smooth neighbours, with at most %d departures in plane, format, depth, place, limits of the frame and content; each edge sample alone; all places of a smooth neighbour x formats x parities x availability; corner, above and left from 18 values; all sums modulo the size; 11 edge samples at either extreme", map[bool]int{false: 1, true: 2}[th])
	r.Finish()
}
