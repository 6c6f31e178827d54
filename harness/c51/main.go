//go:build !noshim

// C51: the constrained directional enhancement filter.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// Frame is a frame to be filtered.
type Frame struct {
	rows, cols int // in 4x4
	mono       bool
	subX, subY int
	depth      int
	damping    int
	strength   [8][4]int // primary and secondary of luma, of chroma
	idx        func(r, c int) int
	skip       func(r, c int) int
	pixel      func(p, y, x int) int
}

type work struct {
	t    *tilegroup.TileGroup
	s    *state.State
	want [3][][]int
}

// room for a frame; margins hold what must not be looked at.
func (w *work) room(f *Frame) {
	for p := range w.want {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(f.subX), uint(f.subY)
		}
		h, wd := f.rows*4>>sy+4, f.cols*4>>sx+4
		mk := func(old [][]int) [][]int {
			if len(old) == h && len(old[0]) == wd {
				return old
			}
			n := make([][]int, h)
			for y := range n {
				n[y] = make([]int, wd)
			}
			return n
		}
		w.want[p] = mk(w.want[p])
		w.s.CurrFrame[p] = mk(w.s.CurrFrame[p])
	}
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	c.Local["w"] = w
	return w
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func log2(n int) int {
	k := 0
	for n > 1 {
		n >>= 1
		k++
	}
	return k
}

// lines: the line of each direction a sample of an 8x8 block is on.
var lines = [8]func(y, x int) int{
	func(y, x int) int { return y + x },
	func(y, x int) int { return y + x/2 },
	func(y, x int) int { return y },
	func(y, x int) int { return 3 + y - x/2 },
	func(y, x int) int { return 7 + y - x },
	func(y, x int) int { return 3 - y/2 + x },
	func(y, x int) int { return x },
	func(y, x int) int { return y/2 + x },
}

var lengths [8][15]int

func init() {
	for d := range lines {
		for k := 0; k < 64; k++ {
			lengths[d][lines[d](k/8, k%8)]++
		}
	}
}

// direction of a block and how clear it is.
func direction(at func(y, x int) int) (int, int) {
	var cost [8]int
	best := 0
	for d := range lines {
		var sum [15]int
		for k := 0; k < 64; k++ {
			sum[lines[d](k/8, k%8)] += at(k/8, k%8)
		}
		for l, n := range lengths[d] {
			if n > 0 {
				cost[d] += sum[l] * sum[l] * (840 / n)
			}
		}
		if cost[d] > cost[best] {
			best = d
		}
	}
	return best, (cost[best] - cost[best^4]) >> 10
}

var steps = [8][2][2]int{{{-1, 1}, {-2, 2}}, {{0, 1}, {-1, 2}}, {{0, 1}, {0, 2}}, {{0, 1}, {1, 2}}, {{1, 1}, {2, 2}}, {{1, 0}, {2, 1}}, {{1, 0}, {2, 0}}, {{1, 0}, {2, -1}}}

func pull(diff, strength, damping int) int {
	if strength == 0 {
		return 0
	}
	shift := damping - log2(strength)
	if shift < 0 {
		shift = 0
	}
	v := strength - abs(diff)>>uint(shift)
	if v < 0 {
		v = 0
	}
	if v > abs(diff) {
		v = abs(diff)
	}
	if diff < 0 {
		return -v
	}
	return v
}

// model filters the frame into w.want.
func (f *Frame) model(w *work) int {
	n := 0
	in := w.s.CurrFrame
	for p := range in {
		for y := range in[p] {
			copy(w.want[p][y], in[p][y])
		}
	}
	shift := uint(f.depth - 8)
	for r := 0; r < f.rows; r += 2 {
		for c := 0; c < f.cols; c += 2 {
			idx := f.idx(r/16, c/16)
			if idx < 0 || f.skip(r, c)+f.skip(r+1, c)+f.skip(r, c+1)+f.skip(r+1, c+1) == 4 {
				continue
			}
			n++
			d, clear := direction(func(y, x int) int { return in[0][r*4+y][c*4+x]>>shift - 128 })
			for p := 0; p < 3 && !(f.mono && p > 0); p++ {
				sx, sy := uint(0), uint(0)
				dir, damping := d, f.damping+int(shift)
				pri, sec := f.strength[idx][0]<<shift, f.strength[idx][1]<<shift
				if p > 0 {
					sx, sy = uint(f.subX), uint(f.subY)
					damping--
					pri, sec = f.strength[idx][2]<<shift, f.strength[idx][3]<<shift
					if sx == 1 && sy == 0 {
						dir = []int{7, 0, 2, 4, 5, 6, 6, 6}[d]
					}
				}
				if pri == 0 {
					dir = 0
				}
				if p == 0 {
					k := 0
					if clear>>6 > 0 {
						k = log2(clear >> 6)
						if k > 12 {
							k = 12
						}
					}
					if clear == 0 {
						pri = 0
					} else {
						pri = (pri*(4+k) + 8) >> 4
					}
				}
				taps := [2]int{4, 2}
				if pri>>shift&1 == 1 {
					taps = [2]int{3, 3}
				}
				for y := r * 4 >> sy; y < (r+2)*4>>sy; y++ {
					for x := c * 4 >> sx; x < (c+2)*4>>sx; x++ {
						v := in[p][y][x]
						sum, lo, hi := 0, v, v
						tap := func(d, k, sign, strength, weight int) {
							yy, xx := y+sign*steps[d&7][k][0], x+sign*steps[d&7][k][1]
							if yy < 0 || xx < 0 || yy >= f.rows*4>>sy || xx >= f.cols*4>>sx {
								return
							}
							o := in[p][yy][xx]
							sum += weight * pull(o-v, strength, damping)
							if o < lo {
								lo = o
							}
							if o > hi {
								hi = o
							}
						}
						for k := 0; k < 2; k++ {
							for s := -1; s < 2; s += 2 {
								tap(dir, k, s, pri, taps[k])
								tap(dir+2, k, s, sec, 2-k)
								tap(dir+6, k, s, sec, 2-k)
							}
						}
						o := v
						if sum < 0 {
							o -= (-sum + 8) >> 4
						} else {
							o += (sum + 8) >> 4
						}
						if o < lo {
							o = lo
						}
						if o > hi {
							o = hi
						}
						w.want[p][y][x] = o
					}
				}
			}
		}
	}
	return n
}

func (f *Frame) run(c *mc.Ch, w *work) *mc.Fail {
	t, s := w.t, w.s
	w.room(f)
	s.MiRows, s.MiCols = f.rows, f.cols
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				s.CurrFrame[p][y][x] = f.pixel(p, y, x) & (1<<uint(f.depth) - 1)
			}
		}
	}
	for r := 0; r < f.rows; r++ {
		for cc := 0; cc < f.cols; cc++ {
			t.Skips[r][cc] = f.skip(r, cc)
		}
	}
	s.Cdef.CdefIdx = make([][]int, (f.rows+15)/16*16)
	for r := range s.Cdef.CdefIdx {
		s.Cdef.CdefIdx[r] = make([]int, (f.cols+15)/16*16)
		for cc := range s.Cdef.CdefIdx[r] {
			s.Cdef.CdefIdx[r][cc] = f.idx(r/16, cc/16)
		}
	}
	sh := sequenceheader.SequenceHeader{EnableCdef: true}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes, sh.ColorConfig.MonoChrome = f.depth, 3-2*b2i(f.mono), f.mono
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.subX == 1, f.subY == 1
	uh := uncompressedheader.UncompressedHeader{CdefDampening: f.damping, CdefBits: 3, FrameWidth: f.cols * 4, FrameHeight: f.rows * 4}
	for _, v := range f.strength {
		uh.CdefYPriStrength = append(uh.CdefYPriStrength, v[0])
		uh.CdefYSecStrength = append(uh.CdefYSecStrength, v[1])
		uh.CdefUVPriStrength = append(uh.CdefUVPriStrength, v[2])
		uh.CdefUVSecStrength = append(uh.CdefUVSecStrength, v[3])
	}
	n := f.model(w)
	what := func() string {
		return fmt.Sprintf("%dx%d frame of depth %d, subsampling %d%d mono %v, strengths %v damping %d", f.cols*4, f.rows*4, f.depth, f.subX, f.subY, f.mono, f.strength[0], f.damping)
	}
	if e := mc.Catch(func() { tilegroup.VerifCdef(t, s, sh, uh) }); e != nil {
		return mc.Failf("panic in CDEF", "%s: %v", what(), e)
	}
	c.Inner++
	c.Steps += int64(n)
	for p := 0; p < 3-2*b2i(f.mono); p++ {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(f.subX), uint(f.subY)
		}
		for y := 0; y < f.rows*4>>sy; y++ {
			for x := 0; x < f.cols*4>>sx; x++ {
				if g := s.CdefFrame[p][y][x]; g != w.want[p][y][x] {
					return mc.Failf("sample after CDEF", "%s: sample (%d,%d) of plane %d, %d before, is %d, want %d", what(), x, y, p, s.CurrFrame[p][y][x], g, w.want[p][y][x])
				}
				if s.CurrFrame[p][y][x] != f.pixel(p, y, x)&(1<<uint(f.depth)-1) {
					return mc.Failf("frame before CDEF changed", "%s: sample (%d,%d) of plane %d", what(), x, y, p)
				}
			}
		}
	}
	return nil
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func (f *Frame) format(n int) {
	switch n {
	case 1:
		f.subX, f.subY = 0, 0
	case 2:
		f.subX, f.subY = 1, 0
	case 3:
		f.mono = true
	}
}

func base() Frame {
	f := Frame{rows: 6, cols: 6, subX: 1, subY: 1, depth: 8, damping: 3}
	for i := range f.strength {
		f.strength[i] = [4]int{4 + i, 2, 3, 1}
	}
	f.idx = func(r, c int) int { return 0 }
	f.skip = func(r, c int) int { return 0 }
	return f
}

// images with n different directions.
func image(kind, depth int) func(p, y, x int) int {
	s := uint(depth - 8)
	return func(p, y, x int) int {
		switch {
		case kind < 8:
			// lines in a direction, with noise
			return (100+lines[kind](y, x)%5*20+hash(p, y, x)%7)<<s + hash(x, y)&(1<<s-1)
		case kind == 8:
			return hash(p, y, x)
		case kind == 9:
			return (128+hash(p, y, x)%9-4)<<s + hash(x, y)&(1<<s-1)
		case kind == 10:
			return hash(p, y, x) & 1 * (1<<uint(depth) - 1)
		}
		return 77 << s
	}
}

func main() {
	r := mc.Start()
	n := 2 + b2i(r.Thorough())
	r.Explore(
		mc.Scenario{Name: "strengths", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(4))
			plane := c.All(2)
			if f.mono && plane == 1 {
				return nil
			}
			f.strength[0] = [4]int{}
			f.strength[0][plane*2] = c.All(16)
			f.strength[0][plane*2+1] = []int{0, 1, 2, 4}[c.All(4)]
			f.damping = 3 + c.All(4)
			f.depth = 8 + 2*c.Pick(3, 1)
			f.pixel = image(c.All(12), f.depth)
			f.rows, f.cols = 4, 4
			return f.run(c, w)
		}, Bound: 1},
		mc.Scenario{Name: "directions", Run: func(c *mc.Ch) *mc.Fail {
			// two samples of a block depart
			w := get(c)
			f := base()
			f.format(c.Pick(3, 1))
			f.depth = 8 + 2*c.Pick(3, 1)
			s := uint(f.depth - 8)
			f.rows, f.cols = 2, 2
			f.strength[0] = [4]int{15, 0, 7, 0}
			f.damping = 6
			a, b := c.All(64), c.All(64)
			if b < a {
				return nil
			}
			da := []int{30, -30, 127}[c.All(3)]
			db := []int{30, -30, 90, 3}[c.All(4)]
			f.pixel = func(p, y, x int) int {
				v := 128
				if p > 0 {
					return (100 + (x*7+y*13)%31) << s
				}
				if y*8+x == a {
					v += da
				} else if y*8+x == b {
					v += db
				}
				return v<<s + hash(x, y)&(1<<s-1)
			}
			return f.run(c, w)
		}, Bound: n},
		mc.Scenario{Name: "lines", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(3))
			f.rows, f.cols = 4, 4
			f.strength[0] = [4]int{9, 4, 6, 2}
			f.damping = 5
			d := c.All(8)
			mask := c.All(map[bool]int{false: 1 << 11, true: 1 << 15}[r.Thorough()])
			amp := []int{2, 9, 60}[c.All(3)]
			f.pixel = func(p, y, x int) int {
				if p > 0 {
					return 100 + hash(p, y, x)%20
				}
				return 120 + mask>>uint(lines[d](y&7, x&7))&1*amp + (x/8+y/8)*hash(mask, y, x)%3
			}
			return f.run(c, w)
		}},
		mc.Scenario{Name: "a sample and its neighbours", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.mono = true
			f.rows, f.cols = 2, 2
			f.damping = 3 + c.All(4)
			f.strength[0] = [4]int{c.All(16), []int{0, 1, 2, 4}[c.All(4)]}
			d := c.All(8)
			diff := c.All(128)
			f.pixel = func(p, y, x int) int {
				return 64 + lines[d](y, x)&1*diff
			}
			return f.run(c, w)
		}},
		mc.Scenario{Name: "contrast", Run: func(c *mc.Ch) *mc.Fail {
			// lines of every contrast, one sample departs
			w := get(c)
			f := base()
			f.mono = true
			f.rows, f.cols = 2, 2
			f.damping = 6
			f.strength[0] = [4]int{[]int{15, 9}[c.All(2)], 0}
			d := c.All(8)
			step := map[bool]int{false: 5, true: 1}[r.Thorough()]
			diff := 255 - step*c.All(255/step)
			at := 9 * c.All(8)
			if r.Thorough() {
				at = c.All(64)
			}
			by := []int{5, 14, 30, 100}[c.All(4)]
			f.pixel = func(p, y, x int) int {
				v := lines[d](y, x) & 1 * diff
				if y*8+x == at {
					if v > 0 {
						v -= by
					} else {
						v += by
					}
					if v < 0 || v > 255 {
						v = 128
					}
				}
				return v
			}
			return f.run(c, w)
		}},
		mc.Scenario{Name: "skips and limits", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(4))
			f.rows, f.cols = 2+2*c.Pick(3, 1), 2+2*c.Pick(3, 1)
			f.pixel = image(c.All(9), 8)
			mask := c.All(17)
			br, bc := c.All(f.rows/2)*2, c.All(f.cols/2)*2
			f.skip = func(r, cc int) int {
				if mask == 16 {
					return 1
				}
				if r&^1 == br && cc&^1 == bc {
					return mask >> uint(r&1*2+cc&1) & 1
				}
				return (r + cc) & 1
			}
			return f.run(c, w)
		}, Bound: 2},
		mc.Scenario{Name: "indices of 64x64", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(4))
			f.rows, f.cols = 18, 4
			if c.All(2) == 1 {
				f.rows, f.cols = 4, 34
			}
			for i := range f.strength {
				f.strength[i] = [4]int{i * 2, []int{0, 1, 2, 4}[i%4], 15 - i, []int{4, 0, 1, 2}[i%4]}
			}
			a, b, d := c.All(9)-1, c.All(9)-1, c.All(9)-1
			f.idx = func(r, cc int) int { return [3]int{a, b, d}[r+cc] }
			f.pixel = image(c.All(3)+4, 8)
			return f.run(c, w)
		}},
	)
	r.Bound("all strengths and dampings x 4 chroma formats x 12 images, other depths as at most 1 departure; 8x8 blocks with any two samples departing by 12 pairs of amounts with at most %d departures in format and depth; all images of lines in 8 directions; all differences of 7 bits in 8 directions x strengths x dampings; lines of every contrast with a sample departing; skip of the four quarters of every block in frames up to 24x24; all indices of three 64x64", n)
	r.Finish()
}
