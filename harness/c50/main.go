//go:build !noshim

// C50: the loop filter.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/txm"
)

var wide = []int{4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64}
var high = []int{4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16}

// cell is what is known of a 4x4 position.
type cell struct {
	size, skip, ref, mode, segment int
	delta                          [4]int
}

// Frame is a frame to be filtered.
type Frame struct {
	w, h          int // in samples
	mono          bool
	subX, subY    int
	depth         int
	level         [4]int
	sharp         int
	deltas        bool
	refDeltas     [8]int
	modeDeltas    [2]int
	multi         bool
	segmentation  bool
	feature       func(segment, i int) (bool, int)
	cells         func(r, c int) cell
	tx            func(p, r, c int) int // in 4x4 of the plane
	pixel         func(p, y, x int) int
	rows, cols    int
	grid          [24][24]cell
	planes        int
	before, after [3][][]int
}

const (
	room   = 24 * 4
	margin = 16
)

type work struct {
	t   *tilegroup.TileGroup
	s   *state.State
	own [3][][]int
}

func room3() (f [3][][]int) {
	for p := range f {
		f[p] = make([][]int, room)
		for y := range f[p] {
			f[p][y] = make([]int, room)
		}
	}
	return
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.s.CurrFrame, w.own = room3(), room3()
	c.Local["w"] = w
	return w
}

func clip(lo, hi, v int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// strength is the level at a position.
func (f *Frame) strength(p, pass int, e cell) int {
	i := p + 1
	if p == 0 {
		i = pass
	}
	d := e.delta[0]
	if f.multi {
		d = e.delta[i]
	}
	l := clip(0, 63, d+f.level[i])
	if f.segmentation {
		if on, v := f.feature(e.segment, 1+i); on {
			l = clip(0, 63, l+v)
		}
	}
	if f.deltas {
		n := uint(l >> 5)
		d := f.refDeltas[e.ref] << n
		if e.ref > 0 {
			m := 0
			if e.mode >= 14 && e.mode != 16 && e.mode != 24 {
				m = 1
			}
			d += f.modeDeltas[m] << n
		}
		l = clip(0, 63, l+d)
	}
	return l
}

// edge filters one line of samples; at gives the sample i after (or before, negative) the edge.
func (f *Frame) edge(size, p, level int, at func(i int) *int) {
	limit := level
	if f.sharp > 0 {
		limit = level >> 1
		if f.sharp > 4 {
			limit = level >> 2
		}
		limit = least(limit, 9-f.sharp)
	}
	if limit < 1 {
		limit = 1
	}
	scale := uint(f.depth - 8)
	both := 2*(level+2) + limit
	thresh := level >> 4
	diff := func(i, j int) int { return abs(*at(i) - *at(j)) }
	// reach: how many samples each side are looked at for the limit
	reach := 2
	if size > 4 {
		reach = 4
		if p > 0 {
			reach = 3
		}
	}
	for k := 1; k < reach; k++ {
		if diff(k, k-1) > limit<<scale || diff(-1-k, -k) > limit<<scale {
			return
		}
	}
	if diff(0, -1)*2+diff(1, -2)/2 > both<<scale {
		return
	}
	flat := func(from, to int) bool {
		for k := from; k < to; k++ {
			if diff(k, 0) > 1<<scale || diff(-1-k, -1) > 1<<scale {
				return false
			}
		}
		return true
	}
	var in [16]int // in[7+i]
	get := func(n int) {
		for i := -n; i < n; i++ {
			in[8+i] = *at(i)
		}
	}
	sum := func(n, rounding int, weights func(i, j int) int) {
		get(n)
		for i := -n + 1; i < n-1; i++ {
			s := 0
			for j := -n; j < n; j++ {
				s += weights(i, j) * in[8+j]
			}
			*at(i) = (s + 1<<uint(rounding-1)) >> uint(rounding)
		}
	}
	// The wide filters average what is within a distance, repeating the outermost sample.
	around := func(n int) func(i, j int) int {
		return func(i, j int) int {
			wt := 0
			for d := -(n - 1); d <= n-1; d++ {
				if clip(-n, n-1, i+d) == j {
					wt++
				}
			}
			return wt
		}
	}
	switch {
	case size > 4 && flat(1, reach) && size == 16 && p == 0 && flat(4, 7):
		a := around(7)
		sum(7, 4, func(i, j int) int {
			wt := a(i, j)
			for d := -1; d <= 1; d++ {
				if clip(-7, 6, i+d) == j {
					wt++
				}
			}
			return wt
		})
	case size > 4 && flat(1, reach) && p == 0:
		a := around(4)
		sum(4, 3, func(i, j int) int {
			wt := a(i, j)
			if i == j {
				wt++
			}
			return wt
		})
	case size > 4 && flat(1, reach):
		// chroma, 6 samples
		table := [4][6]int{{3, 2, 2, 1, 0, 0}, {1, 2, 2, 2, 1, 0}, {0, 1, 2, 2, 2, 1}, {0, 0, 1, 2, 2, 3}}
		sum(3, 3, func(i, j int) int { return table[i+2][j+3] })
	default:
		mid := 1 << uint(f.depth-1)
		q1, q0, p0, p1 := *at(1)-mid, *at(0)-mid, *at(-1)-mid, *at(-2)-mid
		c := func(v int) int { return clip(-mid, mid-1, v) }
		hev := abs(q1-q0) > thresh<<scale || abs(p1-p0) > thresh<<scale
		v := 0
		if hev {
			v = c(p1 - q1)
		}
		v = c(v + 3*(q0-p0))
		a, b := c(v+4)>>3, c(v+3)>>3
		*at(0), *at(-1) = c(q0-a)+mid, c(p0+b)+mid
		if !hev {
			v = (a + 1) >> 1
			*at(1), *at(-2) = c(q1-v)+mid, c(p1+v)+mid
		}
	}
}

// filter is the model.
func (f *Frame) filter(fr *[3][][]int) int {
	edges := 0
	for p := 0; p < f.planes; p++ {
		if p > 0 && f.level[1+p] == 0 {
			continue
		}
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(f.subX), uint(f.subY)
		}
		for pass := 0; pass < 2; pass++ {
			for y := 0; y<<sy < f.rows*4; y += 4 {
				for x := 0; x<<sx < f.cols*4; x += 4 {
					if x<<sx >= f.w || y<<sy >= f.h || pass == 0 && x == 0 || pass == 1 && y == 0 {
						continue
					}
					r, c := y<<sy/4|int(sy), x<<sx/4|int(sx)
					e := f.grid[r][c]
					tx, before := txm.Sizes[f.tx(p, y/4, x/4)], [2]int{}
					pos, bsize := x, wide[e.size]>>sx
					prev := e
					if pass == 0 {
						before = txm.Sizes[f.tx(p, y/4, x/4-1)]
						prev = f.grid[r][c-1<<sx]
					} else {
						before = txm.Sizes[f.tx(p, y/4-1, x/4)]
						prev = f.grid[r-1<<sy][c]
						pos, bsize = y, high[e.size]>>sy
					}
					if bsize < 4 {
						bsize = 4
					}
					if pos%(1<<uint(tx[pass])) != 0 {
						continue
					}
					if pos%bsize != 0 && e.skip == 1 && e.ref > 0 {
						continue
					}
					l := f.strength(p, pass, e)
					if l == 0 {
						l = f.strength(p, pass, prev)
					}
					if l == 0 {
						continue
					}
					edges++
					size := least(16, 1<<uint(least(tx[pass], before[pass])))
					for i := 0; i < 4; i++ {
						f.edge(size, p, l, func(k int) *int {
							if pass == 0 {
								return &fr[p][y+i][x+k]
							}
							return &fr[p][y+k][x+i]
						})
					}
				}
			}
		}
	}
	return edges
}

// run lays the frame into both and compares.
func (f *Frame) run(c *mc.Ch, w *work) *mc.Fail {
	t, s := w.t, w.s
	f.rows, f.cols = (f.h+7)/8*2, (f.w+7)/8*2
	f.planes = 3
	if f.mono {
		f.planes = 1
	}
	s.MiRows, s.MiCols = f.rows, f.cols
	for r := 0; r < f.rows; r++ {
		for cc := 0; cc < f.cols; cc++ {
			e := f.cells(r, cc)
			if f.subX == 1 && f.subY == 0 && high[e.size] > wide[e.size] {
				e.size = 3 // not allowed
			}
			f.grid[r][cc] = e
			s.MiSizes[r][cc], t.Skips[r][cc], s.RefFrames[r][cc], t.YModes[r][cc], t.SegmentIds[r][cc] = e.size, e.skip, [2]int{e.ref, -1}, e.mode, e.segment
			s.DeltaLFs[r][cc] = e.delta
		}
	}
	var image [3][][]int
	for p := 0; p < 3; p++ {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(f.subX), uint(f.subY)
		}
		image[p] = make([][]int, f.rows*4>>sy+margin)
		for r := 0; r < f.rows>>sy; r++ {
			for cc := 0; cc < f.cols>>sx; cc++ {
				t.LoopFilterTxSizes[p][r][cc] = f.tx(p, r, cc)
			}
		}
		for y := range image[p] {
			image[p][y] = make([]int, f.cols*4>>sx+margin)
			for x := range image[p][y] {
				v := f.pixel(p, y, x) & (1<<uint(f.depth) - 1)
				image[p][y][x] = v
				s.CurrFrame[p][y][x], w.own[p][y][x] = v, v
			}
		}
	}
	uh := uncompressedheader.UncompressedHeader{FrameWidth: f.w, FrameHeight: f.h, UpscaledWidth: f.w, LoopFilterLevel: f.level, LoopFilterSharpness: f.sharp,
		LoopFilterDeltaEnabled: f.deltas, LoopFilterRefDeltas: f.refDeltas, LoopFilterModeDeltas: f.modeDeltas, DeltaLfMulti: b2i(f.multi), SegmentationEnabled: f.segmentation}
	for g := 0; g < 8; g++ {
		for i := 0; i < 4; i++ {
			s.FeatureEnabled[g][1+i], s.FeatureData[g][1+i] = 0, 0
			if f.feature != nil {
				on, v := f.feature(g, 1+i)
				s.FeatureEnabled[g][1+i], s.FeatureData[g][1+i] = b2i(on), v
			}
		}
	}
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes, sh.ColorConfig.MonoChrome = f.depth, f.planes, f.mono
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.subX == 1, f.subY == 1
	what := func() string {
		return fmt.Sprintf("%dx%d frame of depth %d, subsampling %d%d mono %v, levels %v sharpness %d", f.w, f.h, f.depth, f.subX, f.subY, f.mono, f.level, f.sharp)
	}
	n := f.filter(&w.own)
	if e := mc.Catch(func() { tilegroup.VerifLoopFilter(t, s, uh, sh) }); e != nil {
		return mc.Failf("panic in the loop filter", "%s: %v", what(), e)
	}
	c.Inner++
	c.Steps += int64(n)
	for p := range image {
		for y := range image[p] {
			for x := range image[p][y] {
				if g, o := s.CurrFrame[p][y][x], w.own[p][y][x]; g != o {
					sx, sy := uint(0), uint(0)
					if p > 0 {
						sx, sy = uint(f.subX), uint(f.subY)
					}
					r, cc := clip(0, f.rows-1, y<<sy/4), clip(0, f.cols-1, x<<sx/4)
					return mc.Failf("filtered sample", "%s: sample (%d,%d) of plane %d, %d before, is %d, want %d (there %+v, transform %d)", what(), x, y, p, image[p][y][x], g, o,
						f.grid[r][cc], f.tx(p, r>>sy, cc>>sx))
				}
			}
		}
	}
	return nil
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func (f *Frame) format(n int) {
	switch n {
	case 1:
		f.subX, f.subY = 0, 0
	case 2:
		f.subX, f.subY = 1, 0
	case 3:
		f.mono = true
	}
}

// chroma size of transforms for a luma block.
func small(n int) int {
	if n < 4 {
		return 4
	}
	if n > 32 {
		return 32
	}
	return n
}

func size(w, h int) int {
	for i, s := range txm.Sizes {
		if 1<<uint(s[0]) == w && 1<<uint(s[1]) == h {
			return i
		}
	}
	return 0
}

// images.
func image(kind, depth int) func(p, y, x int) int {
	s := uint(depth - 8)
	return func(p, y, x int) int {
		switch kind {
		case 0: // nearly flat
			return (100+p)<<s + hash(p, y, x)%3<<s/2
		case 1: // steps of every height, downwards and to the right
			return (60 + x/4*(y%23)/2 + y/4*(x%19)/2 + hash(y, x)&1) << s
		case 2: // soft noise
			return (120 + hash(p, y, x)%9) << s
		case 3: // near the top
			return 255<<s + 1<<s - 1 - hash(p, y, x)%(6<<s)
		case 4: // near the bottom
			return hash(p, y, x) % (6 << s)
		default: // alternating
			return (128+hash(p, y, x)&1*40)<<s + hash(p, x, y)&1
		}
	}
}

func main() {
	r := mc.Start()
	n := 1 + b2i(r.Thorough())
	base := func() Frame {
		return Frame{w: 32, h: 32, subX: 1, subY: 1, depth: 8, level: [4]int{30, 30, 30, 30}}
	}
	r.Explore(
		mc.Scenario{Name: "places of edges", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(4))
			sz := c.All(22)
			kind := c.Pick(3, 1)
			fill := cell{size: sz, ref: 1, mode: 14}
			switch kind {
			case 1:
				fill.skip = 1
			case 2:
				fill.skip, fill.ref = 1, 0
			}
			tx := c.All(19)
			other, otherTx, at := -1, -1, 0
			if c.Pick(2, 1) == 1 {
				at = c.All(4)
				if c.All(2) == 0 {
					other = c.All(22)
				} else {
					otherTx = c.All(19)
				}
			}
			in := func(r, cc int) bool {
				switch at {
				case 0:
					return r >= 4
				case 1:
					return cc >= 4
				case 2:
					return r >= 2 && r < 4 && cc >= 2 && cc < 4
				}
				return r < 4 && cc < 4
			}
			f.cells = func(r, cc int) cell {
				e := fill
				if other >= 0 && in(r, cc) {
					e.size = other
				}
				return e
			}
			f.tx = func(p, r, cc int) int {
				v := tx
				if otherTx >= 0 && in(r, cc) {
					v = otherTx
				}
				return v
			}
			f.pixel = image(c.All(3), 8)
			switch c.Pick(5, 1) {
			case 1:
				f.w, f.h = 29, 26
			case 2:
				f.w, f.h = 20, 33
			case 3:
				f.w, f.h = 8, 8
			case 4:
				f.w, f.h = 1, 17
			}
			switch c.Pick(4, 1) {
			case 1:
				f.level[2] = 0
			case 2:
				f.level[3] = 0
			case 3:
				f.level[0] = 0
			}
			return f.run(c, w)
		}, Bound: n},
		mc.Scenario{Name: "mixed blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.format(c.All(4))
			seed := c.All(map[bool]int{false: 400, true: 20000}[r.Thorough()])
			f.depth = 8 + 2*(seed%3)
			f.w, f.h = 9+hash(seed, 1)%40, 9+hash(seed, 2)%40
			f.sharp = hash(seed, 3) % 8
			f.multi, f.deltas, f.segmentation = seed&1 == 1, seed&2 == 2, seed&4 == 4
			f.refDeltas, f.modeDeltas = [8]int{1, 0, -5, 12, -1, 0, -40, 63}, [2]int{-7, 9}
			f.feature = func(g, i int) (bool, int) { return hash(g, i)&1 == 1, hash(g, i, 2)%63 - 31 }
			for i := range f.level {
				f.level[i] = hash(seed, 4, i) % 64
			}
			f.level[0]++
			f.level[0] &= 63
			f.cells = func(r, cc int) cell {
				r, cc = r>>uint(seed%3), cc>>uint(seed/3%3)
				e := cell{size: hash(seed, r, cc) % 13, skip: hash(seed, r, cc, 1) & 1, ref: hash(seed, r, cc, 2) % 8, segment: hash(seed, r, cc, 3) % 8}
				if e.ref > 0 {
					e.mode = 14 + hash(seed, r, cc, 4)%12
				}
				for i := range e.delta {
					e.delta[i] = hash(seed, r, cc, 5, i)%21 - 10
				}
				return e
			}
			f.tx = func(p, r, cc int) int {
				return []int{0, 1, 2, 5, 6, 7, 8, 13, 14, 3, 15}[hash(seed, p, r>>uint(seed%3), cc>>uint(seed/3%3))%11]
			}
			kind := seed % 6
			im := image(kind, f.depth)
			im2 := image((kind+1)%6, f.depth)
			f.pixel = func(p, y, x int) int {
				if hash(seed, y>>3, x>>3)&1 == 1 {
					return im(p, y, x)
				}
				return im2(p, y, x)
			}
			return f.run(c, w)
		}},
		mc.Scenario{Name: "levels", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.w, f.h = 16, 64
			f.subX, f.subY = 0, 0
			plane, pass := c.All(3), c.All(2)
			i := pass
			if plane > 0 {
				i = plane + 1
			}
			f.level = [4]int{}
			f.level[i] = []int{20, 0, 1, 31, 32, 40, 63}[c.Pick(7, 1)]
			if f.level[i] == 20 {
				f.level[i] = c.Pick(64, 1)
				if f.level[i] == 0 {
					f.level[i] = 20
				}
			}
			f.sharp = c.Pick(8, 1)
			one := cell{size: 3, ref: []int{1, 0, 7, 2}[c.Pick(4, 1)], mode: 14}
			if one.ref > 0 {
				one.mode = 14 + c.Pick(12, 1)
			} else {
				one.mode = c.Pick(13, 1)
			}
			f.deltas = c.Pick(2, 1) == 1
			f.refDeltas = [8]int{1, 5, -9, 3, -30, 60, -63, -2}
			f.modeDeltas = [2]int{4, -11}
			switch c.Pick(5, 1) {
			case 1:
				one.delta = [4]int{7, -3, 11, 63}
			case 2:
				one.delta = [4]int{-63, 5, 6, 7}
				f.multi = true
			case 3:
				one.delta = [4]int{9, -7, -63, 8}
				f.multi = true
			case 4:
				one.delta = [4]int{63, 40, 1, -5}
				f.multi = true
			}
			f.segmentation = c.Pick(2, 1) == 1
			one.segment = c.Pick(3, 1) * 3
			f.feature = func(g, j int) (bool, int) {
				if g == 0 {
					return j == 1+i, -7
				}
				return g == 3 && j != 1+i || g == 6, 15 * (g - 5)
			}
			quiet := c.Pick(3, 1) // a side whose level is 0
			f.cells = func(r, cc int) cell {
				e := one
				after := cc >= 2
				if pass == 1 {
					after = r >= 2
				}
				if quiet > 0 && after == (quiet == 1) {
					e.delta = [4]int{-63, -63, -63, -63}
					e.ref, e.mode = 0, 0
				}
				return e
			}
			f.tx = func(p, r, cc int) int { return 1 }
			f.pixel = func(p, y, x int) int {
				along, across := y, x
				if pass == 1 {
					along, across = x, y
				}
				v := 60
				if across >= 8 {
					v += along * 5 / 2
				}
				if across == 9 || across == 6 {
					v += along % 7
				}
				return v
			}
			if pass == 1 {
				f.w, f.h = 64, 16
			}
			return f.run(c, w)
		}, Bound: n + 1},
		mc.Scenario{Name: "samples at an edge", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.w, f.h = 32, 64
			f.subX, f.subY = 0, 0
			pass := c.All(2)
			tx := c.All(3) // 4, 8, 16
			plane := c.All(2)
			f.depth = 8 + 2*c.Pick(3, 1)
			lev := []int{12, 1, 63, 40}[c.Pick(4, 1)]
			f.level = [4]int{lev, lev, lev, lev}
			f.sharp = []int{0, 1, 7}[c.Pick(3, 1)]
			lim := lev
			if f.sharp > 0 {
				lim = least(9-f.sharp, lev>>uint(1+b2i(f.sharp > 4)))
			}
			if lim < 1 {
				lim = 1
			}
			f.tx = func(p, r, cc int) int { return tx }
			f.cells = func(r, cc int) cell { return cell{size: 9, ref: 1, mode: 14} }
			reach := []int{2, 4, 7}[tx]
			if plane > 0 && tx > 0 {
				reach = 3
			}
			s := uint(f.depth - 8)
			mid := []int{100 << s, 0, 1<<uint(f.depth) - 1}[c.All(3)]
			// steps between neighbours: up to four samples depart
			deltas := []int{0, 1 << s, 1<<s + 1, lim << s, lim<<s + 1, lev >> 4 << s, lev>>4<<s + 1, -1 << s, -(1<<s + 1), -lim << s, -(lim<<s + 1)}
			a, b := c.All(2*reach), c.All(2*reach)
			da := deltas[c.All(len(deltas))]
			step := []int{0, 1, 3, lim, lim + 2, (2*(lev+2) + lim) / 2, (2*(lev+2)+lim)/2 + 1, -1, -7}[c.All(9)]
			f.pixel = func(p, y, x int) int {
				along, across := y, x
				if pass == 1 {
					along, across = x, y
				}
				db := deltas[along%len(deltas)]
				k := across - 16 + reach
				v := mid
				if across >= 16 {
					v += step << s
				}
				if k == a {
					v += da
				}
				if k == b {
					v += db
				}
				return clip(0, 1<<uint(f.depth)-1, v)
			}
			f.w, f.h = 32, 16
			if pass == 0 {
				f.w, f.h = 32, 12
			} else {
				f.w, f.h = 12, 32
			}
			return f.run(c, w)
		}, Bound: n},
		mc.Scenario{Name: "narrow filter", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := base()
			f.w, f.h = 8, 64
			f.mono = true
			lev := []int{63, 20}[c.All(2)]
			f.level = [4]int{lev, 0, 0, 0}
			f.tx = func(p, r, cc int) int { return 0 }
			f.cells = func(r, cc int) cell { return cell{size: 3, ref: 0} }
			p0 := c.All(32) * 8
			q1 := c.All(16) * 4
			p1 := c.All(16) * 4
			f.pixel = func(p, y, x int) int {
				q0 := p0 + y - 32
				v := 0
				switch x {
				case 2:
					v = p0 + p1 - 32
				case 3:
					v = p0
				case 4:
					v = q0
				case 5:
					v = q0 + q1 - 32
				}
				return clip(0, 255, v)
			}
			return f.run(c, w)
		}},
	)
	r.Bound("frames up to 48x48 of 4 chroma formats: 22 block sizes x 19 transform sizes with at most %d departures (skip, intra, a region of other blocks or transforms, frame limits, levels of 0), mixed frames, every level and sharpness with at most %d departures in deltas, modes, references, segments; around one edge any two samples depart by limits and one beyond at 9 steps, per filter size, with at most %d departures in depth, level, sharpness", n, n+1, n)
	r.Finish()
}
