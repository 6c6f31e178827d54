//go:build !noshim

// C53: loop restoration.
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/tabs"
)

var sets [][]int

// Unit is what was read for a restoration unit.
type Unit struct {
	kind   int // 0 none, 1 Wiener, 2 self-guided
	wiener [2][3]int
	set    int
	xqd    [2]int
}

// Frame is a frame to be restored.
type Frame struct {
	width, height int
	coded         int // width before upscaling
	format        int // 0: 4:2:0, 1: 4:4:4, 2: 4:2:2, 3: monochrome
	depth         int
	off           bool // no plane uses loop restoration
	kind          [3]int
	size          [3]int
	unit          func(p, r, c int) Unit
	cdef, curr    func(p, y, x int) int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clip(lo, hi, v int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func round(v int, n uint) int {
	if n == 0 {
		return v
	}
	return (v + 1<<(n-1)) >> n
}

// plane restores one plane.
type plane struct {
	w, h, depth int
	curr, cdef  [][]int
	start, end  int // rows of the stripe
	boxes       map[[4]int][2]int
}

func (p *plane) at(y, x int) int {
	x, y = clip(0, p.w-1, x), clip(0, p.h-1, y)
	if y < p.start {
		return p.curr[clip(p.start-2, y, y)][x]
	}
	if y > p.end {
		return p.curr[clip(0, p.end+2, y)][x]
	}
	return p.cdef[y][x]
}

func (p *plane) wiener(y, x int, u Unit) int {
	r0, r1 := uint(3), uint(11)
	if p.depth == 12 {
		r0, r1 = 5, 9
	}
	var taps [2][7]int
	for d, c := range u.wiener {
		taps[d] = [7]int{c[0], c[1], c[2], 128 - 2*(c[0]+c[1]+c[2]), c[2], c[1], c[0]}
	}
	low := -(1 << (uint(p.depth) + 6 - r0))
	high := 1<<(uint(p.depth)+8-r0) - 1 + low
	out := 0
	for i := 0; i < 7; i++ {
		s := 0
		for j := 0; j < 7; j++ {
			s += taps[1][j] * p.at(y+i-3, x+j-3)
		}
		out += taps[0][i] * clip(low, high, round(s, r0))
	}
	return clip(0, 1<<uint(p.depth)-1, round(out, r1))
}

// box gives the variance and mean terms around a sample.
func (p *plane) box(y, x, r, eps int) (int, int) {
	key := [4]int{p.start<<8 | r, eps, y, x}
	if v, ok := p.boxes[key]; ok {
		return v[0], v[1]
	}
	n := (2*r + 1) * (2*r + 1)
	a, b := 0, 0
	for dy := -r; dy <= r; dy++ {
		for dx := -r; dx <= r; dx++ {
			v := p.at(y+dy, x+dx)
			a += v * v
			b += v
		}
	}
	d := round(b, uint(p.depth-8))
	v := round(a, uint(2*(p.depth-8)))*n - d*d
	if v < 0 {
		v = 0
	}
	scale := (1<<20 + n*n*eps/2) / (n * n * eps)
	z := round(v*scale, 20)
	var k int
	switch {
	case z >= 255:
		k = 256
	case z == 0:
		k = 1
	default:
		k = (z<<8 + z/2) / (z + 1)
	}
	m := round((256-k)*b*((4096+n/2)/n), 12)
	p.boxes[key] = [2]int{k, m}
	return k, m
}

func (p *plane) guided(y, x int, u Unit) int {
	v := p.cdef[y][x]
	base := v << 4
	out := base * u.xqd[1]
	for pass := 0; pass < 2; pass++ {
		r, eps := sets[u.set][2*pass], sets[u.set][2*pass+1]
		weight := u.xqd[0]
		if pass == 1 {
			weight = 128 - u.xqd[0] - u.xqd[1]
		}
		if r == 0 {
			out += weight * base
			continue
		}
		var a, b int
		add := func(dy, dx, k int) {
			i, j := p.box(y+dy, x+dx, r, eps)
			a, b = a+k*i, b+k*j
		}
		shift := uint(9)
		switch {
		case pass == 1:
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					add(dy, dx, 3+b2i(dy == 0 || dx == 0))
				}
			}
		case y&1 == 0:
			for dx := -1; dx <= 1; dx++ {
				add(-1, dx, 5+b2i(dx == 0))
				add(1, dx, 5+b2i(dx == 0))
			}
		default:
			for dx := -1; dx <= 1; dx++ {
				add(0, dx, 5+b2i(dx == 0))
			}
			shift = 8
		}
		out += weight * round(a*v+b, shift)
	}
	return clip(0, 1<<uint(p.depth)-1, round(out, 11))
}

func (f *Frame) run(c *mc.Ch) *mc.Fail {
	if c.Local["t"] == nil {
		c.Local["t"] = &tilegroup.TileGroup{}
	}
	t := c.Local["t"].(*tilegroup.TileGroup)
	planes := 3
	subX, subY := 0, 0
	switch f.format {
	case 0:
		subX, subY = 1, 1
	case 2:
		subX = 1
	case 3:
		planes = 1
	}
	if f.coded == 0 {
		f.coded = f.width
	}
	s := &state.State{MiCols: (f.coded + 7) / 8 * 2, MiRows: (f.height + 7) / 8 * 2}
	sh := sequenceheader.SequenceHeader{EnableRestoration: true}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes, sh.ColorConfig.MonoChrome = f.depth, planes, planes == 1
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = subX == 1 || f.format == 3, subY == 1 || f.format == 3
	uh := uncompressedheader.UncompressedHeader{FrameWidth: f.coded, UpscaledWidth: f.width, FrameHeight: f.height, UsesLr: !f.off, UseSuperRes: f.coded != f.width}
	uh.SuperResDenom = 8
	var want [3][][]int
	for p := 0; p < planes; p++ {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(subX), uint(subY)
		}
		size := f.size[p]
		uh.FrameRestorationType[p] = f.kind[p]
		s.LoopRestorationSize[p] = size
		pl := &plane{w: (f.width + int(sx)) >> sx, h: (f.height + int(sy)) >> sy, depth: f.depth, boxes: map[[4]int][2]int{}}
		rows, cols := (pl.h+size/2)/size, (pl.w+size/2)/size
		if rows == 0 {
			rows = 1
		}
		if cols == 0 {
			cols = 1
		}
		for r := 0; r < rows; r++ {
			for k := 0; k < cols; k++ {
				u := Unit{}
				if f.kind[p] != 0 {
					u = f.unit(p, r, k)
				}
				t.LrType[p][r][k], t.LrWiener[p][r][k], t.LrSgrSet[p][r][k], t.LrSgrXqd[p][r][k] = u.kind, u.wiener, u.set, u.xqd
			}
		}
		mask := 1<<uint(f.depth) - 1
		grid := func(g func(p, y, x int) int) [][]int {
			o := make([][]int, pl.h)
			for y := range o {
				o[y] = make([]int, pl.w)
				for x := range o[y] {
					o[y][x] = g(p, y, x) & mask
				}
			}
			return o
		}
		pl.cdef, pl.curr = grid(f.cdef), grid(f.curr)
		s.UpscaledCdefFrame[p], s.UpscaledCurrFrame[p] = pl.cdef, pl.curr
		for y := 0; y < pl.h; y++ {
			n := (y<<sy + 8) / 64
			pl.start = (64*n - 8) >> sy
			pl.end = pl.start + 64>>sy - 1
			r := (y + 8>>sy) / size
			if r >= rows {
				r = rows - 1
			}
			line := make([]int, pl.w)
			for x := range line {
				k := x / size
				if k >= cols {
					k = cols - 1
				}
				line[x] = pl.cdef[y][x]
				if f.off || f.kind[p] == 0 {
					continue
				}
				switch u := f.unit(p, r, k); u.kind {
				case 1:
					line[x] = pl.wiener(y, x, u)
				case 2:
					line[x] = pl.guided(y, x, u)
				}
			}
			want[p] = append(want[p], line)
		}
	}
	what := func(p int) string {
		return fmt.Sprintf("frame of %dx%d (coded %d wide), format %d, depth %d, restoration %v in units of %v, unit (0,0) of the plane %+v", f.width, f.height, f.coded, f.format, f.depth, f.kind, f.size, f.unit(p, 0, 0))
	}
	if e := mc.Catch(func() { tilegroup.VerifLoopRestoration(t, s, sh, uh) }); e != nil {
		return mc.Failf("panic in loop restoration", "%s: %v", what(0), e)
	}
	c.Inner++
	for p := range want {
		for y := range want[p] {
			for x, v := range want[p][y] {
				c.Steps++
				if y >= len(s.LrFrame[p]) || x >= len(s.LrFrame[p][y]) {
					return mc.Failf("samples missing", "%s: no sample (%d,%d) of plane %d", what(p), x, y, p)
				}
				if s.LrFrame[p][y][x] != v {
					return mc.Failf(fmt.Sprintf("restored sample, plane %d type %d", b2i(p > 0), f.kind[p]), "%s: sample (%d,%d) of plane %d is %d, want %d (before: %d)", what(p), x, y, p, s.LrFrame[p][y][x], v, f.cdef(p, y, x)&(1<<uint(f.depth)-1))
				}
			}
		}
	}
	return nil
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func image(kind, depth, salt int) func(p, y, x int) int {
	top := 1<<uint(depth) - 1
	switch kind {
	case 0:
		return func(p, y, x int) int { return hash(p, y, x, salt) }
	case 1: // small differences
		return func(p, y, x int) int { return top/2 + (hash(p, y, x, salt)&7)<<uint(depth-8) }
	case 2:
		return func(p, y, x int) int { return hash(p, y, x, salt) & 1 * top }
	case 3: // an edge
		return func(p, y, x int) int {
			if x+y > 20+salt {
				return top - top/8
			}
			return top / 8
		}
	}
	return func(p, y, x int) int { return top }
}

var low, high = [3]int{-5, -23, -17}, [3]int{10, 8, 46}

func taps(k, p int) (o [3]int) {
	for i := range o {
		switch k % 3 {
		case 0:
			o[i] = low[i]
		case 1:
			o[i] = high[i]
		case 2:
			o[i] = []int{3, -7, 15}[i]
		}
		k /= 3
	}
	if p > 0 {
		o[0] = 0
	}
	return o
}

func some(p, r, k int) Unit {
	h := hash(p, r, k, 7)
	u := Unit{kind: (r + k + p + 1) % 3, set: h % 16}
	u.wiener = [2][3]int{taps(h/16%27, p), taps(h/500%27, p)}
	u.xqd = [2]int{-96 + h/16%128, -32 + h/3000%128}
	return u
}

func main() {
	r := mc.Start()
	sets = tabs.Load(os.Args[3]).I2("SGR_PARAMS")
	th := r.Thorough()
	pick := func(c *mc.Ch, a, b []int) int {
		if th {
			a = append(append([]int(nil), a...), b...)
		}
		return a[c.All(len(a))]
	}
	r.Explore(
		mc.Scenario{Name: "sizes and formats", Bound: map[bool]int{false: 1, true: 2}[th], Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{depth: 8, unit: some}
			f.width = pick(c, []int{1, 2, 7, 9, 16, 33}, []int{3, 4, 5, 6, 8, 10, 11, 12, 13, 31})
			f.height = pick(c, []int{1, 5, 6, 56, 57, 63, 66, 122}, []int{2, 3, 4, 7, 8, 9, 54, 55, 58, 59, 60, 61, 62, 64, 65, 119, 120, 121, 123})
			f.format = c.All(4)
			f.kind = [3]int{3, 3, 3}
			f.size = [3]int{64, 64, 64}
			if f.format == 0 {
				f.size[1], f.size[2] = 32, 32
			}
			f.depth += 2 * c.Pick(3, 1)
			k := c.Pick(5, 1)
			f.cdef, f.curr = image(k, f.depth, 0), image(k, f.depth, 1)
			switch c.Pick(5, 1) {
			case 1:
				f.off = true
				f.kind = [3]int{}
			case 2:
				f.kind = [3]int{0, 3, 3}
			case 3:
				f.kind = [3]int{3, 0, 3}
			case 4:
				f.kind = [3]int{3, 3, 0}
			}
			return f.run(c)
		}},
		mc.Scenario{Name: "units", Bound: 1, Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{depth: 8, unit: some, cdef: image(0, 8, 0), curr: image(0, 8, 1)}
			f.width = pick(c, []int{95, 96, 130, 161}, []int{63, 64, 65, 97, 128, 191, 192, 193})
			f.height = pick(c, []int{95, 96, 121, 161}, []int{87, 88, 89, 97, 119, 120, 127, 128, 129, 192, 193})
			f.format = c.All(4)
			f.kind = [3]int{3, 3, 3}
			f.size = [][3]int{{64, 64, 64}, {64, 32, 32}, {128, 64, 64}, {128, 128, 128}, {256, 128, 128}, {256, 256, 256}}[c.All(6)]
			if f.size[1] != f.size[0] && f.format != 0 {
				return nil
			}
			if c.Pick(2, 1) == 1 {
				f.coded = (f.width*8 + 8) / 16
			}
			switch c.Pick(3, 1) {
			case 1:
				one := some
				f.unit = func(p, r, k int) Unit { u := one(p, r, k); u.kind = 1; return u }
				f.kind = [3]int{1, 1, 1}
			case 2:
				one := some
				f.unit = func(p, r, k int) Unit { u := one(p, r, k); u.kind = 2; return u }
				f.kind = [3]int{2, 2, 2}
			}
			return f.run(c)
		}},
		mc.Scenario{Name: "Wiener coefficients", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{width: 12, height: 10, format: 1, size: [3]int{64, 64, 64}, kind: [3]int{1, 1, 1}}
			v, h := c.All(27), c.All(27)
			f.depth = 8 + 2*c.All(3)
			k := c.All(5)
			f.cdef, f.curr = image(k, f.depth, 0), image(k, f.depth, 1)
			f.unit = func(p, r, k int) Unit { return Unit{kind: 1, wiener: [2][3]int{taps(v, p), taps(h, p)}} }
			return f.run(c)
		}},
		mc.Scenario{Name: "each Wiener coefficient", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{width: 9, height: 8, format: 3, size: [3]int{64, 64, 64}, kind: [3]int{1, 1, 1}}
			u := Unit{kind: 1, wiener: [2][3]int{{3, -7, 15}, {3, -7, 15}}}
			d, i := c.All(2), c.All(3)
			u.wiener[d][i] = low[i] + c.All(high[i]-low[i]+1)
			f.depth = 8 + 2*c.All(3)
			f.cdef, f.curr = image(c.All(4), f.depth, 0), image(0, f.depth, 1)
			f.unit = func(p, r, k int) Unit { return u }
			return f.run(c)
		}},
		mc.Scenario{Name: "self-guided sets and weights", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{width: 12, height: 10, format: 1, size: [3]int{64, 64, 64}, kind: [3]int{2, 2, 2}}
			u := Unit{kind: 2, set: c.All(16)}
			u.xqd = [2]int{pick(c, []int{-96, -32, 0, 31}, []int{-95, -64, -1, 1, 15, 30}), pick(c, []int{-32, 0, 31, 95}, []int{-31, -1, 1, 64, 94, 33})}
			f.depth = 8 + 2*c.All(3)
			k := c.All(5)
			f.cdef, f.curr = image(k, f.depth, 0), image(k, f.depth, 1)
			f.unit = func(p, r, k int) Unit { return u }
			return f.run(c)
		}},
		mc.Scenario{Name: "self-guided variances", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{width: 6, height: 6, format: 3, size: [3]int{64, 64, 64}, kind: [3]int{2, 2, 2}}
			u := Unit{kind: 2, set: c.All(16), xqd: [2]int{-32, 31}}
			f.depth = 8 + 2*c.All(3)
			step := 1
			if !th {
				step = 3
			}
			one, base := c.All(256/step)*step<<uint(f.depth-8), c.All(3)*(1<<uint(f.depth)-1)/2
			f.cdef = func(p, y, x int) int {
				if y == 2 && x == 3 {
					return one
				}
				return base
			}
			f.curr = f.cdef
			f.unit = func(p, r, k int) Unit { return u }
			return f.run(c)
		}},
		mc.Scenario{Name: "each sample alone", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{width: 5, height: 67, format: 0, depth: 8, size: [3]int{64, 32, 32}, kind: [3]int{3, 3, 3}}
			kind, set := 1+c.All(2), 0
			if kind == 2 {
				set = []int{0, 12, 15}[c.All(3)]
			}
			before := c.All(2) // in the deblocked frame
			p := c.All(2)
			dim := [2][2]int{{67, 5}, {34, 3}}[p]
			y0, x0 := c.All(dim[0]), c.All(dim[1])
			flip := c.All(2) * 255
			g := func(n int) func(q, y, x int) int {
				return func(q, y, x int) int {
					if n == before && q == p && y == y0 && x == x0 {
						return 200 ^ flip
					}
					return 30 ^ flip
				}
			}
			f.cdef, f.curr = g(0), g(1)
			f.unit = func(p, r, k int) Unit {
				u := some(p, r, k)
				u.kind, u.set, u.xqd = kind, set, [2]int{-32 + 5*k, 31 - 7*r}
				return u
			}
			return f.run(c)
		}},
	)
	r.Bound("frames of %s sizes x 4 chroma formats with units of all types, one (thorough: two) of depth, image, planes not restored at a time; %s sizes x 6 unit sizes; 27x27 extreme Wiener filters x 3 depths x 5 images; every value of each tap; 16 sets x %s weight pairs; one sample of each value on a flat background; each sample alone, before and after CDEF", map[bool]string{false: "48", true: "432"}[th], map[bool]string{false: "16", true: "180"}[th], map[bool]string{false: "16", true: "100"}[th])
	r.Finish()
}
