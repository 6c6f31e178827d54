//go:build !noshim

// C54: samples of a local warp, and the warp estimated from them.
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/zzverif/inter"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return -least(-a, -b) }

func abs(a int) int { return most(a, -a) }

// block is a block that has been decoded.
type block struct {
	r, c, size int
	ref        [2]int
	mv         [2]int
}

func wide(size int) int { return inter.Wide[size] / 4 }
func high(size int) int { return inter.High[size] / 4 }

// place is the block and what surrounds it.
type place struct {
	block
	rows, cols     int // of the frame
	r0, r1, c0, c1 int // of the tile
	all            []*block
	at             [64][64]*block
}

func (p *place) inside(r, c int) bool { return r >= p.r0 && r < p.r1 && c >= p.c0 && c < p.c1 }

// paint lays a block down, if there is room.
func (p *place) paint(b *block) bool {
	h, w := high(b.size), wide(b.size)
	if b.r < 0 || b.c < 0 || b.r+h > 64 || b.c+w > 64 {
		return false
	}
	for r := b.r; r < b.r+h; r++ {
		for c := b.c; c < b.c+w; c++ {
			if p.at[r][c] != nil {
				return false
			}
		}
	}
	for r := b.r; r < b.r+h; r++ {
		for c := b.c; c < b.c+w; c++ {
			p.at[r][c] = b
		}
	}
	p.all = append(p.all, b)
	return true
}

// around paints a block of a size over a place.
func (p *place) around(r, c, size int, ref, mv [2]int) bool {
	return p.paint(&block{r - r%high(size), c - c%wide(size), size, ref, mv})
}

// samples gives what the neighbours say: positions of their middles here and in the reference.
func (p *place) samples() [][4]int {
	var list [][4]int
	seen, fit := 0, 0
	limit := most(16, least(112, most(inter.Wide[p.size], inter.High[p.size])))
	add := func(r, c int) {
		if seen == 8 || !p.inside(r, c) {
			return
		}
		n := p.at[r][c]
		if n == nil || n.ref != [2]int{p.ref[0], -1} {
			return
		}
		seen++
		y, x := (n.r*8+high(n.size)*4-2)*4, (n.c*8+wide(n.size)*4-2)*4
		s := [4]int{y, x, y + n.mv[0], x + n.mv[1]}
		near := abs(n.mv[0]-p.mv[0])+abs(n.mv[1]-p.mv[1]) <= limit
		switch {
		case near:
			list = append(list[:fit:fit], s)
			fit++
		case seen == 1:
			list = append(list, s)
		}
	}
	w, h := wide(p.size), high(p.size)
	corner, right := true, true
	if p.r > p.r0 {
		if n := p.at[p.r-1][p.c]; wide(n.size) >= w {
			corner = n.c == p.c
			right = n.c+wide(n.size) <= p.c+w
			add(p.r-1, p.c)
		} else {
			for c := p.c; c < least(p.c+w, p.cols); c += wide(p.at[p.r-1][c].size) {
				add(p.r-1, c)
			}
		}
	}
	if p.c > p.c0 {
		if n := p.at[p.r][p.c-1]; high(n.size) >= h {
			corner = corner && n.r == p.r
			add(p.r, p.c-1)
		} else {
			for r := p.r; r < least(p.r+h, p.rows); r += high(p.at[r][p.c-1].size) {
				add(r, p.c-1)
			}
		}
	}
	if corner {
		add(p.r-1, p.c-1)
	}
	if right && most(w, h) <= 16 {
		add(p.r-1, p.c+w)
	}
	if fit == 0 && seen > 0 {
		return list[:1]
	}
	return list[:fit]
}

type work struct {
	t *tilegroup.TileGroup
	s *state.State
}

func get(c *mc.Ch) *work {
	w, ok := c.Local["w"].(*work)
	if !ok {
		w = &work{&tilegroup.TileGroup{}, &state.State{}}
		c.Local["w"] = w
	}
	return w
}

func (w *work) find(c *mc.Ch, p *place) *mc.Fail {
	t, s := w.t, w.s
	for r := range p.at {
		for cc := range p.at[r] {
			if b := p.at[r][cc]; b != nil {
				s.MiSizes[r][cc], s.RefFrames[r][cc] = b.size, b.ref
				t.Mvs[r][cc] = [2][2]int{b.mv, {b.mv[1] + 1000, -7}}
			} else {
				s.MiSizes[r][cc], s.RefFrames[r][cc] = 0, [2]int{-1, -1}
				t.Mvs[r][cc] = [2][2]int{}
			}
		}
	}
	s.MiRows, s.MiCols = p.rows, p.cols
	s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = p.r0, p.r1, p.c0, p.c1
	s.MiRow, s.MiCol, s.MiSize = p.r, p.c, p.size
	s.AvailU, s.AvailL = p.r > p.r0, p.c > p.c0
	s.RefFrame = p.ref
	t.Mv[0], t.Mv[1] = p.mv, [2]int{99, 1234}
	t.NumSamples = 5
	for i := range t.CandList {
		t.CandList[i] = [4]int{1, 2, 3, 4}
	}
	want := p.samples()
	what := func() string {
		o := ""
		for _, b := range p.all[1:] {
			o += fmt.Sprintf(" [%dx%d at row %d col %d refs %v mv %v]", inter.Wide[b.size], inter.High[b.size], b.r, b.c, b.ref, b.mv)
		}
		return fmt.Sprintf("block %dx%d at row %d col %d (4x4 units), refs %v mv %v, in tile rows %d-%d cols %d-%d of a frame %dx%d, neighbours%s",
			inter.Wide[p.size], inter.High[p.size], p.r, p.c, p.ref, p.mv, p.r0, p.r1, p.c0, p.c1, p.rows, p.cols, o)
	}
	if e := mc.Catch(func() { tilegroup.VerifFindWarpSamples(t, s) }); e != nil {
		return mc.Failf("panic in search for samples", "%s: %v", what(), e)
	}
	c.Inner++
	c.Steps++
	if t.NumSamples != len(want) {
		return mc.Failf("number of samples", "%s: %d samples, want %d: %v", what(), t.NumSamples, len(want), want)
	}
	for i, v := range want {
		if t.CandList[i] != v {
			return mc.Failf("sample", "%s: sample %d is %v, want %v", what(), i, t.CandList[i], v)
		}
	}
	return nil
}

func start(size, r, c int) *place {
	p := &place{rows: 64, cols: 64, r1: 64, c1: 64}
	p.block = block{r, c, size, [2]int{2, -1}, [2]int{-20, 36}}
	p.paint(&block{r, c, size, p.ref, p.mv})
	return p
}

var sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21}

// kind picks what a neighbour refers to.
func kind(c *mc.Ch, p *place, n int) (ref, mv [2]int) {
	limit := most(16, least(112, most(inter.Wide[p.size], inter.High[p.size])))
	ref, mv = [2]int{2, -1}, [2]int{p.mv[0] + n, p.mv[1] - 2*n}
	switch c.Pick(8, 1) {
	case 1: // too far
		mv = [2]int{p.mv[0] - limit, p.mv[1] + 1}
	case 2: // just near enough
		mv = [2]int{p.mv[0] - limit/2, p.mv[1] + limit/2}
	case 3:
		ref[1] = 5
	case 4:
		ref[0] = 3
	case 5:
		ref[0] = 0
	case 6: // not decoded
		ref[0] = -1
	case 7: // intra besides
		ref[1] = 0
	}
	return
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	tables := inter.Load(os.Args[3])
	n := 1
	if th {
		n = 2
	}
	r.Explore(
		mc.Scenario{Name: "neighbours", Run: func(c *mc.Ch) *mc.Fail {
			size := sizes[c.All(len(sizes))]
			w, h := wide(size), high(size)
			k := c.All(4)
			p := start(size, 32-k/2*h, 32-k%2*w)
			p.r1, p.c1 = 64, 64
			// tile and frame
			switch c.Pick(8, 1) {
			case 1:
				p.r0 = p.r
			case 2:
				p.c0 = p.c
			case 3:
				p.c1 = least(64, p.c+w)
			case 4:
				p.r0, p.c0 = most(0, p.r-1), most(0, p.c-1)
			case 5:
				p.cols = p.c + (w+1)/2
				p.c1 = p.cols
			case 6:
				p.rows = p.r + (h+1)/2
				p.r1 = p.rows
			case 7:
				p.r0, p.c0 = p.r, p.c
			}
			above, left := c.All(22), c.All(22)
			ref, mv := kind(c, p, 1)
			if p.r > p.r0 && !p.around(p.r-1, p.c, above, ref, mv) {
				return nil
			}
			ref, mv = kind(c, p, 2)
			if p.c > p.c0 && p.at[p.r][p.c-1] == nil && !p.around(p.r, p.c-1, left, ref, mv) {
				return nil
			}
			// more of them
			for i := 0; i < w && p.r > p.r0; i++ {
				if p.at[p.r-1][p.c+i] == nil {
					ref, mv = [2]int{2, -1}, [2]int{p.mv[0] + i, p.mv[1] - 3}
					if i < 3 {
						ref, mv = kind(c, p, 3+i)
					}
					if !p.around(p.r-1, p.c+i, above, ref, mv) {
						return nil
					}
				}
			}
			for i := 0; i < h && p.c > p.c0; i++ {
				if p.at[p.r+i][p.c-1] == nil {
					ref, mv = [2]int{2, -1}, [2]int{p.mv[0] - i, p.mv[1] - 1}
					if i < 3 {
						ref, mv = kind(c, p, 6+i)
					}
					if !p.around(p.r+i, p.c-1, left, ref, mv) {
						return nil
					}
				}
			}
			corner := []int{3, 0, 6}[c.Pick(3, 1)]
			if p.r > p.r0 && p.c > p.c0 && p.at[p.r-1][p.c-1] == nil {
				ref, mv = kind(c, p, 9)
				if !p.around(p.r-1, p.c-1, corner, ref, mv) {
					return nil
				}
			}
			if p.r > p.r0 && p.c+w < 64 && p.at[p.r-1][p.c+w] == nil {
				ref, mv = kind(c, p, 10)
				if ref[0] >= 0 && !p.around(p.r-1, p.c+w, corner, ref, mv) {
					return nil
				}
			}
			return get(c).find(c, p)
		}, Bound: n},
		mc.Scenario{Name: "many neighbours", Run: func(c *mc.Ch) *mc.Fail {
			size := sizes[c.All(len(sizes))]
			w, h := wide(size), high(size)
			p := start(size, 32, 32)
			piece := []int{3, 0, 4, 5, 6, 9, 16, 17}
			above, left := piece[c.All(len(piece))], piece[c.All(len(piece))]
			// which of the first ones count
			mask := c.All(1 << 8)
			one := func(i int) (ref, mv [2]int) {
				ref, mv = [2]int{2, -1}, [2]int{p.mv[0] + i, p.mv[1] - 1}
				if i < 8 && mask>>uint(i)&1 == 1 {
					switch c.Pick(2, 1) {
					case 0:
						mv[1] += 200
					case 1:
						ref[0] = 1
					}
				}
				return
			}
			i := 0
			lay := func(r, cc, size int) bool {
				if p.at[r][cc] != nil {
					return true
				}
				ref, mv := one(i)
				i++
				return p.around(r, cc, size, ref, mv)
			}
			for k := 0; k < w; k++ {
				if !lay(p.r-1, p.c+k, above) {
					return nil
				}
			}
			for k := 0; k < h; k++ {
				if !lay(p.r+k, p.c-1, left) {
					return nil
				}
			}
			if !lay(p.r-1, p.c-1, 3) || p.c+w < 64 && !lay(p.r-1, p.c+w, 3) {
				return nil
			}
			return get(c).find(c, p)
		}, Bound: n - 1},
		mc.Scenario{Name: "distances of vectors", Run: func(c *mc.Ch) *mc.Fail {
			size := sizes[c.All(len(sizes))]
			limit := most(16, least(112, most(inter.Wide[size], inter.High[size])))
			p := start(size, 32, 32)
			p.mv = [][2]int{{0, 0}, {5, -9}, {-300, 77}, {1999, -2001}}[c.All(4)]
			far := func() [2]int {
				a := []int{0, 1, limit / 2, limit - 1, limit, limit + 1, 400}[c.All(7)]
				b := []int{0, 1, limit - limit/2, limit - limit/2 + 1, limit, 3000}[c.All(6)]
				s := c.All(4)
				return [2]int{p.mv[0] + a*(1-s%2*2), p.mv[1] + b*(1-s/2*2)}
			}
			ref := [2]int{2, -1}
			p.around(31, 32, size, ref, far())
			p.around(32, 31, size, ref, far())
			return get(c).find(c, p)
		}},
		mc.Scenario{Name: "division", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			n := c.All(62)
			for top := 0; top < 1024; top++ {
				for _, low := range []int{0, 1, -1, 2} {
					d := 1 << uint(n)
					if n <= 10 {
						d += top
					} else {
						d += top << uint(n-10)
						switch low {
						case 1, -1:
							d += low
						case 2:
							d += 1<<uint(n-10) - 1
						}
					}
					for _, v := range []int{d, -d} {
						c.Inner++
						shift, factor := tables.Divisor(v)
						var gs, gf int
						if e := mc.Catch(func() { gs, gf = tilegroup.VerifResolveDivisor(w.t, v) }); e != nil {
							return mc.Failf("panic in division", "by %d: %v", v, e)
						}
						if gs != shift || gf != factor {
							return mc.Failf("division", "by %d: factor %d, shift %d, want %d, %d", v, gf, gs, factor, shift)
						}
					}
				}
			}
			c.Steps += 8192
			return nil
		}},
		mc.Scenario{Name: "shears", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			v := []int{0, 1, -1, 31, 32, 33, -31, -32, -33, 96, -96, 1000, -1000, 4095, -4097, 5461, -5462, 7000, -7001, 8191, -8191, 8192, -8192}
			m := [6]int{12345, -54321, 65536 + v[c.All(len(v))], v[c.All(len(v))]}
			if c.All(2) == 1 {
				m[2] += []int{9362, -9362, 2340, -2341, 16384 - 28}[c.All(5)]
			}
			if c.All(2) == 1 {
				m[3] += []int{1179, -1180, 9363, -9364}[c.All(4)]
			}
			more := []int{0, 3000, -3000, 16320, -16321}
			for _, g := range v {
				for _, d := range v {
					for _, e := range more {
						m[4], m[5] = g+e/2, 65536+d+e
						c.Inner++
						ok, alpha, beta, gamma, delta := tables.Shear(m)
						var gk bool
						var ga, gb, gg, gd int
						if err := mc.Catch(func() { gk, ga, gb, gg, gd = tilegroup.VerifSetupShear(w.t, m) }); err != nil {
							return mc.Failf("panic in shear", "of %v: %v", m, err)
						}
						if gk != ok {
							return mc.Failf("validity of shear", "of %v: %v, want %v", m, gk, ok)
						}
						if ga != alpha || gb != beta || gg != gamma || gd != delta {
							return mc.Failf("shear", "of %v: %d %d %d %d, want %d %d %d %d", m, ga, gb, gg, gd, alpha, beta, gamma, delta)
						}
					}
				}
			}
			c.Steps += 23 * 23 * 5
			return nil
		}},
		mc.Scenario{Name: "estimates", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			size := sizes[c.All(len(sizes))]
			row, col := []int{0, 32, 4096}[c.Pick(3, 1)], []int{0, 64, 8000}[c.Pick(3, 1)]
			mv := [][2]int{{0, 0}, {9, -14}, {-400, 650}, {16383, -16383}}[c.Pick(4, 1)]
			my, mx := (row*4+inter.High[size]/2-1)*8, (col*4+inter.Wide[size]/2-1)*8
			h, v := inter.Wide[size]*4, inter.High[size]*4
			spots := [][2]int{{-v - 16, 0}, {0, -h - 16}, {-v - 32, -h - 32}, {-v - 16, h + 16}, {-v - 16, 16 - h}, {v - 16, -h - 16}, {-v - 256, -h - 256}, {0, 0}}
			moves := [][2]int{{0, 0}, {1, 0}, {0, -1}, {7, 5}, {-40, 13}, {56, 56}, {-112, 0}, {255, 0}, {0, -256}, {256, 255}, {-255, -255}, {3, -90}}
			count := 1 + c.All(8)
			var list [][4]int
			for i := 0; i < count; i++ {
				var k, d int
				if i < 2 {
					k, d = c.All(len(spots)), c.All(len(moves))
				} else {
					k, d = c.Pick(len(spots), 1), (3*i+c.Pick(len(moves), 1))%len(moves)
					k = (k + i) % len(spots)
				}
				y, x := my+spots[k][0], mx+spots[k][1]
				list = append(list, [4]int{y, x, y + mv[0] + moves[d][0], x + mv[1] + moves[d][1]})
			}
			t, s := w.t, w.s
			s.MiRow, s.MiCol, s.MiSize = row, col, size
			t.Mv[0], t.Mv[1] = mv, [2]int{5, 77}
			t.NumSamples = count
			for i := range t.CandList {
				t.CandList[i] = [4]int{my + 8, mx + 8, my + 9, mx + 11}
			}
			for i, v := range list {
				t.CandList[i] = v
			}
			t.LocalValid, t.LocalWarpParams = false, [6]int{1, 2, 3, 4, 5, 6}
			ok, m := tables.Estimate(row, col, size, mv, list)
			what := func() string {
				return fmt.Sprintf("block %dx%d at row %d col %d (4x4 units), vector %v, samples %v", inter.Wide[size], inter.High[size], row, col, mv, list)
			}
			if e := mc.Catch(func() { tilegroup.VerifWarpEstimation(t, s) }); e != nil {
				return mc.Failf("panic in estimation", "%s: %v", what(), e)
			}
			c.Inner++
			c.Steps++
			if t.LocalValid != ok {
				return mc.Failf("validity of estimate", "%s: %v, want %v", what(), t.LocalValid, ok)
			}
			if ok && t.LocalWarpParams != m {
				return mc.Failf("estimate", "%s: %v, want %v", what(), t.LocalWarpParams, m)
			}
			return nil
		}, Bound: n - 1},
	)
	r.Bound("neighbours: the 17 sizes of blocks that can be warped, at 4 places each, under one and beside one of all 22 sizes (and more of them along longer sides), with corners; up to %d deviations in what neighbours refer to (other reference, two references, intra, not decoded, too far or just near enough), in tile and frame limits and in sizes at corners", n)
	r.Bound("many neighbours: 8x8 sizes of pieces along both sides, all 256 choices of which of the first 8 are too far; with the limit of 8 scanned")
	r.Bound("distances: 168 differences for each of two neighbours, 4 vectors")
	r.Bound("division: every number below 2048 and, of every length up to 62 bits, all 1024 leading parts with 4 tails, both signs")
	r.Bound("shears: 23 values (and with shifts that straddle the limits) of each of the 4 parameters")
	r.Bound("estimates: 1 to 8 samples, the first two at every one of 8 spots with 12 motions, the others with up to %d deviations", n-1)
	r.Assume("the block and its neighbours are aligned to their sizes, as the partitions give them")
	r.Finish()
}
