//go:build !noshim

// C52: upscaling of frames coded at a smaller width.
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/tabs"
)

var filter [][]int

// Frame is a frame to be upscaled.
type Frame struct {
	width, height int // upscaled
	denom         int // 8: not scaled
	mono          bool
	subX, subY    int
	depth         int
	pixel         func(p, y, x int) int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// plane upscales a line: from w samples (m there are) to n.
func line(in []int, w, n, depth int) []int {
	step := (w<<14 + n/2) / n
	err := n*step - w<<14
	first := -((n-w)<<13 - n/2)
	if first < 0 {
		first = -(-first / n)
	} else {
		first /= n
	}
	e := err
	if e < 0 {
		e = -(-e / 2)
	} else {
		e /= 2
	}
	first = (first + 128 - e) & (1<<14 - 1)
	out := make([]int, n)
	for x := range out {
		pos := first + x*step
		px, taps := pos>>14-1, filter[pos>>8&63]
		sum := 64
		for k, t := range taps {
			at := px + k - 3
			if at < 0 {
				at = 0
			}
			if at >= len(in) {
				at = len(in) - 1
			}
			sum += t * in[at]
		}
		v := sum >> 7
		if v < 0 {
			v = 0
		}
		if v > 1<<uint(depth)-1 {
			v = 1<<uint(depth) - 1
		}
		out[x] = v
	}
	return out
}

func (f *Frame) run(c *mc.Ch) *mc.Fail {
	down := f.width
	if f.denom > 8 {
		down = (f.width*8 + f.denom/2) / f.denom
	}
	if f.denom > 8 && down == f.width {
		return nil // too narrow to be scaled; the specification and libaom differ
	}
	mi := (down + 7) / 8 * 2
	rows := (f.height + 7) / 8 * 2
	t, s := &tilegroup.TileGroup{}, &state.State{MiCols: mi, MiRows: rows}
	sh := sequenceheader.SequenceHeader{EnableSuperRes: true}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes, sh.ColorConfig.MonoChrome = f.depth, 3-2*b2i(f.mono), f.mono
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.subX == 1, f.subY == 1
	uh := uncompressedheader.UncompressedHeader{FrameWidth: down, UpscaledWidth: f.width, FrameHeight: f.height, UseSuperRes: f.denom > 8, SuperResDenom: f.denom}
	var in [3][][]int
	var want [3][][]int
	for p := 0; p < 3-2*b2i(f.mono); p++ {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(f.subX), uint(f.subY)
		}
		in[p] = make([][]int, rows*4>>sy)
		for y := range in[p] {
			in[p][y] = make([]int, mi*4>>sx)
			for x := range in[p][y] {
				in[p][y][x] = f.pixel(p, y, x) & (1<<uint(f.depth) - 1)
			}
			if y < (f.height+int(sy))>>sy {
				if f.denom > 8 {
					want[p] = append(want[p], line(in[p][y], (down+int(sx))>>sx, (f.width+int(sx))>>sx, f.depth))
				} else {
					want[p] = append(want[p], append([]int(nil), in[p][y][:(f.width+int(sx))>>sx]...))
				}
			}
		}
	}
	what := func() string {
		return fmt.Sprintf("frame of %dx%d coded %d wide (denominator %d), depth %d, subsampling %d%d mono %v", f.width, f.height, down, f.denom, f.depth, f.subX, f.subY, f.mono)
	}
	var out [3][][]int
	if e := mc.Catch(func() { out = tilegroup.VerifUpscale(t, in, s, sh, uh) }); e != nil {
		return mc.Failf("panic in upscaling", "%s: %v", what(), e)
	}
	c.Inner++
	for p := range want {
		for y := range want[p] {
			for x, v := range want[p][y] {
				c.Steps++
				if y >= len(out[p]) || x >= len(out[p][y]) {
					return mc.Failf("samples missing", "%s: no sample (%d,%d) of plane %d", what(), x, y, p)
				}
				if out[p][y][x] != v {
					return mc.Failf("upscaled sample", "%s: sample (%d,%d) of plane %d is %d, want %d", what(), x, y, p, out[p][y][x], v)
				}
			}
		}
	}
	return nil
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func (f *Frame) format(n int) {
	switch n {
	case 0:
		f.subX, f.subY = 1, 1
	case 2:
		f.subX = 1
	case 3:
		f.mono = true
	}
}

func image(kind, depth int) func(p, y, x int) int {
	top := 1<<uint(depth) - 1
	switch kind {
	case 0:
		return func(p, y, x int) int { return hash(p, y, x) }
	case 1:
		return func(p, y, x int) int { return hash(p, y, x) & 1 * top }
	case 2:
		return func(p, y, x int) int { return top }
	}
	return func(p, y, x int) int { return (x*3 + y*7) % (top + 1) }
}

func main() {
	r := mc.Start()
	filter = tabs.Load(os.Args[3]).I2("UPSCALE_FILTER")
	th := r.Thorough()
	r.Explore(
		mc.Scenario{Name: "widths and denominators", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{height: 2, depth: 8}
			f.width = 1 + c.All(map[bool]int{false: 200, true: 1200}[th])
			f.denom = 8 + c.All(9)
			f.format(c.All(4))
			f.depth = 8 + 2*c.Pick(3, 1)
			f.pixel = image(c.All(4), f.depth)
			f.height += 3 * c.Pick(5, 1)
			return f.run(c)
		}, Bound: 1},
		mc.Scenario{Name: "each sample alone", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{height: 1, depth: 8, mono: true}
			f.width = 16 + c.All(map[bool]int{false: 50, true: 200}[th])
			f.denom = 8 + c.All(9)
			at := c.All(f.width)
			high := c.All(2)
			f.pixel = func(p, y, x int) int { return (b2i(x == at) ^ high) * 255 }
			return f.run(c)
		}},
		mc.Scenario{Name: "wide frames", Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{height: 1, depth: 8}
			f.width = []int{1920, 1921, 3840, 4095, 4096, 8191, 16384, 65535, 65536}[c.All(9)]
			f.denom = 8 + c.All(9)
			f.format(c.All(4))
			f.pixel = image(c.All(4), 8)
			return f.run(c)
		}},
	)
	r.Bound("all widths to %d and 9 up to 65536, all denominators and unscaled, 4 chroma formats, 4 images, other depths and heights one at a time; each sample alone at either extreme", map[bool]int{false: 200, true: 1200}[th])
	r.Finish()
}
