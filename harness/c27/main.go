// C27: wedge masks.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/wedgemask"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const (
	horz = iota
	vert
	o27
	o63
	o117
	o153
)

type wedge struct{ dir, x, y int }

var tail = []wedge{{o27, 4, 2}, {o27, 4, 6}, {o153, 4, 2}, {o153, 4, 6}, {o63, 2, 4}, {o63, 6, 4}, {o117, 2, 4}, {o117, 6, 4}}
var head = []wedge{{o27, 4, 4}, {o63, 4, 4}, {o117, 4, 4}, {o153, 4, 4}}

func codebook(w, h int) []wedge {
	var m []wedge
	switch {
	case h > w:
		m = []wedge{{horz, 4, 2}, {horz, 4, 4}, {horz, 4, 6}, {vert, 4, 4}}
	case h < w:
		m = []wedge{{vert, 2, 4}, {vert, 4, 4}, {vert, 6, 4}, {horz, 4, 4}}
	default:
		m = []wedge{{horz, 4, 2}, {horz, 4, 6}, {vert, 2, 4}, {vert, 6, 4}}
	}
	return append(append(append([]wedge{}, head...), m...), tail...)
}

// rise is a transition from 0 to 64 whose middle values are given.
func rise(first int, mid ...int) func(x int) int {
	return func(x int) int {
		switch {
		case x < first:
			return 0
		case x < first+len(mid):
			return mid[x-first]
		}
		return 64
	}
}

var (
	odd      = rise(28, 1, 2, 6, 18, 37, 53, 60, 63)
	even     = rise(28, 1, 4, 11, 27, 46, 58, 62, 63)
	straight = rise(29, 2, 7, 21, 43, 57, 62)
)

func clamp(x int) int {
	if x < 0 {
		return 0
	}
	if x > 63 {
		return 63
	}
	return x
}

// master is the 64x64 mask of a direction at row i, column j.
func master(dir, i, j int) int {
	switch dir {
	case vert:
		return straight(j)
	case horz:
		return straight(i)
	case o63:
		if i%2 == 0 {
			return even(clamp(j - 16 + i/2))
		}
		return odd(clamp(j - 16 + (i+1)/2))
	case o27:
		return master(o63, j, i)
	case o117:
		return 64 - master(o63, i, 63-j)
	case o153:
		return 64 - master(o63, j, 63-i)
	}
	panic("dir")
}

// mask is the mask of a block, by the definition of the specification.
func mask(w, h, index, sign int) [][]int {
	k := codebook(w, h)[index]
	x0, y0 := 32-(k.x*w>>3), 32-(k.y*h>>3)
	sum := 0
	for i := 0; i < w; i++ {
		sum += master(k.dir, y0, x0+i)
	}
	for i := 1; i < h; i++ {
		sum += master(k.dir, y0+i, x0)
	}
	flip := 0
	if (sum+(w+h-1)/2)/(w+h-1) < 32 {
		flip = 1
	}
	o := make([][]int, h)
	for i := range o {
		o[i] = make([]int, w)
		for j := range o[i] {
			o[i][j] = master(k.dir, y0+i, x0+j)
			if sign != flip {
				o[i][j] = 64 - o[i][j]
			}
		}
	}
	return o
}

// sizes in the order of the block size constants.
var sizes = [][2]int{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64}, {64, 128}, {128, 64}, {128, 128},
	{4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func has(w, h int) bool { return w >= 8 && h >= 8 && w <= 32 && h <= 32 }

type snapshot [22][2][16][][]int

func take() *snapshot {
	s := &snapshot{}
	for b := range s {
		for g := range s[b] {
			for k := range s[b][g] {
				for _, row := range wedgemask.WedgeMasks[b][g][k] {
					s[b][g][k] = append(s[b][g][k], append([]int{}, row...))
				}
			}
		}
	}
	return s
}

func main() {
	r := mc.Start()
	var snaps []*snapshot
	var failed interface{}
	const builds = 4
	// The table is shared by all decoders, so it is built before the exploration, several times.
	for i := 0; i < builds && failed == nil; i++ {
		s := &state.State{}
		if i%2 == 1 {
			s.MiCols, s.MiRows, s.MiSize, s.TileNum, s.CdefSize4 = 40, 30, 21, 3, 16
		}
		failed = mc.Catch(func() { wedgemask.InitialiseWedgeMaskTable(s) })
		snaps = append(snaps, take())
	}
	r.Explore(mc.Scenario{Name: "every mask after every number of builds", Run: func(c *mc.Ch) *mc.Fail {
		if failed != nil {
			return mc.Failf("panic", "building the wedge masks fails: %v", failed)
		}
		n, b := c.All(builds), c.All(len(sizes))
		w, h := sizes[b][0], sizes[b][1]
		c.Note("after %d builds, block %dx%d, every wedge, sign and pixel", n+1, w, h)
		for k := 0; k < 16; k++ {
			for g := 0; g < 2; g++ {
				got := snaps[n][b][g][k]
				c.Inner++
				c.Steps++
				if !has(w, h) {
					if len(got) != 0 {
						return mc.Failf("unexpected mask", "block %dx%d has a mask", w, h)
					}
					continue
				}
				if want := mask(w, h, k, g); fmt.Sprint(got) != fmt.Sprint(want) {
					for i := range want {
						if i >= len(got) || fmt.Sprint(got[i]) != fmt.Sprint(want[i]) {
							var row []int
							if i < len(got) {
								row = got[i]
							}
							return mc.Failf("mask", "block %dx%d wedge %d sign %d after %d builds: row %d is %v, want %v", w, h, k, g, n+1, i, row, want[i])
						}
					}
					return mc.Failf("mask", "block %dx%d wedge %d sign %d: %d rows, want %d", w, h, k, g, len(got), h)
				}
			}
		}
		return nil
	}})
	r.Bound("all 22 block sizes, 16 wedges, 2 signs, every pixel, after 1 to %d builds with different states: the whole domain", builds)
	r.Finish()
}
