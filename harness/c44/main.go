//go:build !noshim

// C44: what is kept of a block.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/mi"
)

func main() {
	r := mc.Start()
	if m := os.Getenv("VERIF_SEAMS_MISSING"); m != "" {
		r.Assume("NOT EXPLORED: the code no longer has what the check replaces: " + m)
		r.Finish()
		return
	}
	mi.Stubs()
	thorough := r.Thorough()
	format := func(c *mc.Ch, f *mi.Frame) {
		switch c.All(4) {
		case 1:
			f.SubX, f.SubY = 0, 0
		case 2:
			f.SubX, f.SubY = 1, 0
		case 3:
			f.Mono = true
		}
	}
	r.Explore(
		mc.Scenario{Name: "every size and place", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			f.Seg, f.Deltas, f.DeltaLF, f.DeltaLFMulti = true, true, true, true
			f.IntraBC = f.Intra && c.All(2) == 1
			format(c, &f)
			size := c.All(22)
			p := mi.Spot{R: 32, C: 32, Size: size}
			if mi.High[size] == 1 {
				p.R += c.All(2)
			}
			if mi.Wide[size] == 1 {
				p.C += c.All(2)
			}
			switch c.All(3) {
			case 1:
				f.Rows, f.Cols = 32+(mi.High[size]+1)/2, 32+(mi.Wide[size]+1)/2
				if f.Rows <= p.R || f.Cols <= p.C {
					return nil
				}
				f.Tile = [4]int{0, f.Rows, 0, f.Cols}
			case 2:
				// limits of the tile around the block
				f.Tile[0], f.Tile[2] = p.R&^1, p.C&^1
			}
			w.Begin(f)
			w.St = mi.Stand{Pal: [][2]int{{0, 0}, {8, 2}, {0, 8}}[c.Pick(3, 1)], Tx: c.Pick(19, 1), Found: 2}
			w.Choose = mi.Chooser(c, map[string]int{"cdef": 0}, "IsInter", "Skip", "Intrabc")
			return w.Decode(p)
		}, Bound: 1 + b2i(thorough)},
		mc.Scenario{Name: "pairs of blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			f.Seg, f.Deltas, f.DeltaLF = true, true, true
			format(c, &f)
			w.Begin(f)
			w.St = mi.Stand{Pal: [2]int{3, 2}, Tx: 2, Found: 1}
			a, b := c.All(22), c.All(22)
			w.Choose = mi.Chooser(c, map[string]int{"cdef": 0}, "IsInter", "Skip")
			p := mi.Spot{R: 0, C: 0, Size: a}
			q := mi.Spot{R: 0, C: 32, Size: b}
			switch c.All(3) {
			case 1:
				q = mi.Spot{R: 32, C: 0, Size: b}
			case 2:
				q = p // the same place again, as in the next frame
				q.Size = b
			}
			return w.Decode(p, q)
		}, Bound: b2i(thorough)},
		mc.Scenario{Name: "quartets of small blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			f.Seg = c.All(2) == 1
			format(c, &f)
			w.Begin(f)
			w.St = mi.Stand{Found: 1}
			size := []int{0, 1, 2, 16, 17, 3}[c.All(6)]
			h, v := mi.High[size], mi.Wide[size]
			w.Choose = mi.Chooser(c, map[string]int{"cdef": 0}, "IsInter", "Skip")
			return w.Decode(mi.Spot{R: 8, C: 8, Size: size}, mi.Spot{R: 8, C: 8 + v, Size: size}, mi.Spot{R: 8 + h, C: 8, Size: size}, mi.Spot{R: 8 + h, C: 8 + v, Size: size})
		}, Bound: 1 + b2i(thorough)},
	)
	r.Bound("22 sizes at every parity x 4 chroma formats x frame edges x tile limits x kinds of blocks with at most %d symbols, palettes or transform sizes other than the first; 22x22 pairs of blocks, also in the same place; histories of 4 small blocks with at most %d", 1+b2i(thorough), 1+b2i(thorough))
	r.Assume("palette, motion vectors, transform sizes, prediction and coefficients are stood in for")
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
