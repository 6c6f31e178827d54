// C28: clearing CDEF indices.
package main

import (
	"github.com/m4tthewde/gov1/internal/cdef"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const size4 = 16

type cell struct{ r, c int }

func scenario(name string, depth, grid, kinds int, pre int) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) *mc.Fail {
		var d cdef.Cdef
		known := map[cell]int{} // what every index stored so far must be
		next := 1
		switch c.All(pre) {
		case 1: // rows of uneven length, as other histories leave them
			for i := 0; i < 40; i++ {
				row := make([]int, (i*7)%37)
				d.CdefIdx = append(d.CdefIdx, row)
			}
		case 2:
			for i := 0; i < 3*size4; i++ {
				d.CdefIdx = append(d.CdefIdx, make([]int, 4*size4, 200))
			}
		}
		fill := func() {
			// give every stored index a value of its own
			for i := range d.CdefIdx {
				for j := range d.CdefIdx[i] {
					v := next%9 - 1
					if next%3 == 0 {
						v = 7 + next%5
					}
					next++
					d.CdefIdx[i][j] = v
					known[cell{i, j}] = v
				}
			}
		}
		fill()
		for step := 0; step < depth; step++ {
			use128 := kinds == 1
			if kinds == 2 {
				use128 = c.All(2) == 1
			}
			unit := size4
			if use128 {
				unit = 2 * size4
			}
			row, col := c.All(grid)*unit, c.All(grid)*unit
			c.Note("clear at row %d, column %d, 128x128 superblocks %v", row, col, use128)
			c.Steps++
			if e := mc.Catch(func() { d.ClearCdef(row, col, use128, size4) }); e != nil {
				return mc.Failf("panic", "clearing at (%d,%d), 128x128 %v fails: %v", row, col, use128, e)
			}
			n := 1
			if use128 {
				n = 2
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					known[cell{row + i*size4, col + j*size4}] = -1
				}
			}
			for k, v := range known {
				if k.r >= len(d.CdefIdx) || k.c >= len(d.CdefIdx[k.r]) {
					return mc.Failf("lost", "after clearing at (%d,%d), 128x128 %v, there is no index at (%d,%d)", row, col, use128, k.r, k.c)
				}
				if g := d.CdefIdx[k.r][k.c]; g != v {
					return mc.Failf("value", "after clearing at (%d,%d), 128x128 %v, the index at (%d,%d) is %d, want %d", row, col, use128, k.r, k.c, g, v)
				}
			}
			// new cells that were not asked for must not be cleared either
			for i := range d.CdefIdx {
				for j, v := range d.CdefIdx[i] {
					if _, ok := known[cell{i, j}]; !ok && v == -1 {
						return mc.Failf("extra", "clearing at (%d,%d), 128x128 %v, also clears (%d,%d)", row, col, use128, i, j)
					}
				}
			}
			// an index stored later is independent of where it is stored
			if c.All(2) == 1 {
				fill()
			}
		}
		return nil
	}}
}

func main() {
	r := mc.Start()
	deep := 0
	if r.Thorough() {
		deep = 1
	}
	r.Explore(
		scenario("64x64 superblocks", 2+deep, 3, 0, 3),
		scenario("128x128 superblocks", 2+deep, 3, 1, 3),
		scenario("mixed, larger grid", 2, 4+deep, 2, 2),
		scenario("long histories", 3+deep, 2, 2, 1),
	)
	r.Bound("every history of up to %d clears on a 3x3 grid of superblocks (both superblock sizes, from empty, ragged and prepared grids, stored indices rewritten or not in between), mixed sizes on 2x2 to %d deep, pairs on a %dx%d grid", 2+deep, 3+deep, 4+deep, 4+deep)
	r.Finish()
}
