// C08: tile layout.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/tileinfo"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// run codes one tile_info for a frame of the given size and compares.
func run(c *mc.Ch, g *gen.Gen, sb128, miCols, miRows, off, tail int) (*mc.Fail, bool) {
	w := hdr.W(c)
	t := spec.ReadTiles(g, sb128 == 1, miCols, miRows)
	if t.Cols > 64 || t.Rows > 64 {
		return nil, false // more tiles than a conforming stream may have
	}
	// what the previous frame left
	st := hdr.Prior(1 + off%2)
	st.MiCols, st.MiRows = miCols, miRows
	hdr.Apply(st, &w.S)
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: sb128 == 1}
	b := bitstream.BitStream{Data: spec.Shift(&g.W, off, 0xa5, tail, 24), Position: off}
	var got tileinfo.TileInfo
	c.Steps++
	if e := mc.Catch(func() { got = tileinfo.NewTileInfo(sh, &w.S, &b) }); e != nil {
		return mc.Failf("panic", "tile_info of a frame of %dx%d units (128x128: %d) fails at bit %d of %d: %v", miCols, miRows, sb128, b.Position-off, g.W.Pos, e), true
	}
	if d := hdr.Tiles(&t, got.ContextUpdateTileId, &w.S); len(d) > 0 {
		return mc.Failf(d[0].Name, "frame of %dx%d units (128x128: %d): %v", miCols, miRows, sb128, d[0]), true
	}
	if b.Position-off != g.W.Pos {
		return mc.Failf("bits consumed", "frame of %dx%d units (128x128: %d): %d bits consumed, want %d", miCols, miRows, sb128, b.Position-off, g.W.Pos), true
	}
	if w.S.MiCols != miCols || w.S.MiRows != miRows {
		return mc.Failf("frame size", "tile_info changed the frame size"), true
	}
	return nil, true
}

func main() {
	r := mc.Start()
	thorough := r.Thorough()
	step, small, bound := 1, 7, 2
	if thorough {
		small, bound = 9, 3
	}
	rowsOf := []int{1, 2, 3, 5, 8, 17, 36, 37, 64, 65, 127, 200, 500, 1024}
	uniform := func(name string, idx, n int) int { return b2i(name == "uniform_tile_spacing_flag") }
	// all choices of the increments
	inc := func(name string, idx int) int {
		switch name {
		case "increment_tile_cols_log2", "increment_tile_rows_log2":
			return -1
		case "context_update_tile_id", "tile_size_bytes_minus_1":
			return 1
		}
		return 0
	}
	r.Explore(
		mc.Scenario{Name: "uniform spacing, every width", Bound: 0, Run: func(c *mc.Ch) *mc.Fail {
			sb128 := c.All(2)
			max := 1024 >> uint(sb128)
			cols := 1 + c.All(max)*step
			rows := rowsOf[c.All(len(rowsOf))]
			if rows > max {
				return nil
			}
			sb := 16 << uint(sb128)
			cut := 2 * c.All(3)
			g := &gen.Gen{C: c, Base: uniform, Cost: inc, Whole: 3}
			f, _ := run(c, g, sb128, cols*sb-cut*(sb/8), rows*sb-(cut/2)*(sb/4), cols&7, rows&1)
			return f
		}},
		mc.Scenario{Name: "uniform spacing, every height", Bound: 0, Run: func(c *mc.Ch) *mc.Fail {
			sb128 := c.All(2)
			max := 1024 >> uint(sb128)
			cols := rowsOf[c.All(len(rowsOf))]
			rows := 1 + c.All(max)*step
			if cols > max {
				return nil
			}
			sb := 16 << uint(sb128)
			g := &gen.Gen{C: c, Base: uniform, Cost: inc, Whole: 3}
			f, _ := run(c, g, sb128, cols*sb-2*(rows%(sb/2)), rows*sb-2*(cols%(sb/2)), rows&7, cols&1)
			return f
		}},
		mc.Scenario{Name: "uniform spacing, update id and size field", Bound: 2, Run: func(c *mc.Ch) *mc.Fail {
			sb128 := c.All(2)
			cols, rows := []int{1, 2, 3, 7, 20, 64, 100}[c.All(7)], []int{1, 2, 3, 7, 33, 70}[c.All(6)]
			p := c.All(3)
			sb := 16 << uint(sb128)
			g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(p), map[string]int{"uniform_tile_spacing_flag": 1}), Cost: inc, Whole: 3, Bound: 2, All: func(name string) bool { return name == "context_update_tile_id" }}
			f, _ := run(c, g, sb128, cols*sb, rows*sb, p, p&1)
			return f
		}},
		mc.Scenario{Name: "explicit spacing, every partition of small frames", Bound: 1, Run: func(c *mc.Ch) *mc.Fail {
			sb128 := c.All(2)
			cols, rows := 1+c.All(small), 1+c.All(small)
			sb := 16 << uint(sb128)
			cut := c.All(2)
			g := &gen.Gen{C: c, Base: gen.Zeros, Whole: 4, Bound: 1, Cost: func(name string, idx int) int {
				switch name {
				case "uniform_tile_spacing_flag":
					return 0
				case "context_update_tile_id", "tile_size_bytes_minus_1":
					return 1
				}
				return -1
			}}
			f, _ := run(c, g, sb128, cols*sb-cut*(sb/2), rows*sb-cut*2, cols&7, rows&1)
			return f
		}},
		mc.Scenario{Name: "explicit spacing, large frames", Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
			sb128 := c.All(2)
			sizes := []int{1, 8, 13, 31, 32, 33, 63, 64, 65, 100, 130, 300, 512, 1024}
			max := 1024 >> uint(sb128)
			cols, rows := sizes[c.All(len(sizes))], sizes[c.All(len(sizes))]
			if cols > max || rows > max {
				return nil
			}
			p := 1 + c.All(4)
			sb := 16 << uint(sb128)
			g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(p), map[string]int{"uniform_tile_spacing_flag": 0}), Whole: 2, Bound: bound, Cost: func(name string, idx int) int {
				switch name {
				case "uniform_tile_spacing_flag":
					return 0
				case "width_in_sbs_minus_1", "height_in_sbs_minus_1":
					if idx > 20 {
						return 0
					}
					return 1 + idx/6
				}
				return 2
			}}
			f, ok := run(c, g, sb128, cols*sb-2*(p%3), rows*sb-4*(p%2), p, p&1)
			if f == nil && !ok {
				c.Note("more tiles than a stream may have: skipped")
			}
			return f
		}},
		hdr.Plan{Name: "inside frame headers", Axes: []hdr.Axis{{hdr.Kinds[0], hdr.Kinds[2], hdr.Kinds[6]}, hdr.Flag("use_128x128_superblock"), {
			{"frame_width_bits_minus_1": 10, "max_frame_width_minus_1": 1100, "frame_height_bits_minus_1": 9, "max_frame_height_minus_1": 500},
			{"frame_width_bits_minus_1": 14, "max_frame_width_minus_1": 4500, "frame_height_bits_minus_1": 6, "max_frame_height_minus_1": 70},
			{"frame_width_bits_minus_1": 4, "max_frame_width_minus_1": 15}}},
			Profiles: []int{1, 2}, Cost: hdr.Focus(3, "uniform_tile_spacing_flag", "increment_tile_cols_log2", "increment_tile_rows_log2", "width_in_sbs_minus_1", "height_in_sbs_minus_1",
				"width_in_sbs_minus_1.extra_bit", "height_in_sbs_minus_1.extra_bit", "context_update_tile_id", "tile_size_bytes_minus_1"), Bound: 2, Own: []string{"tile"}}.Scenario(),
	)
	r.Bound("uniform spacing: every number of superblock columns 1..1024 (512 for 128x128) x 14 row counts and the other way round, partial superblocks, every choice of increments; explicit spacing: every partition up to %dx%d superblocks, and up to %d departures in large frames; frames of up to 64x64 tiles", small, small, bound)
	r.Assume("streams with more than 64 tile columns or rows are not conforming and are left out")
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
