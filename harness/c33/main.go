// C33: tile groups hand each tile exactly its own bytes and area.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
	"github.com/m4tthewde/gov1/internal/zzverif/tg"
	"go.uber.org/zap"
)

// visit is what a tile sees when its decoding starts.
type visit struct {
	num, r0, r1, c0, c1, q   int
	value, rng, maxBits, pos int
}

func (v visit) String() string {
	return fmt.Sprintf("tile %d, rows %d to %d, columns %d to %d, quantizer %d, SymbolValue %d, SymbolRange %d, SymbolMaxBits %d, at bit %d", v.num, v.r0, v.r1, v.c0, v.c1, v.q, v.value, v.rng, v.maxBits, v.pos)
}

// layout of the tiles of a frame.
type layout struct {
	cols, rows, colsLog2, rowsLog2 int
	colStarts, rowStarts           []int
	sizeBytes, q                   int
}

func log2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// group is a tile group: tiles from first to last, and whether it says so.
type group struct {
	first, last int
	coded       bool
	sizes       []int
	use         []int // literal bits read in each tile
}

// pattern is byte i of the data of tile t.
func pattern(t, i int) byte { return byte((t*89+i*37+19)*(i+t+3) ^ i>>3) }

// write gives the bits of the tile group, from bit at on, and what each tile must see; base is the byte at which at/8 is.
func (g group) write(l layout, base int) (data []byte, want []visit) {
	var w spec.Writer
	if n := l.cols * l.rows; n > 1 {
		w.Put(1, map[bool]int{true: 1, false: 0}[g.coded])
		if g.coded {
			w.Put(l.colsLog2+l.rowsLog2, g.first)
			w.Put(l.colsLog2+l.rowsLog2, g.last)
		}
		for w.Pos%8 != 0 {
			w.Put(1, 0)
		}
	}
	data = w.B
	for t := g.first; t <= g.last; t++ {
		n := g.sizes[t-g.first]
		if t != g.last {
			for i := 0; i < l.sizeBytes; i++ {
				data = append(data, byte((n-1)>>uint(8*i)))
			}
		}
		start := len(data)
		for i := 0; i < n; i++ {
			data = append(data, pattern(t, i))
		}
		v := visit{num: t, r0: l.rowStarts[t/l.cols], r1: l.rowStarts[t/l.cols+1], c0: l.colStarts[t%l.cols], c1: l.colStarts[t%l.cols+1], q: l.q, rng: 1 << 15, maxBits: 8*n - 15}
		k := 15
		if n == 1 {
			k = 8
		}
		v.value = 1<<15 - 1 ^ spec.Bits(data, 8*start, k)<<uint(15-k)
		v.pos = 8*(base+start) + k
		want = append(want, v)
	}
	return
}

type thread struct {
	s    state.State
	got  []visit
	ends []bool // SeenFrameHeader at the end of the frame, one for each end
	use  func(num int) int
	bad  string
}

func get(c *mc.Ch) *thread {
	if t, ok := c.Local["c33"].(*thread); ok {
		return t
	}
	t := &thread{}
	tg.Watch(&t.s, &tg.Stand{
		Tile: func(e tg.Env) {
			s := e.S
			if e.B == nil || e.UH == nil {
				t.bad = "seam"
				return
			}
			t.got = append(t.got, visit{s.TileNum, s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd, s.CurrentQIndex, s.SymbolValue, s.SymbolRange, s.SymbolMaxBits, e.B.Position})
			if len(t.got) > 200 {
				panic("the tile group does not end")
			}
			// what blocks do with it
			s.CurrentQIndex = 1 + (s.CurrentQIndex*7+s.TileNum)%255
			for i := t.use(s.TileNum); i > 0 && s.SymbolMaxBits >= -12; i-- {
				literal.L(1, s, e.B, *e.UH)
			}
		},
		End: func(e tg.Env) { t.ends = append(t.ends, e.S.SeenFrameHeader) },
	})
	c.Local["c33"] = t
	return t
}

func compare(want, got []visit) *mc.Fail {
	for i := range want {
		if i >= len(got) {
			return mc.Failf("missing tile", "%v is not decoded", want[i])
		}
		w, g := want[i], got[i]
		if w == g {
			continue
		}
		key := "bytes"
		switch {
		case w.num != g.num:
			key = "tile number"
		case w.r0 != g.r0 || w.r1 != g.r1 || w.c0 != g.c0 || w.c1 != g.c1:
			key = "area"
		case w.q != g.q:
			key = "quantizer"
		}
		return mc.Failf(key, "the decoding of a tile starts with %v, want %v", g, w)
	}
	if len(got) > len(want) {
		return mc.Failf("extra tile", "%v is decoded, which the tile group does not have", got[len(want)])
	}
	return nil
}

var sizes = []int{1, 2, 3, 4, 17, 128, 255, 256, 257, 300}

// choose picks the division of the frame into tile groups and the tiles' sizes.
func choose(c *mc.Ch, l layout, cost int) (gs []group) {
	n := l.cols * l.rows
	first := 0
	for t := 0; t < n; t++ {
		if t < n-1 && (c == nil || c.All(2) == 0) {
			continue
		}
		g := group{first: first, last: t, coded: true}
		if first == 0 && t == n-1 {
			g.coded = c != nil && c.All(2) == 1
		}
		if n == 1 {
			g.coded = false
		}
		for i := first; i <= t; i++ {
			k := (i*3 + l.q) % 5
			use := 0
			if c != nil {
				k = (k + c.Pick(len(sizes), cost)) % len(sizes)
				use = c.Pick(4, cost)
			}
			sz := sizes[k]
			if l.sizeBytes == 1 && i != t && sz > 256 {
				sz = 256
			}
			g.sizes = append(g.sizes, sz)
			// nothing, all of it and what may be read past it, half, a bit
			g.use = append(g.use, []int{0, 8 * sz, 4*sz - 8, 1}[(i+l.q+use)%4])
		}
		gs = append(gs, g)
		first = t + 1
	}
	return
}

func direct(name string, shapes [][2]int, bound int) mc.Scenario {
	return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
		th := get(c)
		sh := shapes[c.All(len(shapes))]
		l := layout{cols: sh[0], rows: sh[1], colsLog2: log2(sh[0]), rowsLog2: log2(sh[1]), sizeBytes: 1 + (sh[0]+2*sh[1])%4}
		if sh[0]*sh[1] < 4 {
			l.sizeBytes = 1 + c.All(4)
		}
		k := c.All(2)
		l.q = []int{1, 200}[k]
		for i := 0; i <= l.cols; i++ {
			l.colStarts = append(l.colStarts, i*16+i*i/4*16)
		}
		for i := 0; i <= l.rows; i++ {
			l.rowStarts = append(l.rowStarts, i*16+i*i/6*16*k)
		}
		l.colStarts[l.cols] -= 3
		l.rowStarts[l.rows] -= 5
		s := &th.s
		s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2, s.TileSizeBytes = l.cols, l.rows, l.colsLog2, l.rowsLog2, l.sizeBytes
		s.MiColStarts, s.MiRowStarts = append([]int{}, l.colStarts...), append([]int{}, l.rowStarts...)
		s.MiCols, s.MiRows = l.colStarts[l.cols], l.rowStarts[l.rows]
		s.SeenFrameHeader = true
		gs := choose(c, l, 1)
		uh := uncompressedheader.UncompressedHeader{BaseQIdx: l.q}
		uh.TileInfo.ContextUpdateTileId = (l.cols*l.rows - 1) * k
		var use []int
		for _, g := range gs {
			use = append(use, g.use...)
		}
		th.use = func(num int) int {
			if num < 0 || num >= len(use) {
				return 0
			}
			return use[num]
		}
		lead := 3 * k
		for i, g := range gs {
			data, want := g.write(l, lead)
			all := make([]byte, lead, lead+len(data)+40)
			all = append(all, data...)
			tail := byte(255 * k)
			for j := 0; j < 40; j++ {
				all = append(all, tail)
			}
			b := &bitstream.BitStream{Data: all, Position: 8 * lead}
			th.got, th.ends, th.bad = th.got[:0], th.ends[:0], ""
			s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd, s.CurrentQIndex = -1, -1, -1, -1, -1
			c.Steps++
			c.Note("%dx%d tiles, tiles %d to %d (coded %v), sizes %v, %d size bytes, %v bits used", l.cols, l.rows, g.first, g.last, g.coded, g.sizes, l.sizeBytes, g.use)
			e := mc.Catch(func() { tilegroup.NewTileGroup(len(data), b, s, uh, sequenceheader.SequenceHeader{}) })
			if th.bad != "" {
				return nil
			}
			if f := compare(want, th.got); f != nil {
				return f
			}
			if e != nil {
				return mc.Failf("panic", "a tile group of tiles %d to %d of %dx%d fails: %v", g.first, g.last, l.cols, l.rows, e)
			}
			if b.Position != 8*(lead+len(data)) {
				return mc.Failf("end", "after a tile group of %d bytes the reader is %d bits on", len(data), b.Position-8*lead)
			}
			if f := frameEnd(th, i == len(gs)-1, s.SeenFrameHeader); f != nil {
				return f
			}
		}
		return nil
	}}
}

func frameEnd(th *thread, last, seen bool) *mc.Fail {
	if last && len(th.ends) != 1 {
		return mc.Failf("frame end", "the last tile of the frame is decoded, and the frame ends %d times", len(th.ends))
	}
	if !last && len(th.ends) != 0 {
		return mc.Failf("early end", "the frame ends before its last tile is decoded")
	}
	if seen == last {
		return mc.Failf("SeenFrameHeader", "SeenFrameHeader = %v after a tile group, the last of the frame: %v", seen, last)
	}
	return nil
}

// stream runs frames through whole OBUs: frame headers with tile groups, or frame OBUs.
func stream(name string, bound int) mc.Scenario {
	dims := [][2]int{{64, 64}, {256, 64}, {200, 120}, {64, 200}, {250, 130}}
	return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
		th := get(c)
		s := &th.s
		*s = state.State{}
		d := dims[c.All(len(dims))]
		k := c.All(3)
		over := gen.Merge(hdr.Small, map[string]int{"frame_width_bits_minus_1": 8, "frame_height_bits_minus_1": 8, "max_frame_width_minus_1": d[0] - 1, "max_frame_height_minus_1": d[1] - 1, "film_grain_params_present": 0, "enable_superres": 0,
			"use_128x128_superblock": 0, "operating_point_idc": 0, "frame_size_override_flag": 0, "still_picture": 0, "reduced_still_picture_header": 0, "context_update_tile_id": 0})
		sg := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k), over), Cost: func(string, int) int { return 0 }}
		q := spec.ReadSeq(sg)
		sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, s)
		if e != nil || end != sg.W.Pos || len(hdr.Seq(q, &sh, s)) > 0 {
			return nil
		}
		st := &spec.State{}
		var uh uncompressedheader.UncompressedHeader
		for n := 0; n < 2; n++ {
			kind := gen.Merge(over, hdr.Kinds[0], map[string]int{"base_q_idx": 40 + 100*n, "uniform_tile_spacing_flag": (k + 1) % 2, "tile_size_bytes_minus_1": k})
			if n == 0 {
				kind["uniform_tile_spacing_flag"], kind["tile_size_bytes_minus_1"] = c.All(2), c.All(4)
			} else {
				kind = gen.Merge(kind, hdr.Kinds[2], map[string]int{"frame_size_override_flag": 0, "refresh_frame_flags": 3})
			}
			fg := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k), kind), Cost: func(name string, _ int) int {
				if name == "increment_tile_cols_log2" || name == "increment_tile_rows_log2" {
					return 1
				}
				return 0
			}, Bound: bound}
			f := spec.ReadFrame(fg, q, 0, 0, st)
			st.Update(f)
			T := &st.Tile
			l := layout{cols: T.Cols, rows: T.Rows, colsLog2: T.ColsLog2, rowsLog2: T.RowsLog2, colStarts: T.ColStarts, rowStarts: T.RowStarts, sizeBytes: T.SizeBytes, q: f.BaseQ}
			if l.sizeBytes == 0 {
				l.sizeBytes = 1
			}
			if l.cols*l.rows > 8 {
				return nil
			}
			// the second frame comes in one tile group
			pick := c
			if n == 1 {
				pick = nil
			}
			gs := choose(pick, l, bound+1)
			if len(gs) > 3 {
				return nil
			}
			var use []int
			for _, g := range gs {
				use = append(use, g.use...)
			}
			th.use = func(num int) int {
				if num < 0 || num >= len(use) {
					return 0
				}
				return use[num]
			}
			whole := c.All(2) == 1
			for i := -1; i < len(gs); i++ {
				var typ, first int
				var payload []byte
				var want []visit
				if i == -1 || whole && i == 0 {
					var w spec.Writer
					for j := 0; j < fg.W.Pos; j++ {
						w.Bit(spec.BitAt(fg.W.B, j))
					}
					if !whole {
						w.Bit(1)
					}
					for w.Pos%8 != 0 {
						w.Bit(0)
					}
					payload = w.B
					typ = header.OBU_FRAME_HEADER
					if whole {
						if i == -1 {
							continue
						}
						typ = header.OBU_FRAME
					}
				}
				leb := func(n int) []byte { return spec.Leb128(n, 2) }
				if i >= 0 {
					if typ == 0 {
						typ = header.OBU_TILE_GROUP
					}
					first = len(payload)
					var data []byte
					data, want = gs[i].write(l, 3+first)
					payload = append(payload, data...)
				}
				all := append([]byte{byte(typ<<3 | 2)}, leb(len(payload))...)
				all = append(all, payload...)
				length := len(all)
				for j := 0; j < 30; j++ {
					all = append(all, byte(255*k))
				}
				b := &bitstream.BitStream{Data: all}
				th.got, th.ends, th.bad = th.got[:0], th.ends[:0], ""
				if s.SeenFrameHeader != (typ == header.OBU_TILE_GROUP) {
					return mc.Failf("SeenFrameHeader", "SeenFrameHeader = %v before an OBU of type %d", s.SeenFrameHeader, typ)
				}
				c.Steps++
				c.Note("frame %d, OBU type %d, %d bytes, %dx%d tiles, groups %v", n, typ, len(payload), l.cols, l.rows, gs)
				var o obu.Obu
				e := mc.Catch(func() { o = obu.NewObu(length, s, b, sh, uh) })
				if th.bad != "" {
					return nil
				}
				if e == nil && typ != header.OBU_TILE_GROUP {
					if diff := hdr.Frame(q, f, &o.UncompressedHeader, st, s); len(diff) > 0 && i == -1 {
						return nil // another property's
					}
					uh = o.UncompressedHeader
				}
				if f := compare(want, th.got); f != nil {
					if e != nil {
						f.Desc += fmt.Sprintf(" (then: %v)", e)
					}
					return f
				}
				if e != nil {
					if typ == header.OBU_FRAME_HEADER {
						return nil
					}
					return mc.Failf("panic", "an OBU of type %d fails: %v", typ, e)
				}
				if b.Position != 8*length {
					return mc.Failf("end", "after an OBU of type %d of %d bytes the reader is at bit %d", typ, length, b.Position)
				}
				if i >= 0 {
					if f := frameEnd(th, i == len(gs)-1, s.SeenFrameHeader); f != nil {
						return f
					}
				}
			}
		}
		return nil
	}}
}

func main() {
	r := mc.Start()
	logger.Logger = zap.NewNop()
	r.Assume("the decoding of a tile's blocks, and the filters and output at the end of a frame, are replaced with stand-ins that note what they see and read bits from the tile")
	if !tg.Real() {
		r.Assume("the functions to replace were not found: nothing was explored")
		r.Finish()
	}
	if r.Thorough() {
		r.Explore(
			stream("frames of OBUs", 3),
			direct("tile groups of other tiles", [][2]int{{4, 2}, {2, 4}, {3, 3}}, 1),
			direct("tile groups", [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}}, 3),
			direct("tile groups of many tiles", [][2]int{{2, 2}, {4, 1}, {1, 4}, {3, 2}, {2, 3}, {5, 1}}, 2),
		)
		r.Bound("5 layouts of up to 3 tiles with three departures of a tile's size or use, 6 layouts of 4 to 6 tiles with two, 3 of 8 and 9 tiles with one; 1 to 4 size bytes (one of them for 4 tiles and more); every division into tile groups; two frames of whole OBUs, the first divided into up to 3 tile groups in every way")
	} else {
		r.Explore(
			stream("frames of OBUs", 2),
			direct("tile groups", [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}, {4, 1}, {1, 3}}, 2),
			direct("tile groups of many tiles", [][2]int{{4, 2}, {3, 2}, {2, 3}, {5, 1}}, 1),
		)
		r.Bound("7 layouts of up to 4 tiles with two departures of a tile's size or use, 4 layouts of up to 8 tiles with one; 1 to 4 size bytes (one of them for 4 tiles and more); every division into tile groups; two frames of whole OBUs, the first divided into up to 3 tile groups in every way")
	}
	r.Finish()
}
