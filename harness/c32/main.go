// C32: a truncated header never passes for a complete one.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/snap"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// cut parses what wr holds, cut after every byte that holds a bit of it. prepare puts the state as it was.
func cut(c *mc.Ch, what string, wr *spec.Writer, offs []int, prepare func(), parse func(b *bitstream.BitStream) interface{}) *mc.Fail {
	for _, off := range offs {
		// with plenty after it
		prepare()
		b := &bitstream.BitStream{Data: spec.Shift(wr, off, 0x6b, 1, 60), Position: off}
		var u interface{}
		if e := mc.Catch(func() { u = parse(b) }); e != nil || b.Position-off != wr.Pos {
			return nil // not understood: the business of the property on this header
		}
		full := snap.Of(u)
		need := (off + wr.Pos + 7) / 8
		for n := need; n >= (off+7)/8; n-- {
			// Data past the end of the slice is there in memory, as in a larger buffer.
			all := spec.Shift(wr, off, 0x6b, 1, 60)
			b := &bitstream.BitStream{Data: all[:n], Position: off}
			if n&1 == 0 {
				b.Data = append([]byte{}, all[:n]...)[:n:n]
			}
			prepare()
			c.Steps++
			c.Inner++
			var u interface{}
			e := mc.Catch(func() { u = parse(b) })
			switch {
			case n == need && e != nil:
				return mc.Failf("complete", "%s of %d bits at bit %d, complete in %d bytes, is refused: %v", what, wr.Pos, off, n, e)
			case n == need && (b.Position-off != wr.Pos || snap.Of(u) != full):
				return mc.Failf("complete differs", "%s of %d bits at bit %d, complete in %d bytes, is not read as with more bytes after it", what, wr.Pos, off, n)
			case n < need && e == nil:
				return mc.Failf("truncated", "%s of %d bits at bit %d, cut after %d of %d bytes, is returned as if complete", what, wr.Pos, off, n, need)
			}
		}
	}
	return nil
}

func main() {
	r := mc.Start()
	seqs := hdr.Axis{
		{},
		{"enable_order_hint": 1, "order_hint_bits_minus_1": 6, "enable_warped_motion": 1, "seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 1, "enable_superres": 1, "enable_cdef": 1, "enable_restoration": 1},
		{"frame_id_numbers_present_flag": 1, "delta_frame_id_length_minus_2": 3, "additional_frame_id_length_minus_1": 2, "film_grain_params_present": 1},
		{"show_existing_frame": 1, "film_grain_params_present": 0, "frame_to_show_map_idx": 2},
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7}
	frames := func(name string, profiles []int, bound int, offs []int) mc.Scenario {
		return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
			w := hdr.W(c)
			over := gen.Merge(hdr.Small, hdr.Kinds[c.All(len(hdr.Kinds))], seqs[c.All(len(seqs))])
			k := profiles[c.All(len(profiles))]
			base := gen.With(hdr.Profile(k), over)
			sg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 0 }}
			q := spec.ReadSeq(sg)
			st := hdr.Prior(k % 3)
			prior := *st
			h, _, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &w.S)
			if e != nil {
				return nil
			}
			idc := w.S.OperatingPointIdc
			fg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 1 }, Whole: 2, Bound: bound}
			spec.ReadFrame(fg, q, 0, 0, st)
			oh := header.Header{Type: header.OBU_FRAME_HEADER, HasSizeField: true}
			var u uncompressedheader.UncompressedHeader
			return cut(c, "a frame header", &fg.W, offs,
				func() { p := prior; hdr.Apply(&p, &w.S); w.S.OperatingPointIdc = idc },
				func(b *bitstream.BitStream) interface{} {
					u = uncompressedheader.NewUncompressedHeader(oh, h, b, &w.S)
					return &u
				})
		}}
	}
	sequences := func(name string, bound int) mc.Scenario {
		return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
			k := c.All(5)
			g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k), map[string]int{"seq_profile": c.All(3)}), Cost: func(string, int) int { return 1 }, Whole: 2, Bound: bound, Values: map[string][]int{"seq_profile": {0, 1, 2}}}
			spec.ReadSeq(g)
			s := &state.State{}
			return cut(c, "a sequence header", &g.W, all, func() {}, func(b *bitstream.BitStream) interface{} {
				h := sequenceheader.NewSequenceHeader(b, s)
				return &h
			})
		}}
	}
	headers := mc.Scenario{Name: "OBU headers", Run: func(c *mc.Ch) *mc.Fail {
		x := c.All(256)
		var wr spec.Writer
		wr.Put(8, x)
		if x>>2&1 == 1 {
			wr.Put(8, c.All(256))
		}
		return cut(c, "an OBU header", &wr, all, func() {}, func(b *bitstream.BitStream) interface{} {
			h := header.NewHeader(b)
			return &h
		})
	}}
	if r.Thorough() {
		r.Explore(headers, sequences("sequence headers", 2), frames("frame headers", []int{0, 1, 2, 3, 4, 5, 6, 7}, 1, all), frames("frame headers, two departures", []int{0, 2}, 2, []int{0, 5}))
	} else {
		r.Explore(headers, sequences("sequence headers", 1), frames("frame headers", []int{0, 1, 2, 3}, 1, []int{0, 3, 7}))
	}
	r.Bound("7 kinds of frame x 4 kinds of sequence header x base assignments, with every single departure of a field; all OBU headers; cut at every byte, at several bit alignments")
	r.Assume("data ends at byte boundaries; whatever way parsing stops counts as a failure as long as no header is returned")
	r.Finish()
}
