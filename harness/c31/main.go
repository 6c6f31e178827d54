// C31: parsing is a pure function of the bits, the active headers and the retained state.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/snap"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// worker keeps the memory of one explorer thread.
type worker struct {
	full, s, other state.State
}

// template is a state in which everything that headers do not govern has a value.
func template() *state.State {
	w := &state.State{}
	g := &gen.Gen{C: &mc.Ch{}, Base: gen.With(hdr.Profile(0), gen.Merge(hdr.Small, hdr.Kinds[0])), Cost: func(string, int) int { return 0 }}
	q := spec.ReadSeq(g)
	var sg gen.Gen = *g
	var h sequenceheader.SequenceHeader
	mc.Catch(func() {
		b := bitstream.BitStream{Data: spec.Shift(&sg.W, 0, 0, 0, 40)}
		h = sequenceheader.NewSequenceHeader(&b, w)
		fg := &gen.Gen{C: &mc.Ch{}, Base: g.Base, Cost: g.Cost}
		spec.ReadFrame(fg, q, 0, 0, &spec.State{})
		b = bitstream.BitStream{Data: spec.Shift(&fg.W, 0, 0, 0, 80)}
		uncompressedheader.NewUncompressedHeader(header.Header{Type: header.OBU_FRAME_HEADER, HasSizeField: true}, h, &b, w)
	})
	frame := *w
	*w = state.State{}
	// numbers
	k := 1
	var fill func(v reflect.Value)
	fill = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Int:
			k = (k*7 + 3) % 251
			v.SetInt(int64(k))
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				fill(v.Index(i))
			}
		}
	}
	v := reflect.ValueOf(w).Elem()
	for i := 0; i < v.NumField(); i++ {
		if kept(v.Type().Field(i).Name) && !strings.HasSuffix(v.Type().Field(i).Name, "Cdf") {
			fill(v.Field(i))
		}
	}
	// distributions of their own
	var copyOf func(d, s reflect.Value)
	copyOf = func(d, s reflect.Value) {
		switch s.Kind() {
		case reflect.Slice:
			if s.Len() == 0 {
				return
			}
			d.Set(reflect.MakeSlice(s.Type(), s.Len(), s.Len()))
			for i := 0; i < s.Len(); i++ {
				copyOf(d.Index(i), s.Index(i))
			}
		case reflect.Array:
			for i := 0; i < s.Len(); i++ {
				copyOf(d.Index(i), s.Index(i))
			}
		case reflect.Int:
			d.SetInt(s.Int() ^ int64(k&1))
		}
	}
	fv := reflect.ValueOf(&frame).Elem()
	for _, n := range hdr.CdfFields() {
		for _, p := range []string{"Tile", "Saved"} {
			if d := v.FieldByName(p + n); d.IsValid() {
				copyOf(d, fv.FieldByName(n))
			}
		}
		for _, i := range []int{0, 5} {
			if d := v.FieldByName("Memory").Index(i).FieldByName(n); d.IsValid() {
				copyOf(d, fv.FieldByName(n))
			}
		}
	}
	return w
}

// kept tells whether a field belongs to what reference slots, tiles or pixels hold: no header but a shown key
// frame's changes it.
func kept(n string) bool {
	switch n {
	case "Memory", "RefFrameWidth", "RefFrameHeight", "RefRenderWidth", "RefRenderHeight", "RefMiCols", "RefMiRows", "RefSubsamplingX", "RefSubsamplingY", "RefBitDepth", "RefUpscaledWidth", "RefFrameType",
		"CurrFrame", "CdefFrame", "UpscaledCurrFrame", "UpscaledCdefFrame", "LrFrame", "MiSizes", "RefFrames", "OperatingPointIdc", "MiRowStart", "MiRowEnd", "MiColStart", "MiColEnd", "MiRow", "MiCol", "MiSize",
		"BlockDecoded", "SymbolMaxBits", "SymbolValue", "SymbolRange", "TileNum", "Cdef", "CdefSize4":
		return true
	}
	return strings.HasPrefix(n, "Saved") || strings.HasPrefix(n, "Tile") && strings.HasSuffix(n, "Cdf")
}

var start *state.State

func w(c *mc.Ch) *worker {
	if w, ok := c.Local["c31"].(*worker); ok {
		return w
	}
	w := &worker{full: *start}
	c.Local["c31"] = w
	return w
}

// run is one parse: what came out of it.
type run struct {
	end   int
	err   string
	u     map[string]snap.Sum
	after map[string]snap.Sum
}

func (a *run) differs(b *run) (key, what string) {
	switch {
	case a.err != b.err:
		return "failure", fmt.Sprintf("fails with %q, before with %q", b.err, a.err)
	case a.end != b.end:
		return "end", fmt.Sprintf("ends at bit %d, before at bit %d", b.end, a.end)
	}
	if x := snap.Changed(a.u, b.u); x != "" {
		return x, "gives another value of " + x
	}
	if x := snap.Changed(a.after, b.after); x != "" {
		return "state." + x, "leaves another value of " + x + " in the state"
	}
	return "", ""
}

func text(e interface{}) string {
	if e == nil {
		return ""
	}
	return "a failure"
}

// check runs a parse at every alignment, among different data and after another parse.
// one gives the result's fields, prepare sets the state, other parses something else.
func check(c *mc.Ch, what string, wr *spec.Writer, s *state.State, prepare, other func(), parse func(b *bitstream.BitStream) interface{}, mayChange func(string) bool) *mc.Fail {
	var first *run
	var keep interface{}
	for i := 0; i < 9; i++ {
		off, lead, tail, extra := (8-i)%8, 0, i&1, 40
		if i&2 != 0 {
			lead = 0xd7
		}
		if i == 8 {
			off, lead, tail, extra = 0, 0, 0, 90
		}
		if i == 4 {
			other()
		}
		prepare()
		var before map[string]snap.Sum
		if i < 2 {
			before = snap.Fields(s, nil)
		}
		b := &bitstream.BitStream{Data: spec.Shift(wr, off, lead, tail, extra), Position: off}
		data := append([]byte{}, b.Data...)
		var u interface{}
		c.Steps++
		c.Inner++
		e := mc.Catch(func() { u = parse(b) })
		r := &run{end: b.Position - off, err: text(e), after: snap.Fields(s, nil)}
		if e == nil {
			r.u = snap.Fields(u, nil)
		}
		if string(data) != string(b.Data) {
			return mc.Failf("input", "parsing %s writes into its input", what)
		}
		if first == nil {
			first, keep = r, u
		} else if k, x := first.differs(r); k != "" {
			return mc.Failf(k, "parsing %s again (parse %d, at bit %d, following %02x, followed by %d bits): %s", what, i, off, lead, tail, x)
		}
		for n := range before {
			if before[n] != r.after[n] && !mayChange(n) {
				return mc.Failf("changes "+n, "parsing %s changes %s", what, n)
			}
		}
	}
	c.Note("%s of %d bits: %d read%s", what, wr.Pos, first.end, first.err)
	if first.err == "" {
		if x := snap.Changed(first.u, snap.Fields(keep, nil)); x != "" {
			return mc.Failf("kept "+x, "%s of the first header changes when others are parsed", x)
		}
	}
	if x := snap.Changed(tables, sums()); x != "" {
		return mc.Failf("table "+x, "parsing changes the shared variable %s", x)
	}
	return nil
}

func main() {
	r := mc.Start()
	start = template()
	tables = sums()
	seqs := hdr.Axis{
		{},
		{"enable_order_hint": 1, "order_hint_bits_minus_1": 6, "enable_warped_motion": 1, "seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 1, "enable_superres": 1, "enable_cdef": 1, "enable_restoration": 1},
		{"frame_id_numbers_present_flag": 1, "delta_frame_id_length_minus_2": 3, "additional_frame_id_length_minus_1": 2, "film_grain_params_present": 1, "mono_chrome": 1},
		{"show_existing_frame": 1, "film_grain_params_present": 0, "frame_to_show_map_idx": 2, "show_existing_of": 1},
	}
	frames := func(name string, profiles []int, bound, cost int) mc.Scenario {
		return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
			w := w(c)
			over := gen.Merge(hdr.Small, hdr.Kinds[c.All(len(hdr.Kinds))], seqs[c.All(len(seqs))])
			k := profiles[c.All(len(profiles))]
			base := gen.With(hdr.Profile(k), over)
			fixed := func(string, int) int { return 0 }
			sg := &gen.Gen{C: c, Base: base, Cost: fixed}
			q := spec.ReadSeq(sg)
			st := hdr.Prior(k % 3)
			for i := range st.RefFrameType {
				if st.RefFrameType[i] == 0 {
					st.RefFrameType[i] = 1
				}
			}
			prior := *st
			seqHeader := func(s *state.State) sequenceheader.SequenceHeader {
				h, _, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, s)
				if e != nil {
					panic(e)
				}
				return h
			}
			var h sequenceheader.SequenceHeader
			if e := mc.Catch(func() { h = seqHeader(&w.other) }); e != nil {
				return nil // C05's business
			}
			idc := w.other.OperatingPointIdc
			fg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return cost }, Whole: 2, Bound: bound}
			f := spec.ReadFrame(fg, q, 0, 0, st)
			// the other header
			og := &gen.Gen{C: &mc.Ch{}, Base: gen.With(hdr.Profile(k+1), gen.Merge(over, hdr.Kinds[0], map[string]int{"show_existing_frame": 0})), Cost: fixed}
			ost := prior
			spec.ReadFrame(og, q, 0, 0, &ost)
			oh := header.Header{Type: header.OBU_FRAME_HEADER, HasSizeField: true}
			return check(c, "a frame header", &fg.W, &w.s,
				func() { w.s = w.full; p := prior; hdr.Apply(&p, &w.s); w.s.OperatingPointIdc = idc; w.s.RefFrameType = prior.RefFrameType },
				func() {
					w.other = w.full
					p := prior
					hdr.Apply(&p, &w.other)
					mc.Catch(func() {
						b := &bitstream.BitStream{Data: spec.Shift(&og.W, 3, 0x55, 1, 80), Position: 3}
						uncompressedheader.NewUncompressedHeader(oh, h, b, &w.other)
					})
				},
				func(b *bitstream.BitStream) interface{} {
					u := uncompressedheader.NewUncompressedHeader(oh, h, b, &w.s)
					return &u
				},
				func(n string) bool { return !kept(n) || f == nil })
		}}
	}
	sequences := func(name string, bound int) mc.Scenario {
		return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
			w := w(c)
			k := c.All(5)
			over := map[string]int{"seq_profile": c.All(3)}
			g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k), over), Cost: func(string, int) int { return 1 }, Whole: 2, Bound: bound, Values: map[string][]int{"seq_profile": {0, 1, 2}}}
			spec.ReadSeq(g)
			og := &gen.Gen{C: &mc.Ch{}, Base: gen.With(hdr.Profile(k+1), map[string]int{"seq_profile": 0}), Cost: func(string, int) int { return 0 }}
			spec.ReadSeq(og)
			return check(c, "a sequence header", &g.W, &w.s,
				func() { w.s = w.full; hdr.Apply(hdr.Prior(1), &w.s) },
				func() { hdr.ParseSeq(c, &og.W, 5, 0xff, 1, &w.other) },
				func(b *bitstream.BitStream) interface{} {
					h := sequenceheader.NewSequenceHeader(b, &w.s)
					return &h
				},
				func(n string) bool { return n == "OperatingPointIdc" })
		}}
	}
	headers := mc.Scenario{Name: "OBU headers", Run: func(c *mc.Ch) *mc.Fail {
		w := w(c)
		var wr spec.Writer
		wr.Put(8, c.All(256))
		wr.Put(8, []int{0, 0xff, 0xa8}[c.All(3)])
		return check(c, "an OBU header", &wr, &w.s, func() {}, func() {}, func(b *bitstream.BitStream) interface{} {
			h := header.NewHeader(b)
			return &h
		}, func(string) bool { return false })
	}}
	if r.Thorough() {
		r.Explore(headers, sequences("sequence headers", 2), frames("frame headers, every value", []int{0, 1, 2, 3, 4, 5, 6, 7}, 1, 1), frames("frame headers, two departures", []int{0, 2}, 2, 1))
	} else {
		r.Explore(headers, sequences("sequence headers", 1), frames("frame headers", []int{0, 1, 2, 3}, 1, 1))
	}
	r.Bound("7 kinds of frame x 4 kinds of sequence header x base assignments, with every single departure of a field; each parsed 9 times: at all 8 bit alignments, with different bits before and after, before and after another header was parsed")
	r.Assume("bits of a byte stream: reading starts inside the first byte; variables are those of the packages shared, util, wedgemask, tilegroup and uncompressedheader")
	if tables == nil {
		r.Assume("package variables were not looked at")
	}
	r.Finish()
}
