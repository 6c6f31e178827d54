package hdr

import (
	"sort"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// Order of the parts of a frame header.
var Order = []string{"ref", "ctl", "size", "ctl2", "hint", "tile", "quant", "seg", "dq", "lf", "cdef", "lr", "tx", "ctl3", "skip", "ctl4", "gm", "grain", "end"}

func rank(part string) int {
	for i, p := range Order {
		if p == part {
			return i
		}
	}
	return len(Order)
}

// Result is what running one frame header on both sides gave.
type Result struct {
	Diffs []Diff
	Panic interface{}
	F     *spec.Frame
	U     uncompressedheader.UncompressedHeader
	// bits read by part, and the end
	Bits map[string]int
	Stop int // where the decoder stood
	Len  int
}

// Attribute tells whether the disagreement belongs to one of the parts: one of their values is wrong, or
// everything is right up to the end of the part and what follows is not.
func (r *Result) Attribute(own ...string) *mc.Fail {
	is := map[string]bool{}
	for _, p := range own {
		is[p] = true
	}
	// the part that consumed bits before part k
	before := func(k int) string {
		for k--; k >= 0; k-- {
			if r.Bits[Order[k]] > 0 {
				return Order[k]
			}
		}
		return ""
	}
	if r.Panic != nil {
		at, pos := "end", 0
		for _, p := range Order {
			pos += r.Bits[p]
			if r.Bits[p] > 0 && r.Stop < pos {
				at = p
				break
			}
		}
		if is["end"] || is[at] || is[before(rank(at))] {
			return mc.Failf("panic in "+at, "the decoder fails at bit %d of %d, in %s: %v", r.Stop, r.Len, at, r.Panic)
		}
		return nil
	}
	d := append([]Diff{}, r.Diffs...)
	if r.Stop != r.Len {
		d = append(d, Diff{"end", "bits consumed", r.Len, r.Stop})
	}
	if len(d) == 0 {
		return nil
	}
	for _, x := range d {
		if is[x.Part] {
			return mc.Failf(x.Name, "%v", x)
		}
	}
	sort.SliceStable(d, func(i, j int) bool { return rank(d[i].Part) < rank(d[j].Part) })
	first := d[0]
	if b := before(rank(first.Part)); first.Part != "ref" && is[b] {
		return mc.Failf("after "+b+": "+first.Name, "%s was right but what follows is not: %v", b, first)
	}
	return nil
}

// Worker is what one explorer thread keeps.
type Worker struct{ S state.State }

func W(c *mc.Ch) *Worker {
	if w, ok := c.Local["hdr"].(*Worker); ok {
		return w
	}
	w := &Worker{}
	c.Local["hdr"] = w
	return w
}

// ParseSeq runs the decoder on a sequence header given by its bits.
func ParseSeq(c *mc.Ch, w *spec.Writer, off, lead, tail int, s *state.State) (h sequenceheader.SequenceHeader, end int, p interface{}) {
	b := bitstream.BitStream{Data: spec.Shift(w, off, lead, tail, 40), Position: off}
	c.Steps++
	p = mc.Catch(func() { h = sequenceheader.NewSequenceHeader(&b, s) })
	return h, b.Position - off, p
}

// ParseFrame runs the decoder on a frame header given by its bits, from the state s is in, and compares.
// st is the state of the model after the header.
func ParseFrame(c *mc.Ch, q *spec.Seq, h *sequenceheader.SequenceHeader, f *spec.Frame, w *spec.Writer, off, lead, tail int, temporalId, spatialId int, st *spec.State, s *state.State) *Result {
	r := &Result{F: f, Bits: map[string]int{}, Len: w.Pos}
	pos := 0
	for _, m := range f.Ends {
		r.Bits[m.Part] += m.Pos - pos
		pos = m.Pos
	}
	b := bitstream.BitStream{Data: spec.Shift(w, off, lead, tail, 80), Position: off}
	oh := header.Header{Type: header.OBU_FRAME_HEADER, HasSizeField: true}
	if temporalId != 0 || spatialId != 0 {
		oh.ExtensionFlag = true
		oh.ExtensionHeader.TemporalID, oh.ExtensionHeader.SpatialID = temporalId, spatialId
	}
	c.Steps++
	r.Panic = mc.Catch(func() { r.U = uncompressedheader.NewUncompressedHeader(oh, *h, &b, s) })
	r.Stop = b.Position - off
	if r.Panic == nil {
		if e := mc.Catch(func() { r.Diffs = Frame(q, f, &r.U, st, s) }); e != nil {
			r.Panic = e
		}
	}
	return r
}

// Prior returns one of the states that decoding may have left before a header.
func Prior(k int) *spec.State {
	st := &spec.State{}
	if k == 0 {
		return st
	}
	x := uint32(2463534242 + 77777*uint32(k))
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x>>3) % n
	}
	for i := 0; i < 8; i++ {
		st.RefValid[i] = 1
		st.RefFrameId[i] = rnd(64)
		st.RefOrderHint[i] = rnd(8)
		st.RefFrameType[i] = rnd(4)
		for j := 0; j < 8; j++ {
			st.FeatureEnabled[i][j] = rnd(2)
			st.FeatureData[i][j] = rnd(60) - 20
		}
		st.GmType[i] = rnd(4)
		for j := 0; j < 6; j++ {
			st.PrevGmParams[i][j] = rnd(1<<17) - 1<<16
		}
	}
	st.CurrentFrameId = rnd(64)
	st.MiCols, st.MiRows = 2*rnd(40), 2*rnd(40)
	st.Tile = spec.Tiles{Cols: 2, Rows: 1, ColsLog2: 1, ColStarts: []int{0, 16, 24}, RowStarts: []int{0, 8}, SizeBytes: 3}
	st.LoopRestorationSize = [3]int{256, 128, 128}
	st.CurrentQIndex = 1 + rnd(255)
	return st
}

// Axis is a set of alternatives that are all explored: overrides of field defaults.
type Axis []map[string]int

// Flag is the axis of a field over its values.
func Flag(name string, vals ...int) Axis {
	if len(vals) == 0 {
		vals = []int{0, 1}
	}
	var a Axis
	for _, v := range vals {
		a = append(a, map[string]int{name: v})
	}
	return a
}

// Plan describes a family of single frame headers: everything on the axes, and up to Bound departures from
// the default values of the other fields.
type Plan struct {
	Name     string
	Axes     []Axis
	Over     map[string]int
	Profiles []int
	Priors   []int
	Cost     func(name string, idx int) int
	Values   map[string][]int
	All      func(name string) bool
	Whole    int
	Bound    int
	Own      []string
	Layers   [][2]int // temporal and spatial id of the frame header OBU
	// Adjust changes the prior state.
	Adjust func(c *mc.Ch, st *spec.State)
	// Check looks further at a result that agrees.
	Check func(c *mc.Ch, q *spec.Seq, r *Result, st *spec.State, s *state.State) *mc.Fail
}

// Base profiles of field values.
func Profile(k int) func(string, int, int) int {
	switch k {
	case 0:
		return gen.Zeros
	case 1:
		return gen.Ones
	}
	return gen.Hash(uint64(k))
}

// Small keeps the frame small and the header within what the decoder supports.
var Small = map[string]int{"frame_width_bits_minus_1": 8, "frame_height_bits_minus_1": 7, "max_frame_width_minus_1": 199, "max_frame_height_minus_1": 119,
	"reduced_still_picture_header": 0, "seq_profile": 0, "timing_info_present_flag": 0, "operating_points_cnt_minus_1": 0,
	"frame_id_numbers_present_flag": 0, "show_existing_frame": 0}

// Scenario turns the plan into executions.
func (p Plan) Scenario() mc.Scenario {
	whole := p.Whole
	if whole == 0 {
		whole = 3
	}
	profiles := p.Profiles
	if profiles == nil {
		profiles = []int{0, 1, 2, 3}
	}
	return mc.Scenario{Name: p.Name, Bound: p.Bound, Run: func(c *mc.Ch) *mc.Fail {
		w := W(c)
		over := gen.Merge(Small, p.Over)
		for _, a := range p.Axes {
			over = gen.Merge(over, a[c.All(len(a))])
		}
		k := profiles[c.All(len(profiles))]
		prior := k % 3
		if p.Priors != nil {
			prior = p.Priors[c.All(len(p.Priors))]
		}
		base := gen.With(Profile(k), over)
		off, lead, tail := (k*3)%8, 0xa5*(k&1), k&1
		sg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 0 }}
		q := spec.ReadSeq(sg)
		h, end, e := ParseSeq(c, &sg.W, off, lead, tail, &w.S)
		if e != nil || end != sg.W.Pos || len(Seq(q, &h, &w.S)) > 0 {
			return nil // the sequence header is not understood: not this property's business
		}
		st := Prior(prior)
		if p.Adjust != nil {
			p.Adjust(c, st)
		}
		Apply(st, &w.S)
		fg := &gen.Gen{C: c, Base: base, Cost: p.Cost, Whole: whole, All: p.All, Values: p.Values, Bound: p.Bound}
		if fg.Cost == nil {
			fg.Cost = func(string, int) int { return 0 }
		}
		var layer [2]int
		if len(p.Layers) > 0 {
			layer = p.Layers[c.All(len(p.Layers))]
		}
		f := spec.ReadFrame(fg, q, layer[0], layer[1], st)
		r := ParseFrame(c, q, &h, f, &fg.W, off, lead, tail, layer[0], layer[1], st, &w.S)
		if fl := r.Attribute(p.Own...); fl != nil {
			return fl
		}
		if p.Check != nil && r.Panic == nil && len(r.Diffs) == 0 && r.Stop == r.Len {
			return p.Check(c, q, r, st, &w.S)
		}
		return nil
	}}
}

// Kinds is the axis of frame kinds.
var Kinds = Axis{
	{"frame_type": 0, "show_frame": 1},
	{"frame_type": 0, "show_frame": 0, "showable_frame": 1, "error_resilient_mode": 0},
	{"frame_type": 1, "show_frame": 1, "error_resilient_mode": 1},
	{"frame_type": 1, "show_frame": 0, "showable_frame": 0, "error_resilient_mode": 0},
	{"frame_type": 2, "show_frame": 1, "error_resilient_mode": 1, "refresh_frame_flags": 0x25},
	{"frame_type": 3, "show_frame": 1},
	{"reduced_still_picture_header": 1},
}

// Intra and inter kinds.
var (
	InterKinds = Axis{Kinds[2], Kinds[3], Kinds[5]}
	IntraKinds = Axis{Kinds[0], Kinds[1], Kinds[4], Kinds[6]}
)

// Focus gives the fields named a cost of one, every other field a cost of other.
func Focus(other int, names ...string) func(string, int) int {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(name string, idx int) int {
		if m[name] {
			return 1
		}
		return other
	}
}

// SeqResult is what running one sequence header on both sides gave.
func AttributeSeq(q *spec.Seq, h *sequenceheader.SequenceHeader, s *state.State, end, want int, p interface{}, own ...string) *mc.Fail {
	is := map[string]bool{}
	for _, o := range own {
		is[o] = true
	}
	parts := []string{"general", "op", "general", "color", "general"}
	ends := []int{q.Marks["start"], q.Marks["op"], q.Marks["general"], q.Marks["color"], q.Marks["end"]}
	if p != nil {
		for i, e := range ends {
			if end < e || i == len(ends)-1 {
				if is[parts[i]] || i > 0 && is[parts[i-1]] {
					return mc.Failf("panic in "+parts[i], "the decoder fails at bit %d of %d, in %s: %v", end, want, parts[i], p)
				}
				return nil
			}
		}
	}
	d := Seq(q, h, s)
	if len(d) == 0 {
		if end != want && (is["general"] || is["color"]) {
			return mc.Failf("bits consumed", "the sequence header has %d bits, the decoder consumes %d", want, end)
		}
		return nil
	}
	for _, x := range d {
		if is[x.Part] {
			return mc.Failf(x.Name, "%v", x)
		}
	}
	return nil
}
