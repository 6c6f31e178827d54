// C24: framing of temporal and frame units, and what is carried from one to the next.
package main

import (
	"sync"

	bits "github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
	"go.uber.org/zap"
)

// event is an OBU of the stream.
type event struct {
	name    string
	typ     int
	profile int // values of the header
	kind    hdr.Axis
	layer   [2]int // extension, if not negative
}

var plain = [2]int{-1, -1}

var events = map[string]event{
	"S": {"sequence header a", header.OBU_SEQUENCE_HEADER, 0, nil, plain},
	"s": {"sequence header b", header.OBU_SEQUENCE_HEADER, 2, nil, plain},
	"L": {"layered sequence header", header.OBU_SEQUENCE_HEADER, 1, nil, plain},
	"D": {"temporal delimiter", header.OBU_TEMPORAL_DELIMITER, 0, nil, plain},
	"K": {"key frame header", header.OBU_FRAME_HEADER, 3, hdr.Axis{hdr.Kinds[0]}, plain},
	"I": {"intra-only frame header", header.OBU_FRAME_HEADER, 2, hdr.Axis{hdr.Kinds[4]}, plain},
	"P": {"inter frame header", header.OBU_FRAME_HEADER, 1, hdr.Axis{hdr.Kinds[2]}, plain},
	"k": {"key frame header in layer (1,0)", header.OBU_FRAME_HEADER, 2, hdr.Axis{hdr.Kinds[0]}, [2]int{1, 0}},
	"x": {"frame header in layer (5,3)", header.OBU_FRAME_HEADER, 2, hdr.Axis{hdr.Kinds[0]}, [2]int{5, 3}},
	"y": {"tile group in layer (5,3)", header.OBU_TILE_GROUP, 2, nil, [2]int{5, 3}},
	".": {"padding", header.OBU_PADDING, 0, nil, plain},
}

// Streams: with L, layer (1,0) is decoded and layer (5,3) is not.
var streams = []string{"DS", "DSK", "SDK.", "DSKD", "DSKDP", "DSsK", "DSKsDI", "DLkDxk", "DLkxD.", "DLkDxyP", "D.S.K", "DSKDSP", "LDkDsK", "DLkSDx"}
var longer = []string{"DSKDPDI", "DLkxyDkx", "DSKDsKDP", ".D.S.K.", "DSKSDIsDK", "DLKxDxIyDk"}

var small = gen.Merge(hdr.Small, map[string]int{"max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7, "film_grain_params_present": 0})

// model is what decoding the stream must give.
type model struct {
	q   *spec.Seq
	f   *spec.Frame
	fq  *spec.Seq // sequence header the frame header was read with
	st  *spec.State
	idc int
	obu []seen
}

type seen struct {
	typ, size int
	dropped   bool
	q         *spec.Seq
	f         *spec.Frame
}

// encode writes one OBU and steps the model.
func (m *model) encode(c *mc.Ch, e event, sizeField, leb int) []byte {
	var w spec.Writer
	ext := e.layer[0] >= 0
	w.Put(1, 0)
	w.Put(4, e.typ)
	w.Put(1, map[bool]int{false: 0, true: 1}[ext])
	w.Put(1, sizeField)
	w.Put(1, 0)
	var t, s int
	if ext {
		t, s = e.layer[0], e.layer[1]
		w.Put(3, t)
		w.Put(2, s)
		w.Put(3, 0)
	}
	over := small
	drop := ext && m.idc != 0 && ((m.idc>>uint(t))&1 == 0 || (m.idc>>uint(s+8))&1 == 0)
	rec := seen{typ: e.typ, dropped: drop}
	var p *spec.Writer
	g := &gen.Gen{C: c, Cost: func(string, int) int { return 0 }}
	switch {
	case e.typ == header.OBU_SEQUENCE_HEADER:
		o := map[string]int{"operating_point_idc": 0, "max_frame_width_minus_1": 7 - e.profile, "order_hint_bits_minus_1": 2 + e.profile}
		if e.name[0] == 'l' {
			o["operating_point_idc"] = 0x103
		}
		g.Base = gen.With(hdr.Profile(e.profile), gen.Merge(over, o))
		m.q = spec.ReadSeq(g)
		rec.q = m.q
		m.idc = m.q.Idc[0]
		p = &g.W
	case e.typ == header.OBU_FRAME_HEADER && !drop:
		g.Base = gen.With(hdr.Profile(e.profile), gen.Merge(over, e.kind[0]))
		m.f = spec.ReadFrame(g, m.q, t, s, m.st)
		m.fq = m.q
		rec.f = m.f
		p = &g.W
	case e.typ == header.OBU_PADDING || drop:
		p = &spec.Writer{}
		for i := 0; i < 3; i++ {
			p.Put(8, 0x92^len(e.name)<<uint(i))
		}
	}
	var body spec.Writer
	if p != nil {
		for i := 0; i < p.Pos; i++ {
			body.Bit(spec.BitAt(p.B, i))
		}
		body.Bit(1)
		for body.Pos%8 != 0 {
			body.Bit(0)
		}
	}
	rec.size = len(body.B)
	m.obu = append(m.obu, rec)
	o := w.B
	if sizeField == 1 {
		o = append(o, spec.Leb128(len(body.B), leb)...)
	}
	return append(o, body.B...)
}

type worker struct{ p *parser.Parser }

func scenario(name string, streams []string, bound int, free bool) mc.Scenario {
	return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
		stream := streams[c.All(len(streams))]
		m := &model{st: &spec.State{}}
		// the stream, cut into frame units and temporal units
		var all, tu, fu []byte
		lens := c.All(2) // bytes of the length fields: shortest, or one more than needed
		endFrame := func() {
			tu = append(append(tu, spec.Leb128(len(fu), 1+lens)...), fu...)
			fu = nil
		}
		endUnit := func() {
			all = append(append(all, spec.Leb128(len(tu), 1+lens)...), tu...)
			tu = nil
		}
		trace := ""
		for i := 0; i < len(stream); i++ {
			e := events[stream[i:i+1]]
			if i > 0 {
				cost := 1
				if free {
					cost = 0
				}
				// the same frame unit, a new one, a new temporal unit; rarely with empty units between
				cut := c.Pick(3, cost)
				if cut > 0 {
					endFrame()
				}
				if cut == 2 {
					endUnit()
				}
				if x := c.Pick(3, 1); x > 0 {
					if cut == 0 {
						endFrame()
					}
					endFrame() // an empty frame unit
					if x == 2 {
						endUnit()
						endUnit() // an empty temporal unit
					}
					cut = 3 + x
				}
				trace += []string{" ", " | ", " || ", "", " |0| ", " |0|| ||0|| "}[cut]
			}
			size := c.Pick(2, 1)
			leb := 1
			if size == 0 {
				// no size field
			} else {
				leb += i % 3
			}
			trace += e.name
			o := m.encode(c, e, size, leb)
			fu = append(append(fu, spec.Leb128(len(o), 1+(lens+i)%2)...), o...)
		}
		endFrame()
		endUnit()
		c.Note("%s (size of length fields + %d)", trace, lens)
		// a decoder as new, except that it is not allocated again
		w, ok := c.Local["w"].(*worker)
		if !ok {
			w = &worker{p: &parser.Parser{}}
			c.Local["w"] = w
		}
		in := append([]byte{}, all...)
		b := &bits.BitStream{Data: in}
		mu.Lock()
		*w.p = parser.NewParser(b)
		logger.Logger = nop
		mu.Unlock()
		p := w.p
		var got []obu.Obu
		c.Steps += int64(len(stream))
		if e := mc.Catch(func() { got = bitstream(p) }); e != nil {
			return mc.Failf("panic", "%s: fails at byte %d of %d: %v", trace, b.Position/8, len(all), e)
		}
		if b.Position != 8*len(all) {
			return mc.Failf("end", "%s: parsing ends at bit %d of %d", trace, b.Position, 8*len(all))
		}
		if len(got) != len(m.obu) {
			return mc.Failf("count", "%s: %d OBUs, want %d", trace, len(got), len(m.obu))
		}
		for i := range got {
			g, want := &got[i], m.obu[i]
			if g.Header.Type != want.typ || g.Size != want.size {
				return mc.Failf("order", "%s: OBU %d has type %d and %d bytes, want %d and %d", trace, i, g.Header.Type, g.Size, want.typ, want.size)
			}
			if want.q != nil {
				if f := seqDiff(want.q, g.SequenceHeader); f != "" {
					return mc.Failf("sequence header: "+f, "%s: OBU %d: %s is wrong", trace, i, f)
				}
			}
		}
		if m.q != nil {
			if f := seqDiff(m.q, p.SequenceHeader); f != "" {
				return mc.Failf("active sequence header: "+f, "%s: %s of the active sequence header is wrong", trace, f)
			}
		}
		s := stateOf(p)
		if m.q != nil && s.OperatingPointIdc != m.idc {
			return mc.Failf("OperatingPointIdc", "%s: OperatingPointIdc = %#x, want %#x", trace, s.OperatingPointIdc, m.idc)
		}
		if m.f != nil {
			if d := hdr.Frame(m.fq, m.f, &p.UncompressedHeader, m.st, s); len(d) > 0 {
				return mc.Failf("frame header: "+d[0].Name, "%s: last frame header: %v", trace, d[0])
			}
		}
		for i := range m.obu {
			if f := m.obu[i].f; f != nil {
				u := &got[i].UncompressedHeader
				if u.FrameType != f.Type || u.OrderHint != f.OrderHint || u.RefreshFrameFlags != f.Refresh || u.BaseQIdx != f.BaseQ {
					return mc.Failf("frame header of an OBU", "%s: the header of OBU %d has type %d, order hint %d, refresh %#x, base q %d, want %d, %d, %#x, %d", trace, i,
						u.FrameType, u.OrderHint, u.RefreshFrameFlags, u.BaseQIdx, f.Type, f.OrderHint, f.Refresh, f.BaseQ)
				}
			}
		}
		return nil
	}}
}

func seqDiff(q *spec.Seq, h sequenceheader.SequenceHeader) string {
	for _, d := range hdr.Seq(q, &h, nil) {
		return d.Name
	}
	return ""
}

var (
	nop = zap.NewNop()
	mu  sync.Mutex
)

func main() {
	r := mc.Start()
	if !real {
		r.Assume("the entry point of the parser is not where it was: nothing was explored")
		r.Explore(mc.Scenario{Name: "nothing", Run: func(c *mc.Ch) *mc.Fail { return nil }})
		r.Finish()
	}
	r.Explore(
		scenario("every grouping", streams, 0, true),
		scenario("departures", append(streams, longer...), 2, false),
	)
	if r.Thorough() {
		r.Explore(scenario("every grouping of longer streams, one departure", longer, 1, true),
			scenario("more departures", append(streams, longer...), 3, false))
	}
	r.Finish()
}
