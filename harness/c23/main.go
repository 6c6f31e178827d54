// C23: each OBU takes exactly its size; OBUs out of scope are dropped.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/snap"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
	"go.uber.org/zap"
)

const (
	sequence  = 1
	delimiter = 2
	frame     = 3
	redundant = 7
	padding   = 15
)

// shape is how an OBU is written down.
type shape struct {
	typ              int
	ext, tid, sid    int
	hasSize, leb     int // leb: bytes of the size field
	slack            int // bytes after the byte the trailing one bit is in
	forbidden, resvd int
}

// write puts the OBU together: header, size field and payload with trailing bits. bits is the payload's syntax.
func (s shape) write(bits *spec.Writer) (data []byte, payload int) {
	var w spec.Writer
	w.Put(1, s.forbidden)
	w.Put(4, s.typ)
	w.Put(1, s.ext)
	w.Put(1, s.hasSize)
	w.Put(1, s.resvd)
	if s.ext == 1 {
		w.Put(3, s.tid)
		w.Put(2, s.sid)
		w.Put(3, 0)
	}
	var p spec.Writer
	if bits != nil {
		for i := 0; i < bits.Pos; i++ {
			p.Bit(spec.BitAt(bits.B, i))
		}
		p.Bit(1)
		for p.Pos%8 != 0 {
			p.Bit(0)
		}
	}
	for i := 0; i < s.slack; i++ {
		p.Put(8, 0)
	}
	payload = len(p.B)
	data = w.B
	if s.hasSize == 1 {
		data = append(data, spec.Leb128(payload, s.leb)...)
	}
	return append(data, p.B...), payload
}

var small = gen.Merge(hdr.Small, map[string]int{"max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7})

// prepare makes an active sequence header and a prior state.
func prepare(c *mc.Ch, w *hdr.Worker, k int) (*spec.Seq, sequenceheader.SequenceHeader, *spec.State, bool) {
	sg := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k), small), Cost: func(string, int) int { return 0 }}
	q := spec.ReadSeq(sg)
	sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &w.S)
	st := hdr.Prior(k % 3)
	hdr.Apply(st, &w.S)
	return q, sh, st, e == nil && end == sg.W.Pos && len(hdr.Seq(q, &sh, &w.S)) == 0
}

// run places the OBU in a stream and has the decoder read it.
func run(c *mc.Ch, w *hdr.Worker, data []byte, lead, tail, sz int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) (o obu.Obu, end int, e interface{}) {
	var all []byte
	for i := 0; i < lead; i++ {
		all = append(all, 0xa5)
	}
	all = append(all, data...)
	for i := 0; i < 60; i++ {
		all = append(all, byte(tail))
	}
	b := &bitstream.BitStream{Data: all, Position: lead * 8}
	c.Steps++
	e = mc.Catch(func() { o = obu.NewObu(sz, &w.S, b, sh, uh) })
	return o, b.Position - lead*8, e
}

func size(s shape, payload, enclosing int) int {
	if s.hasSize == 1 {
		// what is left of the enclosing length does not matter then
		return []int{1 + s.ext + payload, 1 + s.ext + s.leb + payload, 300}[enclosing]
	}
	return 1 + s.ext + payload
}

func kept(r *mc.Report, thorough bool) mc.Scenario {
	types := []int{sequence, delimiter, frame, redundant, padding}
	idcs := []int{0, 0x101, 0x30f}
	if thorough {
		idcs = append(idcs, 0xfff, 0x802)
	}
	return mc.Scenario{Name: "parsed OBUs", Run: func(c *mc.Ch) *mc.Fail {
		w := hdr.W(c)
		s := shape{typ: types[c.All(len(types))], ext: c.All(2), hasSize: c.All(2)}
		k := c.All(3)
		idc := idcs[c.All(len(idcs))]
		if s.ext == 1 {
			ids := [][2]int{{0, 0}, {1, 1}, {3, 0}, {7, 3}}
			x := ids[c.All(len(ids))]
			s.tid, s.sid = x[0], x[1]
		}
		enclosing := 0
		if s.hasSize == 1 {
			s.leb = 1 + c.All(3)
			enclosing = c.All(3)
		}
		slacks := []int{0, 1, 3}
		s.slack = slacks[c.All(len(slacks))]
		in := idc == 0 || s.ext == 0 || (idc>>uint(s.tid))&1 == 1 && (idc>>uint(s.sid+8))&1 == 1
		if !in && s.typ != sequence && s.typ != delimiter {
			return nil // dropped: below
		}
		q, sh, st, ok := prepare(c, w, k)
		if !ok {
			return nil
		}
		w.S.OperatingPointIdc = idc
		seen := c.All(2) == 1
		lead, tail := k, 255*(k&1)
		base := gen.With(hdr.Profile(k), small)
		var bits *spec.Writer
		var f *spec.Frame
		var q2 *spec.Seq
		switch s.typ {
		case sequence:
			g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(k+1), gen.Merge(small, map[string]int{"operating_points_cnt_minus_1": 1})), Cost: func(string, int) int { return 0 }}
			q2 = spec.ReadSeq(g)
			bits = &g.W
		case frame, redundant:
			if seen {
				return nil // a copy of the frame header: the decoder does not implement that
			}
			kind := hdr.Kinds[c.All(5)]
			g := &gen.Gen{C: c, Base: gen.With(base, kind), Cost: func(string, int) int { return 0 }}
			f = spec.ReadFrame(g, q, s.tid*s.ext, s.sid*s.ext, st)
			bits = &g.W
		case padding:
			n := c.All(4)
			g := &spec.Writer{}
			for i := 0; i < n; i++ {
				g.Put(8, []int{0xff, 0, 0x81}[(i+k)%3])
			}
			if n > 0 || c.All(2) == 1 {
				bits = g
			} else {
				s.slack = 0
			}
		case delimiter:
			if s.slack > 0 {
				bits = &spec.Writer{}
			}
		}
		w.S.SeenFrameHeader = seen
		w.S.TileNum = 77
		data, payload := s.write(bits)
		o, end, e := run(c, w, data, lead, tail, size(s, payload, enclosing), sh, uncompressedheader.UncompressedHeader{})
		c.Note("%+v, payload of %d bytes, OperatingPointIdc %#x, enclosing length %d, frame header seen %v", s, payload, idc, size(s, payload, enclosing), seen)
		if e != nil {
			return mc.Failf("panic", "%+v with a payload of %d bytes, OperatingPointIdc %#x fails at bit %d of %d: %v", s, payload, idc, end, len(data)*8, e)
		}
		if end != len(data)*8 {
			return mc.Failf("end", "%+v with a payload of %d bytes, OperatingPointIdc %#x ends after %d bits, want %d", s, payload, idc, end, len(data)*8)
		}
		if o.Size != payload {
			return mc.Failf("size", "%+v: the payload size is %d, want %d", s, o.Size, payload)
		}
		if o.Header.Type != s.typ {
			return mc.Failf("type", "%+v: the type is %d", s, o.Header.Type)
		}
		want := seen
		switch s.typ {
		case sequence:
			if d := hdr.Seq(q2, &o.SequenceHeader, &w.S); len(d) > 0 {
				return mc.Failf("sequence header", "%+v, OperatingPointIdc %#x: %v", s, idc, d[0])
			}
		case delimiter:
			want = false
		case frame:
			if d := hdr.Frame(q, f, &o.UncompressedHeader, st, &w.S); len(d) > 0 {
				return mc.Failf("frame header", "%+v, OperatingPointIdc %#x: %v", s, idc, d[0])
			}
			want = true
			if w.S.TileNum != 0 {
				return mc.Failf("TileNum", "%+v: TileNum is %d after the frame header, want 0", s, w.S.TileNum)
			}
		case redundant:
			return nil
		}
		if w.S.SeenFrameHeader != want {
			return mc.Failf("SeenFrameHeader", "%+v: SeenFrameHeader is %v, want %v", s, w.S.SeenFrameHeader, want)
		}
		return nil
	}}
}

// dropped OBUs: every type but sequence headers and temporal delimiters, any payload.
func dropped(thorough bool) mc.Scenario {
	return mc.Scenario{Name: "dropped OBUs", Run: func(c *mc.Ch) *mc.Fail {
		w := hdr.W(c)
		types := []int{0, 3, 4, 5, 6, 7, 8, 9, 14, 15}
		if thorough {
			types = []int{0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
		}
		s := shape{typ: types[c.All(len(types))], ext: 1, hasSize: c.All(2)}
		idcs := []int{0x101, 0x302, 0xfff &^ 0x804}
		idc := idcs[c.All(len(idcs))]
		s.tid, s.sid = c.All(8), c.All(4)
		if (idc>>uint(s.tid))&1 == 1 && (idc>>uint(s.sid+8))&1 == 1 {
			return nil
		}
		if s.hasSize == 1 {
			s.leb = 1 + c.All(2)
		}
		k := c.All(2)
		n := []int{0, 1, 2, 13, 130}[c.All(5)]
		_, sh, _, ok := prepare(c, w, k+1)
		if !ok {
			return nil
		}
		w.S.OperatingPointIdc = idc
		w.S.SeenFrameHeader = k == 1
		w.S.TileNum = 5
		data, _ := s.write(nil)
		if s.hasSize == 1 {
			data = append(data[:2:2], spec.Leb128(n, s.leb)...)
			if n == 130 && s.leb == 1 {
				s.leb = 2
			}
		}
		for i := 0; i < n; i++ {
			data = append(data, byte(0x5b*i+0x11*k))
		}
		before := snap.Fields(&w.S, nil)
		enclosing := 0
		o, end, e := run(c, w, data, 2*k, 255*k, size(s, n, enclosing), sh, uncompressedheader.UncompressedHeader{})
		c.Note("%+v, payload of %d bytes, OperatingPointIdc %#x", s, n, idc)
		if e != nil {
			return mc.Failf("dropped: panic", "%+v with a payload of %d bytes, outside OperatingPointIdc %#x, fails: %v", s, n, idc, e)
		}
		if end != len(data)*8 {
			return mc.Failf("dropped: end", "%+v with a payload of %d bytes, outside OperatingPointIdc %#x: %d bits are taken, want %d", s, n, idc, end, len(data)*8)
		}
		if o.Header.Type != s.typ || o.Size != n {
			return mc.Failf("dropped: header", "%+v: type %d and size %d, want %d and %d", s, o.Header.Type, o.Size, s.typ, n)
		}
		if x := snap.Changed(before, snap.Fields(&w.S, nil)); x != "" {
			return mc.Failf("dropped: "+x, "%+v, outside OperatingPointIdc %#x, changes %s", s, idc, x)
		}
		return nil
	}}
}

// sizes: padding and dropped OBUs of many lengths and size field widths.
func sizes(thorough bool) mc.Scenario {
	return mc.Scenario{Name: "padding of every size", Run: func(c *mc.Ch) *mc.Fail {
		w := hdr.W(c)
		top := 200
		if thorough {
			top = 700
		}
		n := c.All(top)
		hasSize := c.All(2)
		leb := 1
		if hasSize == 1 {
			leb = 1 + c.All(8)
		}
		if m := len(spec.Leb128(n, 1)); leb < m {
			return nil
		}
		s := shape{typ: header.OBU_PADDING, ext: c.All(2), hasSize: hasSize, leb: leb, resvd: c.All(2)}
		w.S.OperatingPointIdc = 0
		var p spec.Writer
		var bits *spec.Writer
		if n > 0 {
			for i := 0; i < n-1; i++ {
				p.Put(8, 0x80>>uint(i%9))
			}
			bits = &p
		}
		data, payload := s.write(bits)
		c.Note("%+v, %d bytes of padding", s, payload)
		_, end, e := run(c, w, data, 1, 0xff, size(s, payload, 0), sequenceheader.SequenceHeader{}, uncompressedheader.UncompressedHeader{})
		if e != nil {
			return mc.Failf("panic", "%d bytes of padding, %+v, fail: %v", n, s, e)
		}
		if end != len(data)*8 {
			return mc.Failf("end", "%d bytes of padding, %+v, end after %d bits, want %d", n, s, end, len(data)*8)
		}
		return nil
	}}
}

func main() {
	r := mc.Start()
	logger.Logger = zap.NewNop()
	r.Explore(kept(r, r.Thorough()), sizes(r.Thorough()), dropped(r.Thorough()))
	r.Bound("sequence header, delimiter, frame header (5 kinds), redundant frame header and padding OBUs with and without extension and size field (1 to 3 bytes), 3 amounts of trailing bytes, 3 enclosing lengths, 3 value profiles, layers inside the operating point; padding of every size to %d; every layer outside 3 operating points for every OBU type that is dropped, 5 payload sizes, comparing all of the decoder state", map[bool]int{false: 199, true: 699}[r.Thorough()])
	r.Assume("OBU types the decoder does not implement (metadata, tile lists, reserved types) are only looked at where they are dropped; tile data is C33's; a second frame header of a frame is not implemented by the decoder")
	r.Finish()
}
