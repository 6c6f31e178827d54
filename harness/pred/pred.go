//go:build !noshim

// Package pred runs the prediction of whole inter blocks against the model of package inter.
package pred

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/inter"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const room = 384

// Work is what a worker keeps.
type Work struct {
	T    *tilegroup.TileGroup
	S    *state.State
	F    *inter.Frame
	B    *inter.Block
	pics map[pic]inter.Picture
}

type pic struct{ w, h, depth, sx, sy, pattern, slot int }

func planes(w, h int) (f [3]inter.Plane) {
	for p := range f {
		all := make([]int, w*h)
		f[p] = make(inter.Plane, h)
		for y := range f[p] {
			f[p][y] = all[y*w : (y+1)*w]
		}
	}
	return
}

// Get gives what the worker keeps, with a plain block set up.
func Get(c *mc.Ch, t *inter.Tables) *Work {
	w, ok := c.Local["w"].(*Work)
	if !ok {
		w = &Work{T: &tilegroup.TileGroup{}, S: &state.State{}, pics: map[pic]inter.Picture{}}
		w.S.CurrFrame = planes(room, room)
		w.F = &inter.Frame{Cur: planes(room, room)}
		c.Local["w"] = w
	}
	f := w.F
	*f = inter.Frame{Cur: f.Cur, Depth: 8, SubX: 1, SubY: 1, HintBits: 5, Hint: 9}
	f.Size(128, 128)
	for i := range f.Slot {
		f.Slot[i] = (i*3 + 5) % 8
		f.Gm[i] = [6]int{0, 0, 65536, 0, 0, 65536}
		f.Hints[i] = 9 + 2*i
	}
	w.B = &inter.Block{R: 16, C: 16, Size: 3, Ref: [2]int{1, -1}, Mode: 17, Compound: inter.Average, Chroma: true, T: t, F: f}
	return w
}

// Hash of numbers.
func Hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+7)) * 16777619
		v ^= v >> 13
	}
	v *= 2654435761
	return int(v >> 7)
}

// Patterns of samples.
const Patterns = 4

func sample(pattern, slot, p, y, x, top int) int {
	switch pattern {
	case 1:
		return Hash(slot, p, y/2, x/2) & 1 * top
	case 2:
		return (y*5 + x*3 + slot*11 + p*7) % (top + 1)
	case 3:
		return top - Hash(slot, p, y, x)%3
	}
	return Hash(slot, p, y, x) % (top + 1)
}

// Picture gives a reference of a size, of the format and depth of the frame.
func (w *Work) Picture(width, height, pattern, slot int) inter.Picture {
	f := w.F
	k := pic{width, height, f.Depth, f.SubX, f.SubY, pattern, slot}
	if q, ok := w.pics[k]; ok {
		return q
	}
	if len(w.pics) > 200 {
		w.pics = map[pic]inter.Picture{}
	}
	q := inter.Picture{W: width, H: height, P: planes(width, height)}
	for p := range q.P {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = f.SubX, f.SubY
		}
		q.P[p] = q.P[p][:(height+sy)>>uint(sy)]
		for y := range q.P[p] {
			q.P[p][y] = q.P[p][y][:(width+sx)>>uint(sx)]
			for x := range q.P[p][y] {
				q.P[p][y][x] = sample(pattern, slot, p, y, x, 1<<uint(f.Depth)-1)
			}
		}
	}
	w.pics[k] = q
	return q
}

// References gives all references the size of the frame.
func (w *Work) References(pattern int) {
	for i := range w.F.Pics {
		w.F.Pics[i] = w.Picture(w.F.Up, w.F.H, pattern, i)
	}
}

// Fill makes all of the block's cells, and others, say what the block is.
func (w *Work) Fill() {
	b := w.B
	for r := b.R; r < b.R+(inter.High[b.Size]+3)/4 && r < 64; r++ {
		for c := b.C; c < b.C+(inter.Wide[b.Size]+3)/4 && c < 64; c++ {
			w.F.Cells[r][c] = inter.Cell{Size: b.Size, Ref: b.Ref, Mv: b.Mv, Filter: w.F.Cells[b.R][b.C].Filter}
		}
	}
}

// Format sets the chroma format.
func (w *Work) Format(n int) {
	w.F.SubX, w.F.SubY = []int{1, 0, 1, 0}[n], []int{1, 0, 0, 0}[n]
	w.B.Chroma = n < 3
}

// Possible says whether blocks of the size exist in the format.
func (w *Work) Possible() bool {
	f, z := w.F, w.B.Size
	return !(f.SubX == 1 && f.SubY == 0 && inter.High[z] > inter.Wide[z])
}

// Chroma settles which block of small ones has chroma.
func (w *Work) Chroma() {
	b := w.B
	if inter.Wide[b.Size] == 4 && w.F.SubX == 1 && b.C&1 == 0 || inter.High[b.Size] == 4 && w.F.SubY == 1 && b.R&1 == 0 {
		b.Chroma = false
	}
}

func b2i(v bool) int {
	if v {
		return 1
	}
	return 0
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return -least(-a, -b) }

// Run predicts the block both ways and compares.
func (w *Work) Run(c *mc.Ch, pattern int) *mc.Fail {
	t, s, f, b := w.T, w.S, w.F, w.B
	var x0, y0, x1, y1 [3]int
	for p := range f.Cur {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = f.SubX, f.SubY
		}
		bw, bh := inter.Wide[b.Size]>>uint(sx), inter.High[b.Size]>>uint(sy)
		x0[p], y0[p] = most(0, b.C*4>>uint(sx)-20), most(0, b.R*4>>uint(sy)-20)
		x1[p], y1[p] = least(room, b.C*4>>uint(sx)+bw+20), least(room, b.R*4>>uint(sy)+bh+20)
		if b.Copy {
			x0[p], y0[p] = 0, 0
			x1[p], y1[p] = least(room, most(x1[p], f.Cols*4)), least(room, most(y1[p], f.Rows*4))
		}
		for y := y0[p]; y < y1[p]; y++ {
			o, g := f.Cur[p][y], s.CurrFrame[p][y]
			for x := x0[p]; x < x1[p]; x++ {
				v := sample(pattern, 9, p, y, x, 1<<uint(f.Depth)-1)
				o[x], g[x] = v, v
			}
		}
	}
	s.MiRows, s.MiCols = f.Rows, f.Cols
	s.MiRow, s.MiCol, s.MiSize = b.R, b.C, b.Size
	s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = 0, f.Rows, 0, f.Cols
	s.RefFrame = b.Ref
	s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = b.Above, b.Left, b.AboveC, b.LeftC
	for r := 0; r < 64; r++ {
		for cc := 0; cc < 64; cc++ {
			k := &f.Cells[r][cc]
			s.MiSizes[r][cc], s.RefFrames[r][cc] = k.Size, k.Ref
			t.Mvs[r][cc], t.InterpFilters[r][cc] = k.Mv, k.Filter
		}
	}
	s.GmType = f.Type
	var uh uncompressedheader.UncompressedHeader
	uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = f.W, f.Up, f.H
	uh.ForceIntegerMv, uh.OrderHint = f.Integer, f.Hint
	for i := range f.Pics {
		q := &f.Pics[i]
		s.RefUpscaledWidth[i], s.RefFrameHeight[i], s.RefFrameWidth[i] = q.W, q.H, q.W-i%2
		s.FrameStore[i] = q.P
		uh.GmParams[i] = f.Gm[i]
		uh.OrderHints[i] = f.Hints[i]
		if i > 0 {
			uh.RefFrameIdx[i-1] = f.Slot[i]
		}
	}
	was := [3][8]int{s.RefUpscaledWidth, s.RefFrameHeight, s.RefFrameWidth}
	var sh sequenceheader.SequenceHeader
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes = f.Depth, 3
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.SubX == 1, f.SubY == 1
	sh.EnableOrderHint, sh.OrderHintBits = f.HintBits > 0, f.HintBits
	sh.Use128x128SuperBlock = true
	if b.Copy {
		s.RefFrame = [2]int{0, -1}
	}
	t.HasChroma, t.IsInter = b.Chroma, 1
	tilegroup.VerifSetUseIntrabc(t, b2i(b.Copy))
	t.Mv, t.YMode, t.MotionMode, t.CompoundType = b.Mv, b.Mode, b.Motion, b.Compound
	t.InterIntra, t.InterIntraMode, t.WedgeInterIntra = b2i(b.InterIntra), b.II, b2i(b.IIWedge)
	t.WedgeIndex, t.WedgeSign, t.MaskType = b.Wedge, b.Sign, b.MaskType
	if b.InterIntra {
		s.RefFrame[1] = 0
		t.CompoundType = inter.FromIntra
		if b.IIWedge {
			t.CompoundType = inter.Wedge
		}
	}
	t.AngleDeltaY, t.AngleDeltaUV, t.UseFilterIntra = 0, 0, false
	t.NumSamples = len(b.Samples)
	for i, v := range b.Samples {
		copy(t.CandList[i][:], v[:])
	}
	what := func() string { return w.describe() }
	b.Predict()
	if e := mc.Catch(func() { tilegroup.VerifComputePrediction(t, sh, s, uh) }); e != nil {
		return mc.Failf("panic in prediction", "%s: %v", what(), e)
	}
	c.Inner++
	c.Steps += int64(1 + 2*b2i(b.Chroma))
	for p := range f.Cur {
		for y := y0[p]; y < y1[p]; y++ {
			o, g := f.Cur[p][y], s.CurrFrame[p][y]
			for x := x0[p]; x < x1[p]; x++ {
				if o[x] != g[x] {
					return mc.Failf("sample predicted", "%s: plane %d, row %d column %d is %d, want %d", what(), p, y, x, g[x], o[x])
				}
			}
		}
	}
	if now := [3][8]int{s.RefUpscaledWidth, s.RefFrameHeight, s.RefFrameWidth}; now != was {
		return mc.Failf("size of a reference changed", "%s: sizes of references became %v from %v", what(), now, was)
	}
	return nil
}

func (w *Work) describe() string {
	f, b := w.F, w.B
	s := fmt.Sprintf("block %dx%d at (%d,%d) of a frame of %dx%d (%d), %d bits, subsampling %d%d, chroma %v, references %v vectors %v filters %v", inter.Wide[b.Size], inter.High[b.Size], b.C*4, b.R*4, f.W, f.H, f.Up, f.Depth, f.SubX, f.SubY, b.Chroma, b.Ref, b.Mv, f.Cells[b.R][b.C].Filter)
	for _, r := range b.Ref {
		if r > 0 {
			q := f.Pics[f.Slot[r]]
			s += fmt.Sprintf(", reference %d of %dx%d", r, q.W, q.H)
		}
	}
	s += fmt.Sprintf(", mode %d motion %d", b.Mode, b.Motion)
	if b.Ref[1] > 0 {
		s += fmt.Sprintf(", compound %d (wedge %d %d, mask %d), hints %v at %d", b.Compound, b.Wedge, b.Sign, b.MaskType, f.Hints, f.Hint)
	}
	if b.InterIntra {
		s += fmt.Sprintf(", inter-intra %d (wedge %v %d)", b.II, b.IIWedge, b.Wedge)
	}
	if b.Copy {
		s += ", block copy"
	}
	if len(b.Samples) > 0 {
		s += fmt.Sprintf(", samples %v", b.Samples)
	}
	if b.Mode == inter.GlobalMode || b.Mode == inter.GlobalGlobal {
		s += fmt.Sprintf(", warps %v of %v", f.Gm, f.Type)
	}
	return s
}

// Beside sets the block to the left (1), above (2) or both (3) of a small block.
func (w *Work) Beside(i int, cell inter.Cell) {
	b := w.B
	cell.Size = b.Size
	r0, c0 := b.R-i/2, b.C-i%2
	r1, c1 := r0, c0
	if i == 1 {
		r1 = b.R + inter.High[b.Size]/4 - 1
	}
	if i == 2 {
		c1 = b.C + inter.Wide[b.Size]/4 - 1
	}
	for r := most(0, r0); r <= r1 && r < 64; r++ {
		for c := most(0, c0); c <= c1 && c < 64; c++ {
			if r0 >= 0 && c0 >= 0 {
				w.F.Cells[r][c] = cell
			}
		}
	}
}
