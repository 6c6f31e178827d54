//go:build !noshim

// C58: what becomes of a frame once its tiles are decoded.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// Frame is a decoded frame, before it is wrapped up.
type Frame struct {
	width, height int // of the output
	denom         int // 8: not upscaled
	format        int // 0: 4:2:0, 1: 4:4:4, 2: 4:2:2, 3: monochrome
	depth         int
	kind          int // of frame
	refresh       int
	show          bool
	existing      int // -1, or the slot that is shown
	levels        [4]int
	cdef          int // 0: disabled, 1: no unit uses it, 2: all, 3: every other
	restoration   [3]int
	segmentation  int // 0: off, 1: the map is coded, 2: it is not
	grain         bool
	salt          int
}

// Slot is what a reference has to hold.
type Slot struct {
	used                    bool
	planes                  [3][][]int
	upscaled, width, height int
	renderW, renderH        int
	rows, cols              int
	kind, subX, subY, depth int
	hint, id                int
	hints                   [8]int
	gm                      [8][6]int
	segment, ref            [][]int
	mv                      [][][2]int
	coded                   Frame
}

type work struct {
	t, tOwn *tilegroup.TileGroup
	s, sOwn *state.State
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func hash(a ...int) int {
	v := uint32(2166136261)
	for _, x := range a {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return int(v >> 3)
}

func (f *Frame) sub() (int, int, int) {
	switch f.format {
	case 0:
		return 3, 1, 1
	case 1:
		return 3, 0, 0
	case 2:
		return 3, 1, 0
	}
	return 1, 1, 1
}

func (f *Frame) coded() int { return (f.width*8 + f.denom/2) / f.denom }

func (f *Frame) String() string {
	if f.existing >= 0 {
		return fmt.Sprintf("slot %d shown", f.existing)
	}
	return fmt.Sprintf("frame of %dx%d coded %d wide, format %d depth %d type %d, refresh %#x, shown %v, loop filter %v, CDEF %d, restoration %v, segmentation %d", f.width, f.height, f.coded(), f.format, f.depth, f.kind, f.refresh, f.show, f.levels, f.cdef, f.restoration, f.segmentation)
}

// prepare leaves in s and t a frame whose tiles are decoded.
func (f *Frame) prepare(t *tilegroup.TileGroup, s *state.State) (uncompressedheader.UncompressedHeader, sequenceheader.SequenceHeader) {
	planes, subX, subY := f.sub()
	sh := sequenceheader.SequenceHeader{EnableCdef: f.cdef > 0, EnableRestoration: true, EnableSuperRes: true, FilmGrainParamsPresent: f.grain}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes, sh.ColorConfig.MonoChrome = f.depth, planes, planes == 1
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = subX == 1, subY == 1
	uh := uncompressedheader.UncompressedHeader{FrameWidth: f.coded(), FrameHeight: f.height, UpscaledWidth: f.width, RenderWidth: f.width + 3 + f.salt, RenderHeight: f.height + 5 + f.salt,
		UseSuperRes: f.denom != 8, SuperResDenom: f.denom, FrameType: f.kind, ShowFrame: f.show, RefreshFrameFlags: f.refresh, OrderHint: 10 + f.salt, CurrentFrameId: 20 + f.salt,
		LoopFilterLevel: f.levels, LoopFilterSharpness: f.salt % 8, CdefDampening: 3 + f.salt%4, CdefBits: 1,
		CdefYPriStrength: []int{4, 9}, CdefYSecStrength: []int{2, 1}, CdefUVPriStrength: []int{3, 7}, CdefUVSecStrength: []int{1, 4},
		SegmentationEnabled: f.segmentation > 0, SegmentationUpdateMap: b2i(f.segmentation == 1)}
	if f.existing >= 0 {
		uh.ShowExistingFrame, uh.FrameToShowMapIdx, uh.RefreshFrameFlags = true, f.existing, 0
		return uh, sh
	}
	s.MiRows, s.MiCols = (f.height+7)/8*2, (f.coded()+7)/8*2
	for i := 1; i < 8; i++ {
		uh.OrderHints[i] = hash(i, f.salt, 1) & 127
		for j := range uh.GmParams[i] {
			uh.GmParams[i][j] = hash(i, j, f.salt, 2) & 0xfff
		}
	}
	s.Cdef.CdefIdx = make([][]int, (s.MiRows+15)/16*16)
	for r := range s.Cdef.CdefIdx {
		s.Cdef.CdefIdx[r] = make([]int, (s.MiCols+15)/16*16)
		for cc := range s.Cdef.CdefIdx[r] {
			s.Cdef.CdefIdx[r][cc] = []int{-1, -1, 0, -1 + (r/16+cc/16)%2*2}[f.cdef]
		}
	}
	s.PrevSegmentIds = make([][]int, s.MiRows)
	for r := 0; r < s.MiRows; r++ {
		s.PrevSegmentIds[r] = make([]int, s.MiCols)
		for cc := 0; cc < s.MiCols; cc++ {
			s.PrevSegmentIds[r][cc] = hash(r, cc, f.salt, 3) & 7
			t.SegmentIds[r][cc] = hash(r, cc, f.salt, 4) & 7
			s.MiSizes[r][cc], t.Skips[r][cc], s.RefFrames[r][cc], t.YModes[r][cc] = 3, hash(r/2, cc/2, f.salt, 5)&1, [2]int{0, -1}, 0
			s.MfRefFrames[r][cc] = hash(r, cc, f.salt, 6) & 7
			s.MfMvs[r][cc] = [2]int{hash(r, cc, f.salt, 7) & 63, hash(r, cc, f.salt, 8) & 63}
			for p := 0; p < 3; p++ {
				t.LoopFilterTxSizes[p][r][cc] = 0
			}
		}
	}
	s.NewCurrFrame()
	for p := 0; p < planes; p++ {
		sx, sy := uint(0), uint(0)
		if p > 0 {
			sx, sy = uint(subX), uint(subY)
		}
		for y := 0; y < s.MiRows*4>>sy; y++ {
			for x := 0; x < s.MiCols*4>>sx; x++ {
				s.CurrFrame[p][y][x] = (1<<uint(f.depth-1) + (hash(p, y, x, f.salt)&15)<<uint(f.depth-8)) & (1<<uint(f.depth) - 1)
			}
		}
		uh.FrameRestorationType[p] = f.restoration[p]
		uh.UsesLr = uh.UsesLr || f.restoration[p] != 0
		s.LoopRestorationSize[p] = 64 >> sy
		for r := 0; r < 4; r++ {
			for cc := 0; cc < 4; cc++ {
				t.LrType[p][r][cc] = f.restoration[p]
				if f.restoration[p] == 3 {
					t.LrType[p][r][cc] = 1 + (r+cc)%2
				}
				t.LrWiener[p][r][cc] = [2][3]int{{b2i(p == 0) * 3, -7, 15}, {b2i(p == 0) * 3, -10, 9}}
				t.LrSgrSet[p][r][cc], t.LrSgrXqd[p][r][cc] = (3+f.salt)%16, [2]int{-32, 31}
			}
		}
	}
	return uh, sh
}

// finish filters the frame of w.sOwn step by step.
func (f *Frame) finish(w *work) [3][][]int {
	t, s := w.tOwn, w.sOwn
	uh, sh := f.prepare(t, s)
	if f.levels[0] != 0 || f.levels[1] != 0 {
		tilegroup.VerifLoopFilter(t, s, uh, sh)
	}
	tilegroup.VerifCdef(t, s, sh, uh)
	s.UpscaledCdefFrame = tilegroup.VerifUpscale(t, s.CdefFrame, s, sh, uh)
	s.UpscaledCurrFrame = tilegroup.VerifUpscale(t, s.CurrFrame, s, sh, uh)
	tilegroup.VerifLoopRestoration(t, s, sh, uh)
	planes, subX, subY := f.sub()
	var out [3][][]int
	for p := 0; p < planes; p++ {
		w, h := f.width, f.height
		if p > 0 {
			w, h = (w+subX)>>uint(subX), (h+subY)>>uint(subY)
		}
		out[p] = make([][]int, h)
		for y := range out[p] {
			out[p][y] = append([]int(nil), s.LrFrame[p][y][:w]...)
		}
	}
	return out
}

func (w *work) reset() {
	s := w.s
	for i := range s.FrameStore {
		s.FrameStore[i] = [3][][]int{}
	}
	s.CurrFrame, s.CdefFrame, s.LrFrame, s.UpscaledCdefFrame, s.UpscaledCurrFrame = [3][][]int{}, [3][][]int{}, [3][][]int{}, [3][][]int{}, [3][][]int{}
	w.t.OutY, w.t.OutU, w.t.OutV = nil, nil, nil
}

func samples(got, want [][]int, exact bool) string {
	if exact && len(got) != len(want) {
		return fmt.Sprintf("%d rows, want %d", len(got), len(want))
	}
	for y := range want {
		if y >= len(got) || len(got[y]) < len(want[y]) || exact && len(got[y]) != len(want[y]) {
			return fmt.Sprintf("row %d is not %d samples wide", y, len(want[y]))
		}
		for x, v := range want[y] {
			if got[y][x] != v {
				return fmt.Sprintf("sample (%d,%d) is %d, want %d", x, y, got[y][x], v)
			}
		}
	}
	return ""
}

func history(c *mc.Ch, frames []Frame) *mc.Fail {
	w, ok := c.Local["w"].(*work)
	if !ok {
		w = &work{&tilegroup.TileGroup{}, &tilegroup.TileGroup{}, &state.State{}, &state.State{}}
		c.Local["w"] = w
	}
	w.reset()
	t, s := w.t, w.s
	var slots [8]Slot
	past := ""
	for n := range frames {
		f := &frames[n]
		past += fmt.Sprintf("; %v", f)
		var out [3][][]int
		if f.existing >= 0 {
			if !slots[f.existing].used {
				return nil
			}
			out = slots[f.existing].planes
			// the sequence stays as it is
			f.format, f.depth = slots[f.existing].coded.format, slots[f.existing].coded.depth
		} else if e := mc.Catch(func() { out = f.finish(w) }); e != nil {
			return nil // a filter's own failure is the business of C50 to C53
		}
		uh, sh := f.prepare(t, s)
		t.OutY, t.OutU, t.OutV = nil, nil, nil
		if e := mc.Catch(func() { tilegroup.VerifWrapup(t, s, uh, sh) }); e != nil {
			return mc.Failf("panic when a frame is finished", "%s: %v", past[2:], e)
		}
		c.Inner++
		planes, subX, subY := f.sub()
		if f.existing < 0 {
			for i := range slots {
				if f.refresh>>uint(i)&1 == 0 {
					continue
				}
				o := Slot{used: true, planes: out, upscaled: f.width, width: f.coded(), height: f.height, renderW: uh.RenderWidth, renderH: uh.RenderHeight, rows: s.MiRows, cols: s.MiCols,
					kind: f.kind, subX: subX, subY: subY, depth: f.depth, hint: uh.OrderHint, id: uh.CurrentFrameId, hints: uh.OrderHints, gm: uh.GmParams, coded: *f}
				for r := 0; r < o.rows; r++ {
					var seg, ref []int
					var mv [][2]int
					for cc := 0; cc < o.cols; cc++ {
						if f.segmentation == 2 {
							seg = append(seg, hash(r, cc, f.salt, 3)&7)
						} else {
							seg = append(seg, hash(r, cc, f.salt, 4)&7)
						}
						ref = append(ref, hash(r, cc, f.salt, 6)&7)
						mv = append(mv, [2]int{hash(r, cc, f.salt, 7) & 63, hash(r, cc, f.salt, 8) & 63})
					}
					o.segment, o.ref, o.mv = append(o.segment, seg), append(o.ref, ref), append(o.mv, mv)
				}
				slots[i] = o
			}
		}
		for i, o := range slots {
			if !o.used {
				continue
			}
			at := fmt.Sprintf("slot %d", i)
			for p := range o.planes {
				if o.planes[p] == nil {
					continue
				}
				c.Steps += int64(len(o.planes[p]) * o.upscaled)
				if d := samples(s.FrameStore[i][p], o.planes[p], false); d != "" {
					return mc.Failf(fmt.Sprintf("samples of a reference, plane %d", b2i(p > 0)), "%s: %s, plane %d: %s", past[2:], at, p, d)
				}
			}
			for _, v := range []struct {
				name      string
				got, want int
			}{{"upscaled width", s.RefUpscaledWidth[i], o.upscaled}, {"width", s.RefFrameWidth[i], o.width}, {"height", s.RefFrameHeight[i], o.height},
				{"render width", s.RefRenderWidth[i], o.renderW}, {"render height", s.RefRenderHeight[i], o.renderH}, {"columns", s.RefMiCols[i], o.cols}, {"rows", s.RefMiRows[i], o.rows},
				{"type", s.RefFrameType[i], o.kind}, {"horizontal subsampling", s.RefSubsamplingX[i], o.subX}, {"vertical subsampling", s.RefSubsamplingY[i], o.subY}, {"bit depth", s.RefBitDepth[i], o.depth}, {"order hint", s.RefOrderHint[i], o.hint},
				{"frame id", s.RefFrameId[i], o.id}, {"validity", s.RefValid[i], 1}} {
				if v.got != v.want {
					return mc.Failf("reference's "+v.name, "%s: %s of %s is %d, want %d", past[2:], v.name, at, v.got, v.want)
				}
			}
			for k := 1; k < 8; k++ {
				if s.SavedOrderHints[i][k] != o.hints[k] {
					return mc.Failf("saved order hints", "%s: %s, reference %d: %d, want %d", past[2:], at, k, s.SavedOrderHints[i][k], o.hints[k])
				}
				if s.SavedGmParams[i][k] != o.gm[k] {
					return mc.Failf("saved global motion", "%s: %s, reference %d: %v, want %v", past[2:], at, k, s.SavedGmParams[i][k], o.gm[k])
				}
			}
			for r := range o.segment {
				for cc := range o.segment[r] {
					if g := s.SavedSegmentIds[i][r][cc]; g != o.segment[r][cc] {
						return mc.Failf("saved segments", "%s: %s, row %d column %d: %d, want %d", past[2:], at, r, cc, g, o.segment[r][cc])
					}
					if g := s.SavedRefFrames[i][r][cc]; g != o.ref[r][cc] {
						return mc.Failf("saved references of the motion field", "%s: %s, row %d column %d: %d, want %d", past[2:], at, r, cc, g, o.ref[r][cc])
					}
					if g := s.SavedMvs[i][r][cc]; g != o.mv[r][cc] {
						return mc.Failf("saved vectors of the motion field", "%s: %s, row %d column %d: %v, want %v", past[2:], at, r, cc, g, o.mv[r][cc])
					}
				}
			}
		}
		got := [3][][]int{t.OutY, t.OutU, t.OutV}
		for p := 0; p < planes; p++ {
			if f.existing < 0 && !f.show {
				if got[p] != nil {
					return mc.Failf("output of a hidden frame", "%s: plane %d has %d rows", past[2:], p, len(got[p]))
				}
				continue
			}
			c.Steps += int64(len(out[p]) * f.width)
			if d := samples(got[p], out[p], true); d != "" {
				return mc.Failf(fmt.Sprintf("output samples, plane %d, existing %v", b2i(p > 0), f.existing >= 0), "%s: output plane %d: %s", past[2:], p, d)
			}
		}
	}
	return nil
}

func main() {
	r := mc.Start()
	r.Assume("film grain synthesis, storage of the motion field, loading of a key frame that is shown again and operating points other than 0 are NOT EXPLORED: not implemented in gov1")
	th := r.Thorough()
	deep := 0
	if th {
		deep = 1
	}
	masks := []int{0xff, 0, 1, 0x80, 0x2a, 0x55, 0x7f, 0xfe}
	r.Explore(
		mc.Scenario{Name: "steps in order", Bound: 2 + deep, Run: func(c *mc.Ch) *mc.Fail {
			f := Frame{depth: 8, denom: 8, existing: -1, show: true, refresh: 0x11, salt: 1}
			f.width = []int{24, 33, 9, 70}[c.Pick(4, 1)]
			f.height = []int{16, 21, 8, 67}[c.Pick(4, 1)]
			f.format = c.All(4)
			planes, _, _ := f.sub()
			f.levels = [][4]int{{}, {20, 0, 0, 0}, {0, 20, 0, 0}, {9, 30, 12, 25}, {0, 0, 40, 40}, {1, 63, 0, 9}}[c.All(6)]
			f.cdef = c.All(4)
			f.restoration = [][3]int{{}, {1, 2, 3}, {2, 0, 1}, {0, 1, 0}, {3, 3, 3}}[c.All(5)]
			if planes == 1 {
				f.restoration[1], f.restoration[2] = 0, 0
			}
			f.denom = 8 + []int{0, 1, 8, 4}[c.Pick(4, 1)]
			f.segmentation = c.Pick(3, 1)
			f.depth += 2 * c.Pick(3, 1)
			f.show = c.Pick(2, 1) == 0
			f.grain = c.Pick(2, 1) == 1
			return history(c, []Frame{f})
		}},
		mc.Scenario{Name: "histories of frames", Bound: 1 + deep, Run: func(c *mc.Ch) *mc.Fail {
			var frames []Frame
			steps := 3 + deep
			for i := 0; i < steps; i++ {
				f := Frame{depth: 8, denom: 8, existing: -1, salt: 1 + i, width: 8, height: 8, kind: b2i(i > 0), show: true}
				if i > 0 {
					if k := c.All(5); k > 0 {
						f.existing = []int{0, 0, 1, 5, 7}[k]
						frames = append(frames, f)
						continue
					}
				}
				f.refresh = masks[c.All(len(masks)-4*b2i(i > 0))]
				if i > 0 && f.refresh == 0xff {
					f.refresh = 0xe0
				}
				k := c.Pick(5, 1)
				f.width, f.height = []int{8, 17, 3, 16, 1}[k], []int{8, 11, 18, 1, 9}[k]
				f.format = c.Pick(4, 1)
				f.depth += 2 * c.Pick(3, 1)
				if c.Pick(2, 1) == 1 {
					f.denom = 13
				}
				f.show = c.Pick(2, 1) == 0
				if i > 0 {
					f.kind = []int{1, 2, 3}[c.Pick(3, 1)]
				}
				f.segmentation = c.Pick(3, 1)
				switch c.Pick(3, 1) {
				case 1:
					f.levels, f.cdef = [4]int{20, 20, 20, 20}, 2
				case 2:
					f.restoration = [3]int{3, 0, 0}
				}
				frames = append(frames, f)
			}
			return history(c, frames)
		}},
		mc.Scenario{Name: "every set of slots refreshed", Bound: 1, Run: func(c *mc.Ch) *mc.Fail {
			all := Frame{depth: 8, denom: 8, existing: -1, salt: 1, width: 8, height: 8, refresh: 0xff, show: true}
			f := all
			f.salt, f.kind, f.refresh = 2, 1, c.All(256)
			f.width, f.height = []int{8, 16, 5}[c.Pick(3, 1)], []int{8, 16, 3}[c.Pick(3, 1)]
			f.format = c.Pick(4, 1)
			return history(c, []Frame{all, f, {existing: c.All(8), denom: 8, kind: 1}})
		}},
	)
	r.Bound("histories of up to %d frames", 3+deep)
	r.Finish()
}
