//go:build !noshim

// C41: what precedes a block's modes.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/mi"
)

func main() {
	r := mc.Start()
	if m := os.Getenv("VERIF_SEAMS_MISSING"); m != "" {
		r.Assume("NOT EXPLORED: the code no longer has what the check replaces: " + m)
		r.Finish()
		return
	}
	mi.Stubs()
	thorough := r.Thorough()
	// some values from 0 to n
	values := func(n int) []int {
		var l []int
		for _, v := range []int{0, 1, 3, n - 1, n} {
			if v >= 0 && v <= n && (len(l) == 0 || v > l[len(l)-1]) {
				l = append(l, v)
			}
		}
		return l
	}
	neighbours := func(c *mc.Ch, w *mi.W, row, col, size int, seg bool) {
		av := c.All(4)
		w.F.Tile = [4]int{0, 64, 0, 64}
		if av&1 == 0 {
			w.F.Tile[0] = row
		}
		if av&2 == 0 {
			w.F.Tile[2] = col
		}
		c.Note("available above %d, left %d", av&1, av>>1)
		if !seg {
			return
		}
		l := values(w.F.LastActive)
		pick := func(on bool) int {
			if on {
				return l[c.All(len(l))]
			}
			return w.F.LastActive
		}
		u, left, ul := pick(av&1 == 1), pick(av&2 == 2), pick(av == 3)
		c.Note("segments above %d, left %d, above left %d", u, left, ul)
		cell := mi.Cell{Size: 3, Ref: [2]int{0, -1}}
		cell.Seg = u
		w.Put(row-1, col, 1, 1, cell)
		cell.Seg = left
		w.Put(row, col-1, 1, 1, cell)
		cell.Seg = ul
		w.Put(row-1, col-1, 1, 1, cell)
	}
	sizes := []int{3, 0, 6, 17, 21, 15}
	bound := 2
	if thorough {
		bound = 3
	}
	r.Explore(
		mc.Scenario{Name: "segments of intra frames", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(true)
			f.Seg = true
			f.PreSkip = c.All(2) == 1
			f.LastActive = c.All(8)
			f.Lossless[f.LastActive] = c.All(2) == 1
			size := sizes[c.All(2)]
			w.Begin(f)
			neighbours(c, w, 16, 16, size, true)
			w.Choose = mi.Chooser(c, map[string]int{"IntraFrameYMode": 12}, "SegmentId", "Skip")
			return w.Decode(mi.Spot{R: 16, C: 16, Size: size})
		}},
		mc.Scenario{Name: "segments of inter frames", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Seg = true
			f.PreSkip, f.Temporal, f.UpdateMap = c.All(2) == 1, c.All(2) == 1, c.All(2) == 1
			f.LastActive = []int{7, 4, 1, 0}[c.All(4)]
			if f.PreSkip {
				f.Feature[1][mi.SegSkip] = c.All(2) == 1
			}
			f.Prev = f.LastActive
			w.Begin(f)
			neighbours(c, w, 16, 16, 3, true)
			w.AboveSeg[16], w.LeftSeg[16] = c.All(2), c.All(2)
			w.F.Prev = values(f.LastActive)[c.All(len(values(f.LastActive)))]
			w.Choose = mi.Chooser(c, map[string]int{"YMode": 12}, "SegmentId", "SegmentIdPredicted", "Skip", "SkipMode")
			return w.Decode(mi.Spot{R: 16, C: 16, Size: 3})
		}},
		mc.Scenario{Name: "segments of the frame before", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Seg, f.PreSkip = true, true
			f.UpdateMap = c.All(2) == 1
			f.Temporal = f.UpdateMap
			size := c.All(22)
			edge := c.All(3)
			bh, bw := mi.High[size], mi.Wide[size]
			f.Rows, f.Cols = 32+bh, 32+bw
			if edge > 0 {
				f.Rows = 32 + (bh+1)/2
			}
			if edge > 1 {
				f.Cols = 32 + (bw+1)/2
			}
			f.Tile = [4]int{0, f.Rows, 0, f.Cols}
			f.Prev = []int{0, 3, 7}[c.All(3)]
			// one other segment somewhere in the block or around it
			ys := []int{-1, 0, bh / 2, f.Rows - 33, f.Rows - 32, bh - 1, bh}
			xs := []int{-1, 0, bw / 2, f.Cols - 33, f.Cols - 32, bw - 1, bw}
			y, x := ys[c.All(len(ys))], xs[c.All(len(xs))]
			v := []int{1, 5}[c.All(2)]
			if 32+y < 64 && 32+x < 64 {
				f.PrevAt = [][3]int{{32 + y, 32 + x, v}}
			}
			w.Begin(f)
			w.Choose = mi.Chooser(c, map[string]int{"SegmentIdPredicted": 1})
			return w.Decode(mi.Spot{R: 32, C: 32, Size: size})
		}},
		mc.Scenario{Name: "contexts of predicted segments", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Seg, f.Temporal = true, true
			f.PreSkip = c.All(2) == 1
			f.LastActive, f.Prev = 3, 2
			w.Begin(f)
			// blocks in a row, then one under and one beside them
			first := []int{3, 4, 5, 16, 17, 9}[c.All(6)]
			second := []int{3, 4, 5}[c.All(3)]
			spots := []mi.Spot{{R: 8, C: 8, Size: first}, {R: 8, C: (9 + mi.Wide[first]) &^ 1, Size: second}, {R: (9 + mi.High[first]) &^ 1, C: 8, Size: 3}}
			if thorough {
				spots = append(spots, mi.Spot{R: (9 + mi.High[first]) &^ 1, C: (9 + mi.Wide[first]) &^ 1, Size: 3})
			}
			w.Choose = mi.Chooser(c, map[string]int{"YMode": 0, "SegmentId": 1}, "SegmentIdPredicted", "Skip")
			return w.Decode(spots...)
		}},
		mc.Scenario{Name: "skip, skip mode and kind", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.SkipModePresent = c.All(2) == 1
			f.Seg = c.All(2) == 1
			if f.Seg {
				f.PreSkip = true
				feat := c.All(8)
				f.Feature[3] = [8]bool{mi.SegRef: feat&1 == 1, mi.SegSkip: feat&2 == 2, mi.SegGlobal: feat&4 == 4}
				f.UpdateMap = false
				f.Prev = 3
				if feat&1 == 1 {
					f.SegRefFrame[3] = c.All(3)
				}
			}
			size := c.All(22)
			w.Begin(f)
			neighbours(c, w, 32, 32, size, false)
			kinds := []mi.Cell{{Ref: [2]int{0, -1}}, {Ref: [2]int{3, -1}, Inter: 1}, {Ref: [2]int{1, 7}, Inter: 1}}
			u, l := c.All(3), c.All(3)
			cu, cl := kinds[u], kinds[l]
			cu.Skip, cu.SkipMode, cu.Size = c.Pick(2, 1), c.Pick(2, 1), 3
			cl.Skip, cl.SkipMode, cl.Size = c.Pick(2, 1), c.Pick(2, 1), 3
			w.Put(31, 32, 1, 1, cu)
			w.Put(32, 31, 1, 1, cl)
			w.Choose = mi.Chooser(c, map[string]int{"YMode": 12, "UVModeCflAllowed": 0, "UVModeCflNotAllowed": 0, "CompMode": 0, "SingleRef": 0, "NewMv": 1, "ZeroMv": 1, "RefMv": 0, "InterIntra": 0, "MotionMode": 0, "UseObmc": 0, "InterpFilter": 0, "cdef": 5, "CompGroupIdx": 0, "CompoundIdx": 0}, "Skip", "SkipMode", "IsInter")
			return w.Decode(mi.Spot{R: 32, C: 32, Size: size})
		}, Bound: 4},
		mc.Scenario{Name: "skip in intra frames", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(true)
			f.Seg = c.All(2) == 1
			if f.Seg {
				f.PreSkip = c.All(2) == 1
				feat := c.All(2)
				f.Feature[0] = [8]bool{mi.SegSkip: feat == 1}
			}
			size := c.All(22)
			w.Begin(f)
			neighbours(c, w, 32, 32, size, false)
			w.Put(31, 32, 1, 1, mi.Cell{Ref: [2]int{0, -1}, Skip: c.All(2), SkipMode: 0, Size: 3})
			w.Put(32, 31, 1, 1, mi.Cell{Ref: [2]int{0, -1}, Skip: c.All(2), SkipMode: 0, Size: 3})
			w.Choose = mi.Chooser(c, map[string]int{"SegmentId": 0}, "Skip")
			return w.Decode(mi.Spot{R: 32, C: 32, Size: size})
		}, Bound: 1},
		mc.Scenario{Name: "CDEF", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			f.SB128 = true
			f.CdefBits = c.All(4)
			switch c.All(4) {
			case 1:
				f.Cdef = false
			case 2:
				f.CodedLossless = true
				f.Lossless = [8]bool{true, true, true, true, true, true, true, true}
			case 3:
				f.IntraBC = f.Intra
			}
			w.Begin(f)
			lists := [][]mi.Spot{
				{{R: 32, C: 0, Size: 15}}, {{R: 0, C: 32, Size: 13}, {R: 0, C: 48, Size: 13}}, {{R: 32, C: 32, Size: 14}, {R: 48, C: 32, Size: 14}},
				{{R: 0, C: 0, Size: 12}, {R: 0, C: 16, Size: 12}, {R: 16, C: 0, Size: 12}, {R: 16, C: 16, Size: 12}},
				{{R: 0, C: 0, Size: 9}, {R: 0, C: 8, Size: 9}, {R: 8, C: 0, Size: 9}}, {{R: 16, C: 40, Size: 11}, {R: 24, C: 40, Size: 11}},
				{{R: 0, C: 32, Size: 10}, {R: 0, C: 40, Size: 10}, {R: 0, C: 48, Size: 3}}, {{R: 36, C: 32, Size: 21}, {R: 40, C: 32, Size: 21}, {R: 44, C: 48, Size: 3}},
				{{R: 32, C: 52, Size: 20}, {R: 32, C: 56, Size: 20}, {R: 50, C: 52, Size: 3}},
			}
			spots := lists[c.All(len(lists))]
			w.Choose = mi.Chooser(c, map[string]int{"IsInter": 0, "SkipMode": 0, "Intrabc": 0}, "Skip", "cdef")
			return w.Decode(spots...)
		}, Bound: 0},
		mc.Scenario{Name: "deltas", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			f.Deltas = true
			f.SB128 = c.All(2) == 1
			f.DeltaQRes, f.DeltaLFRes = c.All(4), c.All(4)
			f.DeltaLF = c.All(2) == 1
			if f.DeltaLF {
				f.DeltaLFMulti = c.All(2) == 1
				f.Mono = c.All(2) == 1
			} else if f.DeltaLFRes > 0 {
				return nil
			}
			w.Begin(f)
			w.QIndex = []int{100, 1, 255}[c.Pick(3, 1)]
			w.DeltaLF = [4]int{[]int{0, 62, -62}[c.Pick(3, 1)], -60, 63, 1}
			size := []int{12, 15, 3}[c.All(3)]
			spots := []mi.Spot{{R: 0, C: 0, Size: size}}
			if size == 3 {
				spots = append(spots, mi.Spot{R: 0, C: 2, Size: 3})
			}
			w.Choose = mi.Chooser(c, map[string]int{"IsInter": 0, "SkipMode": 0, "IntraFrameYMode": 12, "YMode": 12, "UVModeCflAllowed": 0, "UVModeCflNotAllowed": 0, "cdef": 0}, "Skip")
			return w.Decode(spots...)
		}, Bound: bound},
		mc.Scenario{Name: "every delta", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(true)
			f.Deltas, f.DeltaLF, f.DeltaLFMulti = true, true, true
			f.DeltaQRes, f.DeltaLFRes = c.All(4), c.All(4)
			w.Begin(f)
			which := c.All(5)
			d := 0
			at := -1
			w.Choose = mi.Chooser(c, map[string]int{"Skip": 0, "cdef": 0, "IntraFrameYMode": 0, "UVModeCflAllowed": 0, "FilterIntra": 0})
			inner := w.Choose
			w.Choose = func(name string, n int) int {
				switch name {
				case "DeltaQ", "DeltaLFMulti":
					at++
					d = 0
					if at == which {
						d = c.All(4)
					}
					return d
				case "bits", "value", "sign":
					return c.All(n)
				}
				return inner(name, n)
			}
			return w.Decode(mi.Spot{R: 0, C: 0, Size: 3})
		}},
	)
	r.Bound("segments: 8 numbers of segments x availability x up to 5^3 segments around x every coded symbol x skip, in intra and inter frames with and without preskip, temporal prediction and update; the segments of the frame before with one other segment at 7x7 places, 22 sizes at 3 frame edges; histories of 3 blocks (4 in the thorough tier) of every pair of first sizes for the contexts of predicted segments")
	r.Bound("skip, skip mode and is_inter: all sizes x availability x 9 pairs of neighbours x all subsets of 3 features; CDEF: 9 tilings of 128x128 superblocks x all skips x all indices x 4 widths; deltas: every form of a delta, 4x4 resolutions, both superblock sizes, at the limits")
	r.Assume("palette, motion vectors, transform sizes, prediction and coefficients are stood in for")
	r.Finish()
}
