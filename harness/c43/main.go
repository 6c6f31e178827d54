//go:build !noshim

// C43: references and modes of inter blocks.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/mi"
)

// inter fixes what does not matter.
func with(extra map[string]int) map[string]int {
	m := map[string]int{"IsInter": 1, "SkipMode": 0, "Skip": 0, "cdef": 0}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

func main() {
	r := mc.Start()
	if m := os.Getenv("VERIF_SEAMS_MISSING"); m != "" {
		r.Assume("NOT EXPLORED: the code no longer has what the check replaces: " + m)
		r.Finish()
		return
	}
	mi.Stubs()
	thorough := r.Thorough()
	var kinds []mi.Cell // of neighbours
	kinds = append(kinds, mi.Cell{Ref: [2]int{0, -1}})
	for i := 1; i <= 7; i++ {
		kinds = append(kinds, mi.Cell{Ref: [2]int{i, -1}, Inter: 1})
	}
	for _, p := range [][2]int{{1, 2}, {1, 3}, {1, 4}, {5, 7}, {1, 5}, {1, 6}, {1, 7}, {2, 5}, {2, 6}, {2, 7}, {3, 5}, {3, 6}, {3, 7}, {4, 5}, {4, 6}, {4, 7}, {1, 0}, {7, 0}, {5, 0}} {
		kinds = append(kinds, mi.Cell{Ref: p, Inter: 1})
	}
	for i := range kinds {
		kinds[i].Size, kinds[i].YMode = 3, mi.Nearest
	}
	place := func(c *mc.Ch, w *mi.W, p mi.Spot, above, left mi.Cell) {
		av := c.All(4)
		if av&1 == 0 {
			w.F.Tile[0] = p.R
		}
		if av&2 == 0 {
			w.F.Tile[2] = p.C
		}
		c.Note("available above %d, left %d", av&1, av>>1)
		w.Put(p.R-1, p.C, 2, 1, above)
		w.Put(p.R, p.C-1, 1, 2, left)
	}
	r.Explore(
		mc.Scenario{Name: "references", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.RefSelect = c.All(2) == 1
			w.Begin(f)
			a, l := kinds[c.All(len(kinds))], kinds[c.All(len(kinds))]
			c.Note("above %v, left %v", a.Ref, l.Ref)
			p := mi.Spot{R: 16, C: 16, Size: 3}
			place(c, w, p, a, l)
			w.Choose = mi.Chooser(c, with(map[string]int{"CompoundMode": 0, "NewMv": 0, "InterIntra": 0, "UseObmc": 0, "MotionMode": 0, "CompGroupIdx": 0, "CompoundIdx": 0, "InterpFilter": 0}),
				"CompMode", "CompRefType", "UniCompRef", "CompRef", "CompBwdRef", "SingleRef")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "references by size", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.RefSelect = c.All(2) == 1
			f.Seg, f.UpdateMap = c.All(2) == 1, false
			if f.Seg {
				feat := c.All(8)
				f.Feature[2] = [8]bool{mi.SegRef: feat&1 == 1, mi.SegSkip: feat&2 == 2, mi.SegGlobal: feat&4 == 4}
				f.SegRefFrame[2], f.Prev = []int{1, 4, 7, 0}[c.All(4)], 2
			}
			f.SkipModeFrame = [][2]int{{2, 5}, {1, 7}, {1, 2}}[c.All(3)]
			w.Begin(f)
			p := mi.Spot{R: 32, C: 32, Size: c.All(22)}
			place(c, w, p, kinds[4], kinds[12])
			m := with(nil)
			delete(m, "SkipMode")
			w.Choose = mi.Chooser(c, m, "CompMode", "SkipMode", "YMode")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "modes", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			w.Begin(f)
			w.St.Found = c.All(6)
			w.St.NewCtx, w.St.RefCtx, w.St.ZeroCtx = c.All(6), c.All(6), c.All(2)
			for i := range w.St.Drl {
				w.St.Drl[i] = 0
			}
			d := c.All(3)
			w.St.Drl[0], w.St.Drl[1], w.St.Drl[2], w.St.Drl[3] = d, (d+1)%3, (d+2)%3, (d+1)%3
			c.Note("stand-ins %+v", w.St)
			p := mi.Spot{R: 16, C: 16, Size: []int{3, 0, 9}[c.All(3)]}
			place(c, w, p, kinds[1], kinds[7])
			w.Choose = mi.Chooser(c, with(map[string]int{"CompRefType": 1, "CompRef": 0, "CompBwdRef": 1, "SingleRef": 0, "InterIntra": 0, "UseObmc": 0, "MotionMode": 0, "CompGroupIdx": 0, "CompoundIdx": 1, "InterpFilter": 1}),
				"CompMode", "CompoundMode", "NewMv", "ZeroMv", "RefMv", "DrlMode")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "interintra", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.InterIntra, f.Switchable, f.Interp = c.All(2) == 1, c.All(2) == 1, []int{4, 2}[c.All(2)]
			w.Begin(f)
			size := c.All(22)
			p := mi.Spot{R: 32, C: 32, Size: size}
			place(c, w, p, kinds[2], kinds[9])
			m := with(map[string]int{"CompRefType": 1, "CompRef": 0, "CompBwdRef": 0, "SingleRef": 1, "NewMv": 1, "ZeroMv": 1, "RefMv": 0, "CompGroupIdx": 0, "CompoundIdx": 1})
			delete(m, "SkipMode")
			w.Choose = mi.Chooser(c, m, "SkipMode", "CompMode", "InterIntra", "InterIntraMode", "WedgeInterIntra", "WedgeIndex")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "motion modes", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.ForceInt, f.Warp = c.Pick(2, 1) == 1, c.Pick(2, 1) == 0
			f.Switchable = c.Pick(2, 1) == 0
			ref := 1 + c.All(7)
			f.Scaled[ref] = c.Pick(2, 1) == 1
			f.Scaled[ref%7+1] = c.Pick(2, 1) == 1
			f.Gm[ref] = c.Pick(4, 1)
			f.Gm[ref%7+1] = c.Pick(4, 1)
			size := c.All(22)
			w.Begin(f)
			w.St.Samples = c.All(3)
			if w.St.Samples == 2 {
				w.St.Samples = 8
			}
			p := mi.Spot{R: 32, C: 32, Size: size}
			place(c, w, p, kinds[3], kinds[0])
			bits := map[int][]int{1: {0, 0, 0}, 2: {0, 0, 1}, 3: {0, 1, 0}, 4: {0, 1, 1}, 5: {1, 0, 0}, 6: {1, 0, 1}, 7: {1, 1}}
			i := 0
			inner := mi.Chooser(c, with(map[string]int{"InterpFilter": 2}), "UseObmc", "MotionMode", "NewMv", "ZeroMv")
			w.Choose = func(name string, n int) int {
				if name == "SingleRef" {
					i++
					return bits[ref][i-1]
				}
				return inner(name, n)
			}
			return w.Decode(p)
		}, Bound: 2},
		mc.Scenario{Name: "neighbours that overlap", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			size := 3 + c.All(19)
			if mi.Wide[size] == 1 || mi.High[size] == 1 {
				return nil
			}
			bw, bh := mi.Wide[size], mi.High[size]
			cut := c.All(2 * (bw + bh))
			if cut < bw {
				f.Cols = 32 + cut + 1
			} else if cut < bw+bh {
				f.Rows = 32 + cut - bw + 1
			}
			f.Tile[1], f.Tile[3] = f.Rows, f.Cols
			w.Begin(f)
			w.St.Samples = 1
			side := c.All(2)
			i := c.All(2 + []int{bw, bh}[side])
			cell := kinds[1]
			if side == 0 {
				w.Put(31, 32+i-1, 1, 1, cell)
			} else {
				w.Put(32+i-1, 31, 1, 1, cell)
			}
			c.Note("an inter block beside %d:%d", side, i-1)
			w.Choose = mi.Chooser(c, with(map[string]int{"CompMode": 0, "SingleRef": 0, "NewMv": 0, "InterpFilter": 0, "InterIntra": 0}), "MotionMode")
			return w.Decode(mi.Spot{R: 32, C: 32, Size: size})
		}},
		mc.Scenario{Name: "compound types", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Msk, f.Jnt = c.All(2) == 1, c.All(2) == 1
			w.Begin(f)
			size := c.All(22)
			if mi.Wide[size] == 1 || mi.High[size] == 1 {
				return nil
			}
			p := mi.Spot{R: 32, C: 32, Size: size}
			place(c, w, p, kinds[2], kinds[9])
			w.Choose = mi.Chooser(c, with(map[string]int{"CompMode": 1, "CompRefType": 1, "CompRef": 0, "CompBwdRef": 0, "CompoundMode": 0, "InterpFilter": 0}),
				"CompGroupIdx", "CompoundIdx", "CompoundType", "WedgeIndex", "wedge sign", "mask type")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "contexts of compound types", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			switch c.All(5) {
			case 1:
				f.OrderHints[1], f.OrderHints[5] = 16, 25
			case 2:
				f.OrderHints = [8]int{0, 124, 0, 0, 0, 4, 0, 0}
			case 3:
				f.OrderHints = [8]int{126, 120, 0, 0, 0, 3, 0, 0}
			case 4:
				f.OrderHintBits = 0
			}
			w.Begin(f)
			var nb [2]mi.Cell
			for i := range nb {
				nb[i] = kinds[c.All(len(kinds))]
				nb[i].Group, nb[i].Index = c.All(2), c.All(2)
			}
			c.Note("above %v group %d index %d, left %v group %d index %d", nb[0].Ref, nb[0].Group, nb[0].Index, nb[1].Ref, nb[1].Group, nb[1].Index)
			p := mi.Spot{R: 16, C: 16, Size: 3}
			place(c, w, p, nb[0], nb[1])
			w.Choose = mi.Chooser(c, with(map[string]int{"CompMode": 1, "CompRefType": 1, "CompRef": 0, "CompBwdRef": 0, "CompoundMode": 0, "InterpFilter": 0, "CompoundType": 1, "mask type": 0}),
				"CompGroupIdx", "CompoundIdx")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "interpolation filters", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Dual, f.Interp = c.All(2) == 1, []int{4, 0, 2, 3}[c.All(4)]
			w.Begin(f)
			var nb [2]mi.Cell
			for i := range nb {
				nb[i] = kinds[[]int{0, 1, 2, 8, 11, 12, 24}[c.All(7)]]
				v := c.All(4)
				nb[i].Filter = [][2]int{{0, 1}, {1, 2}, {2, 0}, {1, 1}}[v]
			}
			c.Note("above %v %v, left %v %v", nb[0].Ref, nb[0].Filter, nb[1].Ref, nb[1].Filter)
			p := mi.Spot{R: 16, C: 16, Size: 3}
			place(c, w, p, nb[0], nb[1])
			w.Choose = mi.Chooser(c, with(map[string]int{"CompRefType": 0, "UniCompRef": 0, "SingleRef": 0, "CompoundMode": 0, "NewMv": 0, "CompGroupIdx": 0, "CompoundIdx": 1, "InterIntra": 0, "MotionMode": 0, "UseObmc": 0}),
				"CompMode", "InterpFilter")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "blocks that need no filter", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			f.Dual = c.All(2) == 1
			f.Gm[1], f.Gm[2], f.Gm[5] = c.All(4), c.All(4), c.Pick(4, 1)
			size := c.All(22)
			w.Begin(f)
			w.St.Samples = 1
			p := mi.Spot{R: 32, C: 32, Size: size}
			place(c, w, p, kinds[2], kinds[9])
			m := with(map[string]int{"CompRefType": 0, "UniCompRef": 0, "SingleRef": 0, "CompGroupIdx": 0, "CompoundIdx": 1, "InterIntra": 0, "InterpFilter": 1})
			w.Choose = mi.Chooser(c, m, "CompMode", "CompoundMode", "NewMv", "ZeroMv", "MotionMode")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "sequences", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(false)
			w.Begin(f)
			w.St.Found, w.St.Samples, w.St.NewCtx, w.St.RefCtx = 3, 1, 3, 2
			size := []int{3, 6, 9, 16, 0}[c.All(5)]
			h, v := mi.High[size], mi.Wide[size]
			w.Choose = mi.Chooser(c, map[string]int{"IsInter": 1, "Skip": 0, "cdef": 0})
			spots := []mi.Spot{{R: 16, C: 16, Size: size}, {R: 16, C: 16 + v, Size: size}, {R: 16 + h, C: 16, Size: size}}
			return w.Decode(spots...)
		}, Bound: 3 + b2i(thorough)},
	)
	r.Bound("references: 27x27 kinds of neighbours x availability x every choice of references; every size x segment features x skip mode; modes: 6 numbers of candidates x all contexts x every mode and index; interintra, motion modes, compound types and interpolation filters of all sizes with the conditions of each, contexts of every pair of neighbours; histories of 3 blocks with at most %d symbols other than the first", 3+b2i(thorough))
	r.Assume("the search for candidates and warp samples, motion vectors, palette, transform sizes, prediction and coefficients are stood in for")
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
