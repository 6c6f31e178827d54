//go:build !noshim

// C42: intra modes.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/mi"
)

func main() {
	r := mc.Start()
	if m := os.Getenv("VERIF_SEAMS_MISSING"); m != "" {
		r.Assume("NOT EXPLORED: the code no longer has what the check replaces: " + m)
		r.Finish()
		return
	}
	mi.Stubs()
	// colours chooses a chroma format
	colours := func(c *mc.Ch, f *mi.Frame) {
		switch c.All(4) {
		case 1:
			f.SubX, f.SubY = 0, 0
		case 2:
			f.SubX, f.SubY = 1, 0
		case 3:
			f.Mono = true
		}
	}
	// at chooses a place for a size: every parity for the small ones
	at := func(c *mc.Ch, size int) mi.Spot {
		p := mi.Spot{R: 32, C: 32, Size: size}
		if mi.High[size] == 1 {
			p.R += c.All(2)
		}
		if mi.Wide[size] == 1 {
			p.C += c.All(2)
		}
		return p
	}
	inter := map[string]int{"IsInter": 0, "SkipMode": 0, "Skip": 0, "cdef": 0, "Intrabc": 0}
	r.Explore(
		mc.Scenario{Name: "modes of every size", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			colours(c, &f)
			f.ScreenContent, f.FilterIntra = c.All(2) == 1, c.All(2) == 1
			if c.All(2) == 1 {
				f.Lossless[0] = true
			}
			p := at(c, c.All(22))
			w.Begin(f)
			w.Choose = mi.Chooser(c, inter, "YMode", "IntraFrameYMode", "UVModeCflAllowed", "UVModeCflNotAllowed")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "contexts", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(true)
			av := c.All(4)
			if av&1 == 0 {
				f.Tile[0] = 32
			}
			if av&2 == 0 {
				f.Tile[2] = 32
			}
			w.Begin(f)
			a, l := c.All(13), c.All(13)
			c.Note("availability %d, modes above %d, left %d", av, a, l)
			w.Put(31, 32, 1, 1, mi.Cell{Size: 3, YMode: a, Ref: [2]int{0, -1}})
			w.Put(31, 33, 1, 1, mi.Cell{Size: 3, YMode: (a + 3) % 13, Ref: [2]int{0, -1}})
			w.Put(32, 31, 1, 1, mi.Cell{Size: 3, YMode: l, Ref: [2]int{0, -1}})
			w.Put(33, 31, 1, 1, mi.Cell{Size: 3, YMode: (l + 3) % 13, Ref: [2]int{0, -1}})
			w.Choose = mi.Chooser(c, inter, "IntraFrameYMode")
			return w.Decode(mi.Spot{R: 32, C: 32, Size: 3})
		}},
		mc.Scenario{Name: "angles", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			p := at(c, []int{0, 1, 2, 3, 4, 9, 15, 16, 17, 18, 21}[c.All(11)])
			w.Begin(f)
			w.Choose = mi.Chooser(c, inter, "AngleDelta", "YMode", "IntraFrameYMode", "UVModeCflAllowed", "UVModeCflNotAllowed")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "chroma from luma", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			p := at(c, []int{0, 3, 9, 18}[c.All(4)])
			fixed := map[string]int{"UVModeCflAllowed": 13, "AngleDelta": 6, "YMode": 3, "IntraFrameYMode": 3}
			for k, v := range inter {
				fixed[k] = v
			}
			w.Begin(f)
			w.Choose = mi.Chooser(c, fixed, "CflSign", "CflAlpha")
			return w.Decode(p)
		}},
		mc.Scenario{Name: "palette and filter", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			colours(c, &f)
			f.ScreenContent, f.FilterIntra = c.All(2) == 1, c.All(2) == 1
			p := at(c, c.All(22))
			w.Begin(f)
			w.St.Pal = [][2]int{{0, 0}, {2, 0}, {0, 3}, {8, 8}}[c.All(4)]
			w.Choose = mi.Chooser(c, inter, "FilterIntra", "FilterIntraMode")
			return w.Decode(p)
		}, Bound: 1},
		mc.Scenario{Name: "block copies", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(true)
			f.IntraBC = true
			colours(c, &f)
			p := at(c, c.All(22))
			w.Begin(f)
			q := mi.Spot{R: p.R, C: p.C + mi.Wide[p.Size], Size: 3}
			if q.C&1 == 1 {
				q.C++
			}
			if q.C > 62 {
				q = mi.Spot{R: p.R - 2, C: p.C, Size: 3}
			}
			if q.R&1 == 1 {
				q.R--
			}
			w.Choose = mi.Chooser(c, nil, "Intrabc", "Skip")
			return w.Decode(p, q)
		}, Bound: 1},
		mc.Scenario{Name: "sequences", Run: func(c *mc.Ch) *mc.Fail {
			w := mi.Get(c)
			f := mi.Plain(c.All(2) == 1)
			colours(c, &f)
			w.Begin(f)
			size := []int{0, 3, 6, 16, 17, 4}[c.All(6)]
			h, v := mi.High[size], mi.Wide[size]
			w.Choose = mi.Chooser(c, inter)
			return w.Decode(mi.Spot{R: 16, C: 16, Size: size}, mi.Spot{R: 16, C: 16 + v, Size: size}, mi.Spot{R: 16 + h, C: 16, Size: size}, mi.Spot{R: 16 + h, C: 16 + v, Size: size})
		}, Bound: 2 + b2i(r.Thorough())},
	)
	r.Bound("intra blocks of intra and inter frames: 22 sizes at every parity x 4 chroma formats x 13 luma modes x all chroma modes x lossless, palettes, filters; every pair of neighbouring modes; every angle of every pair of modes; every sign and pair of alphas; histories of 4 blocks with at most 2 symbols (3 in the thorough tier) other than the first")
	r.Assume("palette, motion vectors, transform sizes, prediction and coefficients are stood in for")
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
