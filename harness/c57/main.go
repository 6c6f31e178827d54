//go:build !noshim

// C57: prediction of blocks by warps.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/inter"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/pred"
)

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return -least(-a, -b) }

func fill(w *pred.Work, filter [2]int) {
	b := w.B
	w.F.Cells[b.R][b.C].Filter = filter
	w.Fill()
}

// Warps: the first four valid, the others not.
var warps = [][6]int{
	{1000, -70000, 65536 + 900, -700, 700, 65536 + 900},
	{-3000000, 5000000, 65536 - 5000, 2500, -1300, 65536 + 3000},
	{0, 0, 65536, 0, 0, 65536},
	{700001, 33, 65536 + 8000, 4300, 8100, 65536 - 6000},
	{131072, -200000, 65536 + 8191, 8191, -8191, 65536 - 8191},
	{0, 0, 65536, 9400, 0, 65536},
	{0, 0, 65536, 0, 8100, 65536 + 8300},
}

var sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21}

// surround sets the frame up around the block.
func surround(c *mc.Ch, w *pred.Work) int {
	f, b := w.F, w.B
	f.Depth = 8 + 2*c.Pick(3, 1)
	bw, bh := inter.Wide[b.Size], inter.High[b.Size]
	end := c.Pick(3, 1)
	f.Size(bw+[]int{bw, bw/2 + 1, 9}[end], bh+[]int{bh, bh/2 + 3, 1}[end])
	place := []int{3, 0, 1, 2}[c.Pick(4, 1)]
	b.R, b.C = place/2*bh/4, place%2*bw/4
	pattern := []int{0, 1, 2, 3}[c.Pick(4, 1)]
	w.References(pattern)
	return pattern
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	tables := inter.Load(os.Args[3])
	get := func(c *mc.Ch) *pred.Work { return pred.Get(c, tables) }
	n := 1
	if th {
		n = 2
	}
	r.Explore(
		mc.Scenario{Name: "global warps", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Size = c.All(22)
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			b.Mode = inter.GlobalMode
			pattern := surround(c, w)
			if inter.Wide[b.Size] == 4 {
				b.C |= 1
			}
			if inter.High[b.Size] == 4 {
				b.R |= 1
			}
			if b.R >= f.Rows || b.C >= f.Cols {
				return nil
			}
			b.Ref[0] = []int{1, 4, 7}[c.Pick(3, 1)]
			for i := range f.Type {
				f.Type[i], f.Gm[i] = (i+1)%4, warps[(i+2)%4]
			}
			f.Type[b.Ref[0]], f.Gm[b.Ref[0]] = c.All(4), warps[c.All(len(warps))]
			b.Mv[0] = [2]int{-37, 50}
			switch c.Pick(6, 1) {
			case 1:
				f.Integer = true
			case 2: // another size
				if f.Up < 8 {
					return nil
				}
				f.Pics[f.Slot[b.Ref[0]]] = w.Picture(f.Up+8, f.H, pattern, 2)
			case 3:
				f.Pics[f.Slot[b.Ref[0]]] = w.Picture(f.Up, f.H+1, pattern, 2)
			case 4:
				b.Mode = 17
			case 5: // others of another size
				for i := range f.Pics {
					if i != f.Slot[b.Ref[0]] {
						f.Pics[i] = w.Picture(f.Up/2+1, f.H/2+1, pattern, i)
					}
				}
			}
			if c.Pick(2, 1) == 1 && b.Size >= 3 && b.Size <= 9 {
				b.InterIntra, b.II = true, 3
				b.Ref[1] = -1
			}
			for i := 1; i < 4; i++ {
				w.Beside(i, inter.Cell{Ref: [2]int{2, -1}, Mv: [2][2]int{{5, 6}}, Filter: [2]int{0, 1}})
			}
			fill(w, [2]int{0, 1})
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "warps of two references", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Size = sizes[c.All(len(sizes))]
			w.Format(c.Pick(4, 1))
			if !w.Possible() {
				return nil
			}
			b.Mode = inter.GlobalGlobal
			b.Compound = []int{inter.Average, inter.Distance, inter.Diff}[c.Pick(3, 1)]
			pattern := surround(c, w)
			b.Ref = [][2]int{{1, 7}, {4, 5}, {3, 2}}[c.All(3)]
			for i := range f.Type {
				f.Type[i], f.Gm[i] = i%4, warps[(i+1)%4]
			}
			for _, k := range b.Ref {
				f.Type[k], f.Gm[k] = []int{3, 2, 1, 0}[c.All(4)], warps[[]int{0, 1, 4, 5}[c.All(4)]]
			}
			b.Mv = [2][2]int{{-37, 50}, {90, 11}}
			switch k := c.All(4); k {
			case 1, 2:
				f.Pics[f.Slot[b.Ref[k-1]]] = w.Picture(f.Up-5, f.H, pattern, 2)
			case 3:
				b.Mode = 25
			}
			fill(w, [2]int{2, 1})
			return w.Run(c, 0)
		}, Bound: n - 1},
		mc.Scenario{Name: "parameters", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Mode = inter.GlobalMode
			b.Size = []int{3, 6}[c.All(2)]
			f.Size(48, 40)
			b.R, b.C = 4, 4
			w.Format(c.Pick(4, 1))
			f.Depth = 8 + 2*c.Pick(3, 1)
			w.References(c.Pick(4, 1))
			v := []int{0, 31, -33, 1200, -2000, 4600, -5100, 8191, -8192}
			u := []int{0, -2100, 6400}
			f.Type[1] = 2 + c.Pick(2, 1)
			f.Gm[1] = [6]int{
				[]int{0, 65536, -300000, 32767, -20000000}[c.All(5)], []int{0, 98304, -1500001, 9000000}[c.All(4)],
				65536 + v[c.All(len(v))], v[c.All(len(v))], v[c.All(len(v))], 65536 + u[c.All(len(u))],
			}
			fill(w, [2]int{0, 0})
			return w.Run(c, 0)
		}, Bound: n - 1},
		mc.Scenario{Name: "local warps", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Size = sizes[c.All(len(sizes))]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			b.Motion = inter.Local
			b.Mode = []int{17, 14, 15}[c.Pick(3, 1)]
			surround(c, w)
			for i := range f.Type {
				f.Type[i], f.Gm[i] = 3, warps[i%4]
			}
			b.Mv[0] = [][2]int{{3, -21}, {0, 0}, {-160, 224}}[c.Pick(3, 1)]
			wide, high := inter.Wide[b.Size], inter.High[b.Size]
			my, mx := (b.R*4+high/2-1)*8, (b.C*4+wide/2-1)*8
			spots := [][2]int{{-high*4 - 32, 0}, {0, -wide*4 - 32}, {-high*4 - 64, -wide*4 - 64}, {-high*4 - 32, wide*4 + 32}}
			moves := [][2]int{{0, 0}, {2, -1}, {-5, 8}, {16, 16}, {-60, 40}, {100, -100}}
			count := 1 + c.All(3)
			for i := 0; i < count; i++ {
				s := spots[i]
				if i == 0 {
					s = spots[c.All(4)]
				}
				m := moves[2]
				if i < 2 {
					m = moves[c.All(len(moves))]
				} else {
					m = moves[(c.Pick(len(moves), 1)+2)%len(moves)]
				}
				b.Samples = append(b.Samples, [4]int{my + s[0], mx + s[1], my + s[0] + b.Mv[0][0] + m[0], mx + s[1] + b.Mv[0][1] + m[1]})
			}
			fill(w, [][2]int{{0, 0}, {1, 3}}[c.Pick(2, 1)])
			return w.Run(c, 0)
		}, Bound: n},
	)
	r.Bound("global warps: 22 block sizes x 4 chroma formats x 4 types x 7 sets of parameters; two references: 17 sizes x 3 pairs x 16 x 16 warps x which is scaled; 9720 sets of parameters at 2 sizes; local warps: 17 sizes x 4 formats x up to 3 samples, two of them with all 6 motions; with up to %d departures in depth, place, end of the frame, contents, reference, integer vectors, scaling, inter-intra (two references and parameters: %d)", n, n-1)
	r.Assume("frames of up to 256x256 samples")
	r.Finish()
}
