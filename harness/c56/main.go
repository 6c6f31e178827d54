//go:build !noshim

// C56: blending of the predictions of a block.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/inter"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/pred"
)

// Sizes that can be compound, or overlapped.
var sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21}

// Sizes that have wedges, and those that can be inter-intra.
var wedged = []int{3, 4, 5, 6, 7, 8, 9, 18, 19}
var mixed = []int{3, 4, 5, 6, 7, 8, 9}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func fill(w *pred.Work, filter [2]int) {
	b := w.B
	w.F.Cells[b.R][b.C].Filter = filter
	w.Fill()
}

// compound sets up a block of two references.
func compound(c *mc.Ch, w *pred.Work, cost int) *pred.Work {
	f, b := w.F, w.B
	f.Depth = 8 + 2*c.Pick(3, cost)
	bw, bh := inter.Wide[b.Size], inter.High[b.Size]
	f.Size(least(256, 2*bw+9), least(256, 2*bh+3))
	b.R, b.C = bh/4, bw/4
	b.Ref = [][2]int{{1, 7}, {1, 2}, {4, 5}, {3, 3}}[c.Pick(4, cost)]
	b.Mv = [][2][2]int{{{3, -9}, {-12, 5}}, {{0, 0}, {0, 0}}, {{-801, 13}, {6, 999}}}[c.Pick(3, cost)]
	b.Mode = []int{25, 18, 23}[c.Pick(3, cost)]
	pattern := []int{1, 0, 2, 3}[c.Pick(4, cost)]
	w.References(pattern)
	if c.Pick(2, cost) == 1 {
		w.F.Pics[f.Slot[b.Ref[1]]] = w.Picture(f.Up-bw/2, f.H+3, pattern, 3)
	}
	fill(w, [][2]int{{2, 0}, {1, 1}, {0, 3}}[c.Pick(3, cost)])
	return w
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	tables := inter.Load(os.Args[3])
	get := func(c *mc.Ch) *pred.Work { return pred.Get(c, tables) }
	n := 1
	if th {
		n = 2
	}
	hints := []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 15, 16, 17, 21, 30, 31, 32, 33, 48, 60, 90, 127}
	r.Explore(
		mc.Scenario{Name: "distances", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Compound = inter.Distance
			compound(c, w, 1)
			f.HintBits = []int{3, 5, 8, 0}[c.All(4)]
			for i := range f.Hints {
				f.Hints[i] = 7
			}
			switch f.HintBits {
			case 3:
				f.Hint, f.Hints[b.Ref[0]], f.Hints[b.Ref[1]] = c.All(8), c.All(8), c.All(8)
			case 5:
				f.Hint = []int{0, 13, 31}[c.All(3)]
				f.Hints[b.Ref[0]], f.Hints[b.Ref[1]] = c.All(32), c.All(32)
			default:
				f.Hint = []int{0, 100, 255}[c.All(3)]
				k, l := hints[c.All(len(hints))], hints[c.All(len(hints))]
				if c.All(2) == 1 {
					k = -k
				}
				if c.All(2) == 1 {
					l = -l
				}
				f.Hints[b.Ref[0]], f.Hints[b.Ref[1]] = (f.Hint+k)&255, (f.Hint+l)&255
			}
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "averages, distances and differences", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := w.B
			b.Size = sizes[c.All(len(sizes))]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			switch k := c.All(4); k {
			case 0, 1:
				b.Compound = []int{inter.Average, inter.Distance}[k]
			default:
				b.Compound, b.MaskType = inter.Diff, k-2
			}
			compound(c, w, 1)
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "wedges", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			b := w.B
			b.Size = wedged[c.All(len(wedged))]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			b.Compound, b.Wedge, b.Sign = inter.Wedge, c.All(16), c.All(2)
			compound(c, w, 1)
			return w.Run(c, 0)
		}, Bound: 1},
		mc.Scenario{Name: "intra and inter", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.InterIntra = true
			b.Size = mixed[c.All(len(mixed))]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			b.II = c.All(4)
			if k := c.All(17); k > 0 {
				b.IIWedge, b.Wedge = true, k-1
			}
			k := 15 - c.Pick(16, 1)
			b.Above, b.Left, b.AboveC, b.LeftC = k&1 > 0, k&2 > 0, k&4 > 0, k&8 > 0
			f.Depth = 8 + 2*c.Pick(3, 1)
			bw, bh := inter.Wide[b.Size], inter.High[b.Size]
			b.R, b.C = bh/4, bw/4
			switch c.Pick(3, 1) {
			case 0:
				f.Size(3*bw, 3*bh)
			case 1:
				f.Size(bw+3, bh+bh/2+1)
			case 2:
				f.Size(bw+bw/2+1, bh+6)
			}
			b.Ref[1] = 0
			b.Mv[0] = [][2]int{{3, -9}, {0, 0}, {-801, 1005}}[c.Pick(3, 1)]
			pattern := []int{1, 0, 2, 3}[c.Pick(4, 1)]
			w.References(pattern)
			fill(w, [][2]int{{2, 0}, {1, 1}, {0, 3}}[c.Pick(3, 1)])
			return w.Run(c, c.Pick(pred.Patterns, 1))
		}, Bound: n},
		mc.Scenario{Name: "overlapped", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Motion = inter.Overlapped
			b.Size = sizes[c.All(len(sizes))]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			bw, bh := inter.Wide[b.Size]/4, inter.High[b.Size]/4
			b.R, b.C = bh, bw
			switch c.Pick(4, 1) {
			case 0:
				f.Size(256, 256)
			case 1:
				f.Size(least(256, 8*bw), least(256, 8*bh))
			case 2:
				f.Size(least(256, 4*bw+2*bw+1), least(256, 4*bh+bh+2))
			case 3:
				f.Size(4*bw+7, 4*bh+7)
			}
			f.Depth = 8 + 2*c.Pick(3, 1)
			b.Mv[0] = [][2]int{{3, -9}, {0, 0}, {-801, 1005}}[c.Pick(3, 1)]
			k := c.All(3)
			b.Above, b.Left = k != 1, k != 2
			b.AboveC, b.LeftC = b.Above, b.Left
			for i := range f.Cells {
				for j := range f.Cells[i] {
					f.Cells[i][j] = inter.Cell{Size: 3, Ref: [2]int{5, -1}, Mv: [2][2]int{{111, 222}}}
				}
			}
			// blocks along the sides, up to four of which differ
			side := func(on bool, n int, lay func(at, len int, k inter.Cell), size func(len int) int) {
				if !on {
					return
				}
				len := []int{2, 1, 4, 8, 16, 32}[c.All(6)]
				kind := [4]int{}
				for i := range kind {
					if i == 0 || i*len < n && len > 1 || i*2 < n && len == 1 {
						kind[i] = c.Pick(4, 1)
					}
				}
				for at := 0; at < n; at += len {
					i := at / len
					if len == 1 {
						i /= 2
					}
					k := inter.Cell{Size: size(len), Mv: [2][2]int{{13 + 2*at, 5 - 3*at}, {400, 300}}, Filter: [2]int{at / len % 4, (at/len + 1) % 4}}
					k.Ref = [][2]int{{1 + at%3, -1}, {0, -1}, {2, 7}, {3, 0}}[kind[i%4]]
					if len == 1 && at%2 == 0 {
						k.Ref, k.Mv[0] = [2]int{6 * (at / 2 % 2), -1}, [2]int{-99, -77}
					}
					lay(at, len, k)
				}
			}
			side(b.Above, bw, func(at, len int, k inter.Cell) {
				for i := 0; i < len && b.C+at+i < 64; i++ {
					f.Cells[b.R-1][b.C+at+i] = k
				}
			}, func(len int) int { return map[int]int{1: 16, 2: 18, 4: 5, 8: 9, 16: 11, 32: 14}[len] })
			side(b.Left, bh, func(at, len int, k inter.Cell) {
				for i := 0; i < len && b.R+at+i < 64; i++ {
					f.Cells[b.R+at+i][b.C-1] = k
				}
			}, func(len int) int { return map[int]int{1: 17, 2: 19, 4: 4, 8: 9, 16: 10, 32: 13}[len] })
			w.References([]int{1, 0, 2, 3}[c.Pick(4, 1)])
			if c.Pick(2, 1) == 1 {
				f.Pics[f.Slot[1]] = w.Picture(f.Up/2+1, f.H+5, 0, 1)
			}
			fill(w, [2]int{0, 1})
			return w.Run(c, 0)
		}, Bound: n},
	)
	r.Bound("all distances of two references for order hints of 3 and 5 bits (512 and 3072), 46x46 for 8 bits; 17 block sizes x 4 chroma formats x average, distance, both difference masks; 9 sizes x 4 formats x 16 wedges x 2 signs; 7 sizes x 4 formats x 4 intra modes x smooth or 16 wedges; overlap of 17 sizes x 4 formats x 3 availabilities x 6x6 sizes of the blocks above and left, of which up to four differ in kind; each with at most %d departures in depth, references, vectors, contents, filters, kinds of neighbours (wedges: 1)", n)
	r.Assume("frames of up to 256x256 samples; intra prediction as in C48")
	r.Finish()
}
