//go:build !noshim

// C55: prediction of blocks by moving along motion vectors.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/inter"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/pred"
)

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func cell(w *pred.Work, filter [2]int) {
	b := w.B
	w.F.Cells[b.R][b.C] = inter.Cell{Size: b.Size, Ref: b.Ref, Mv: b.Mv, Filter: filter}
	w.Fill()
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	tables := inter.Load(os.Args[3])
	get := func(c *mc.Ch) *pred.Work { return pred.Get(c, tables) }
	n := 1
	if th {
		n = 2
	}
	r.Explore(
		mc.Scenario{Name: "fractions and filters", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			f.Size(104, 88)
			b.Size = []int{3, 0, 5, 16}[c.Pick(4, 1)]
			b.R, b.C = 8, 8
			if b.Size == 0 || b.Size == 16 {
				b.R, b.C = 9, 9
			}
			w.Format(c.Pick(4, 1))
			if !w.Possible() {
				return nil
			}
			w.Chroma()
			f.Depth = 8 + 2*c.Pick(3, 1)
			pattern := c.Pick(pred.Patterns, 1)
			base := [][2]int{{0, 0}, {-8, 16}, {-160, -160}, {24, -40}}[c.Pick(4, 1)]
			b.Mv[0] = [2]int{base[0] + c.All(16), base[1] + c.All(16)}
			w.References(pattern)
			filter := c.All(16)
			if b.R&1 == 1 {
				for i := 1; i < 4; i++ {
					w.Beside(i, inter.Cell{Ref: b.Ref, Mv: b.Mv, Filter: [2]int{filter / 4, filter % 4}})
				}
			}
			cell(w, [2]int{filter / 4, filter % 4})
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "sizes and places", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			b.Size = c.All(22)
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			bw, bh := inter.Wide[b.Size], inter.High[b.Size]
			// the frame ends some samples into the last block
			end := c.All(5)
			cut := func(s int) int {
				return []int{s, s/2 + 1, 1, (s + 3) / 4, s - 1}[end]
			}
			f.Size(bw+cut(bw), bh+cut(bh))
			place := c.All(4)
			b.R, b.C = place/2*bh/4, place%2*bw/4
			if b.R >= f.Rows || b.C >= f.Cols {
				return nil
			}
			w.Chroma()
			v := c.All(9)
			far := c.Pick(4, 1)
			d := []int{11, 8*bw + 13, 3001, 16383 - 5}[far]
			e := []int{13, 8*bh - 3, 2999, 16383 - 12}[far]
			b.Mv[0] = [2]int{(v/3 - 1) * e, (v%3 - 1) * d}
			f.Depth = 8 + 2*c.Pick(3, 1)
			pattern := c.Pick(pred.Patterns, 1)
			w.References(pattern)
			for i := 1; i < 4; i++ {
				w.Beside(i, inter.Cell{Ref: b.Ref, Mv: b.Mv, Filter: [2]int{2, 1}})
			}
			cell(w, [][2]int{{1, 0}, {0, 2}, {3, 3}}[c.Pick(3, 1)])
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "references of other sizes", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			size := [][2]int{{72, 56}, {33, 47}, {64, 64}, {130, 18}}[c.Pick(4, 1)]
			f.Size(size[0], size[1])
			if k := c.Pick(3, 1); k > 0 { // coded narrower
				f.W = size[0] * 8 / (8 + 4*k)
				f.Cols = (f.W + 7) / 8 * 2
			}
			of := func(n, limit int) int {
				v := []int{n, 2 * n, n / 2, n + 1, n - 1, 3 * n / 2, (n + 15) / 16, n/4 + 3, 2*n - 1, 5 * n / 3}[c.All(10)]
				return least(v, 2*limit)
			}
			rw := of(f.Up, f.W)
			rh := of(f.H, f.H)
			if f.W > 16*rw || f.H > 16*rh {
				return nil
			}
			b.Size = []int{3, 6, 4, 8, 12, 9, 18, 2}[c.Pick(8, 1)]
			w.Format(c.Pick(4, 1))
			if !w.Possible() {
				return nil
			}
			bw, bh := inter.Wide[b.Size]/4, inter.High[b.Size]/4
			place := c.All(4)
			b.R, b.C = place/2*((f.Rows-1)/bh)*bh, place%2*((f.Cols-1)/bw)*bw
			if b.Size == 2 {
				b.R |= 1
				w.Beside(2, inter.Cell{Ref: b.Ref, Mv: [2][2]int{{-9, 21}}, Filter: [2]int{1, 2}})
			}
			f.Depth = 8 + 2*c.Pick(3, 1)
			b.Mv[0] = [][2]int{{0, 0}, {5, -3}, {-77, 100}, {1000, 900}, {-801, -1203}}[c.All(5)]
			for i := range f.Pics {
				f.Pics[i] = w.Picture(rw, rh, 0, i)
			}
			cell(w, [][2]int{{0, 0}, {1, 2}, {3, 1}}[c.Pick(3, 1)])
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "references by name", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			f.Size(64, 48)
			b.R, b.C = 4, 4
			b.Ref[0] = 1 + c.All(7)
			perm := c.All(8)
			how := c.All(4)
			for i := range f.Slot {
				f.Slot[i] = []int{(i + perm) % 8, perm, (3*i + perm) % 8, (i*i + perm) % 8}[how]
			}
			b.Size = []int{3, 12, 9}[c.Pick(3, 1)]
			w.Format(c.Pick(4, 1))
			same := c.Pick(2, 1)
			for i := range f.Pics {
				f.Pics[i] = w.Picture(f.Up+same*(8*i-20), f.H+same*(3*i-11), 0, i)
			}
			b.Mv[0] = [2]int{3, -10}
			cell(w, [2]int{0, 0})
			return w.Run(c, 0)
		}, Bound: n},
		mc.Scenario{Name: "chroma of several blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			f.Size(64, 48)
			b.Size = []int{0, 1, 2, 16, 17}[c.All(5)]
			w.Format(c.Pick(3, 1))
			if !w.Possible() {
				return nil
			}
			k := c.All(4)
			if k%2 == 1 && inter.Wide[b.Size] > 4 || k/2 == 1 && inter.High[b.Size] > 4 {
				return nil
			}
			b.R, b.C = 4+k/2, 4+k%2
			w.Chroma()
			f.Depth = 8 + 2*c.Pick(3, 1)
			b.Ref[0] = 1 + c.Pick(2, 1)
			b.Mv[0] = [][2]int{{3, -7}, {0, 0}, {-130, 215}}[c.Pick(3, 1)]
			// what is left, above and both
			kinds := []inter.Cell{
				{Ref: [2]int{1, -1}, Mv: [2][2]int{{5, 6}}, Filter: [2]int{0, 1}},
				{Ref: [2]int{0, -1}, Filter: [2]int{3, 3}},
				{Ref: [2]int{2, -1}, Mv: [2][2]int{{-33, 18}}, Filter: [2]int{2, 0}},
				{Ref: [2]int{7, -1}, Mv: [2][2]int{{64, -96}}, Filter: [2]int{3, 3}},
			}
			for i := 1; i < 4; i++ {
				w.Beside(i, kinds[c.All(4)])
			}
			pattern := c.Pick(pred.Patterns, 1)
			w.References(pattern)
			cell(w, [2]int{1, 2})
			return w.Run(c, 0)
		}, Bound: n + 1},
		mc.Scenario{Name: "block copies", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f, b := w.F, w.B
			size := [][2]int{{96, 80}, {90, 75}, {97, 81}}[c.Pick(3, 1)]
			f.Size(size[0], size[1])
			b.Copy = true
			b.Ref = [2]int{0, -1}
			b.Mode = 0
			b.Size = []int{3, 0, 1, 4, 6, 9, 18, 16}[c.All(8)]
			w.Format(c.All(4))
			if !w.Possible() {
				return nil
			}
			bw, bh := inter.Wide[b.Size], inter.High[b.Size]
			b.R, b.C = 12, 16
			if bh == 4 {
				b.R |= 1
			}
			if bw == 4 {
				b.C |= 1
			}
			f.Depth = 8 + 2*c.Pick(3, 1)
			y := []int{0, 1, 24 - bh/2, 47 - bh, 48 - bh, 12}[c.All(6)]
			x := []int{0, 3, f.Cols*4 - bw, f.Cols*4 - bw - 1, 30, 17, 64 - bw}[c.All(7)]
			if y < 0 {
				y = 0
			}
			b.Mv[0] = [2]int{(y - b.R*4) * 8, (x - b.C*4) * 8}
			for i := range f.Pics {
				f.Pics[i] = w.Picture(32+4*i, 48-2*i, 0, i)
			}
			for i := 1; i < 4; i++ {
				w.Beside(i, inter.Cell{Ref: [2]int{0, -1}, Mv: [2][2]int{{-80, -40}}, Filter: [2]int{3, 3}})
			}
			cell(w, [2]int{3, 3})
			return w.Run(c, c.Pick(pred.Patterns, 1))
		}, Bound: n},
	)
	r.Bound("16x16 vectors x 16 pairs of filters; 22 block sizes x 4 chroma formats x 5 ends of the frame x 4 places x 9 directions; 10x10 ratios of the reference's size x 4 places x 5 vectors; 7 references x 32 assignments to slots; 5 small sizes x 4 parities x 4^3 neighbours; block copies of 8 sizes x 4 formats x 42 sources; each with at most %d departures in depth, format, contents, size, filters (chroma of several blocks: %d)", n, n+1)
	r.Assume("frames of up to 256x256 samples")
	r.Finish()
}
