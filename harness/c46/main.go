//go:build !noshim

// C46: transform sizes of a block.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

// Block sizes: log2 of width and height in samples.
var blocks = [22][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {4, 5}, {5, 4}, {5, 5}, {5, 6}, {6, 5}, {6, 6}, {6, 7}, {7, 6}, {7, 7},
	{2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

// Transform sizes: likewise.
var txs = [19][2]int{{2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {2, 3}, {3, 2}, {3, 4}, {4, 3}, {4, 5}, {5, 4}, {5, 6}, {6, 5}, {2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

func tx(w, h int) int {
	for i, x := range txs {
		if x == [2]int{w, h} {
			return i
		}
	}
	panic(fmt.Sprint("model: no transform ", w, h))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// split gives the transform size that one of the size is divided into: square ones into quarters, others halved, those
// of 1:4 into two of 1:2, others of 1:2 into squares.
func split(t int) int {
	w, h := txs[t][0], txs[t][1]
	switch {
	case w == 2 && h == 2:
		return t
	case w == h:
		return tx(w-1, h-1)
	case w > h:
		return tx(w-1, h)
	}
	return tx(w, h-1)
}

// largest is the largest transform of a block.
func largest(size int) int {
	return tx(min(6, blocks[size][0]), min(6, blocks[size][1]))
}

// cell is what is known of a decoded 4x4 position.
type cell struct {
	inter, skip bool
	size, tx    int
}

type work struct {
	t    *tilegroup.TileGroup
	s    *state.State
	k    *sym.Coder
	mod  [64][64]cell
	real [64][64]cell
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.k = sym.New(w.s, "TxfmSplit", "Tx8x8", "Tx16x16", "Tx32x32", "Tx64x64")
	c.Local["w"] = w
	return w
}

// set puts a cell into the model and the decoder.
func (w *work) set(r, c int, x cell) {
	w.mod[r][c] = x
	w.t.InterTxSizes[r][c] = x.tx
	w.t.Skips[r][c], w.t.IsInters[r][c], w.s.MiSizes[r][c] = b2i(x.skip), b2i(x.inter), x.size
}

type block struct {
	size, row, col int
	rows, cols     int
	availU, availL bool
	inter, skip    bool
	lossless       bool
	mode           int // 1: largest, 2: coded
	depth          func() int
	split          func(depth int) int
}

func (w *work) above(b *block, r, c int) int {
	if r == b.row {
		if !b.availU {
			return 64
		}
		if x := w.mod[r-1][c]; x.inter && x.skip {
			return 1 << uint(blocks[x.size][0])
		}
	}
	return 1 << uint(txs[w.mod[r-1][c].tx][0])
}

func (w *work) left(b *block, r, c int) int {
	if c == b.col {
		if !b.availL {
			return 64
		}
		if x := w.mod[r][c-1]; x.inter && x.skip {
			return 1 << uint(blocks[x.size][1])
		}
	}
	return 1 << uint(txs[w.mod[r][c-1].tx][1])
}

func (w *work) fill(r, c, h, v, t int) {
	for i := 0; i < h; i++ {
		for j := 0; j < v; j++ {
			w.mod[r+i][c+j].tx = t
		}
	}
}

// tree encodes the division of one transform; it returns the last size, or what it was.
func (w *work) tree(b *block, r, c, t, depth, last int) int {
	if r >= b.rows || c >= b.cols {
		return last
	}
	tw, th := txs[t][0], txs[t][1]
	v, h := 1<<uint(tw-2), 1<<uint(th-2)
	s := 0
	if t != 0 && depth < 2 {
		// category: by the block's longer side and whether the transform is as large; then by the neighbours
		side := min(6, max(blocks[b.size][0], blocks[b.size][1]))
		ctx := (6 - side) * 6
		if max(tw, th) < side {
			ctx += 3
		}
		if w.above(b, r, c) < 1<<uint(tw) {
			ctx++
		}
		if w.left(b, r, c) < 1<<uint(th) {
			ctx++
		}
		s = b.split(depth)
		w.k.Sym("TxfmSplit", s, ctx)
	}
	if s == 0 {
		w.fill(r, c, h, v, t)
		return t
	}
	u := split(t)
	sv, sh := 1<<uint(txs[u][0]-2), 1<<uint(txs[u][1]-2)
	for i := 0; i < h; i += sh {
		for j := 0; j < v; j += sv {
			last = w.tree(b, r+i, c+j, u, depth+1, last)
		}
	}
	return last
}

// encode writes the block's transform sizes and returns the last.
func (w *work) encode(b *block) int {
	k := w.k
	v, h := 1<<uint(blocks[b.size][0]-2), 1<<uint(blocks[b.size][1]-2)
	t := largest(b.size)
	tw, th := txs[t][0], txs[t][1]
	if b.mode == 2 && b.size != 0 && b.inter && !b.skip && !b.lossless {
		last := 0
		for i := 0; i < h; i += 1 << uint(th-2) {
			for j := 0; j < v; j += 1 << uint(tw-2) {
				last = w.tree(b, b.row+i, b.col+j, t, 0, last)
			}
		}
		return last
	}
	switch {
	case b.lossless:
		t = 0
	case b.mode == 2 && b.size != 0 && !(b.skip && b.inter):
		ctx := 0
		if b.availU {
			x := w.mod[b.row-1][b.col]
			a := txs[x.tx][0]
			if x.inter {
				a = blocks[x.size][0]
			}
			ctx += b2i(a >= tw)
		}
		if b.availL {
			x := w.mod[b.row][b.col-1]
			a := txs[x.tx][1]
			if x.inter {
				a = blocks[x.size][1]
			}
			ctx += b2i(a >= th)
		}
		// how often the largest transform can be divided down to 4x4
		n := 0
		for u := t; u != 0; u = split(u) {
			n++
		}
		d := b.depth()
		if n == 1 && d > 1 {
			d = 1
		}
		k.Sym([]string{"Tx8x8", "Tx16x16", "Tx32x32", "Tx64x64"}[n-1], d, ctx)
		for ; d > 0; d-- {
			t = split(t)
		}
	}
	w.fill(b.row, b.col, h, v, t)
	return t
}

func (w *work) decode(c *mc.Ch, list ...*block) *mc.Fail {
	k, t, s := w.k, w.t, w.s
	k.Reset()
	k.Trace = c.Tracing()
	// the model goes first over all blocks; what it found is kept to be compared block by block
	type step struct {
		last int
		want [64][64]cell
	}
	var steps []step
	for _, b := range list {
		x := w.encode(b)
		v, h := 1<<uint(blocks[b.size][0]-2), 1<<uint(blocks[b.size][1]-2)
		st := step{last: x}
		for i := 0; i < h; i++ {
			for j := 0; j < v; j++ {
				m := &w.mod[b.row+i][b.col+j]
				m.inter, m.skip, m.size = b.inter, b.skip, b.size
			}
		}
		if len(list) > 1 {
			st.want = w.mod
		}
		steps = append(steps, st)
	}
	br := k.Start()
	if c.Tracing() {
		for _, b := range list {
			c.Note("block size %d (%dx%d) at row %d, column %d of %dx%d; above available %v, left available %v; inter %v, skip %v, lossless %v, transform mode %d", b.size, 1<<uint(blocks[b.size][0]), 1<<uint(blocks[b.size][1]), b.row, b.col, b.rows, b.cols, b.availU, b.availL, b.inter, b.skip, b.lossless, b.mode)
		}
		c.Note("coded: %v", k.Log)
	}
	for n, b := range list {
		s.MiSize, s.MiRow, s.MiCol, s.AvailU, s.AvailL, s.MiRows, s.MiCols = b.size, b.row, b.col, b.availU, b.availL, b.rows, b.cols
		t.IsInter, t.Skip, t.Lossless = b2i(b.inter), b2i(b.skip), b.lossless
		t.TxSize = -1
		uh := uncompressedheader.UncompressedHeader{}
		uh.TxMode = b.mode
		c.Steps++
		if e := mc.Catch(func() { tilegroup.VerifReadBlockTxSize(t, br, s, uh) }); e != nil {
			return mc.Failf("panic", "reading the transform sizes: %v", e)
		}
		want := &w.mod
		if len(list) > 1 {
			want = &steps[n].want
		}
		if t.TxSize != steps[n].last {
			return mc.Failf("TxSize", "block %d: transform size %d, want %d", n, t.TxSize, steps[n].last)
		}
		v, h := 1<<uint(blocks[b.size][0]-2), 1<<uint(blocks[b.size][1]-2)
		for i := max(0, b.row-2); i < min(64, b.row+h+2); i++ {
			for j := max(0, b.col-2); j < min(64, b.col+v+2); j++ {
				if i >= b.rows && i >= b.row+h || j >= b.cols && j >= b.col+v {
					continue
				}
				in := i >= b.row && i < b.row+h && j >= b.col && j < b.col+v
				if (i >= b.rows || j >= b.cols) && in {
					continue // outside the frame: never looked at
				}
				if g := t.InterTxSizes[i][j]; g != want[i][j].tx {
					return mc.Failf("InterTxSizes", "block %d: transform at row %d, column %d (block at %d, %d) is %d, want %d", n, i, j, b.row, b.col, g, want[i][j].tx)
				}
			}
		}
		for i := 0; i < h; i++ {
			for j := 0; j < v; j++ {
				t.IsInters[b.row+i][b.col+j], t.Skips[b.row+i][b.col+j], s.MiSizes[b.row+i][b.col+j] = b2i(b.inter), b2i(b.skip), b.size
			}
		}
	}
	return k.Check(br)
}

// sides: kinds of neighbours.
var kinds = []cell{
	{false, false, 15, 0}, {false, true, 15, 1}, {false, false, 15, 2}, {false, true, 0, 3}, {false, false, 0, 4},
	{true, true, 0, 4}, {true, true, 3, 4}, {true, true, 6, 0}, {true, true, 9, 0}, {true, true, 12, 0}, {true, true, 15, 0},
	{true, false, 15, 0}, {true, false, 0, 1}, {true, false, 15, 2}, {true, false, 0, 3}, {true, false, 0, 4},
	{false, false, 15, 13}, {false, false, 15, 14}, {true, true, 10, 14}, {true, true, 11, 13}, {true, false, 10, 5}, {true, false, 11, 6},
}

func (w *work) clear() {
	for i := range w.mod {
		for j := range w.mod[i] {
			w.set(i, j, cell{i%2 == 0, j%2 == 0, 7, 5 + (i+j)%2})
		}
	}
}

func (w *work) around(b *block, a1, a2, l1, l2 cell) {
	v, h := 1<<uint(blocks[b.size][0]-2), 1<<uint(blocks[b.size][1]-2)
	for i := 0; i < v; i++ {
		x := a1
		if i&1 == 1 || i >= 8 {
			x = a2
		}
		w.set(b.row-1, b.col+i, x)
	}
	for i := 0; i < h; i++ {
		x := l1
		if i&1 == 1 || i >= 8 {
			x = l2
		}
		w.set(b.row+i, b.col-1, x)
	}
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	r.Explore(
		mc.Scenario{Name: "tx_depth", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			w.clear()
			b := &block{size: c.All(22), row: 16, col: 32 - 16*c.Pick(2, 1), rows: 64, cols: 64, mode: 2 - c.All(2)}
			b.inter, b.skip, b.lossless = c.All(2) == 1, c.All(2) == 1, c.All(2) == 1
			if b.inter && !b.skip {
				return nil
			}
			b.availU, b.availL = c.All(2) == 1, c.All(2) == 1
			a, l := kinds[c.All(len(kinds))], kinds[c.All(len(kinds))]
			w.around(b, a, kinds[4], l, kinds[0])
			b.depth = func() int { return c.All(3) }
			return w.decode(c, b)
		}, Bound: 1},
		mc.Scenario{Name: "trees", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			w.clear()
			b := &block{size: c.All(22), row: 16, col: 32, rows: 64, cols: 64, mode: 2 - c.Pick(2, 1), inter: true}
			b.lossless = c.Pick(2, 1) == 1
			b.availU, b.availL = c.Pick(2, 1) == 0, c.Pick(2, 1) == 0
			ks := []int{0, 2, 4, 6, 9, 13}
			if th {
				ks = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 19, 20}
			}
			a, l := kinds[ks[c.All(len(ks))]], kinds[ks[c.All(len(ks))]]
			a2, l2 := a, l
			if c.All(2) == 1 {
				a2, l2 = kinds[2], kinds[7]
			}
			w.around(b, a, a2, l, l2)
			n := 0
			b.split = func(int) int {
				n++
				if b.size > 12 && b.size < 16 && n > 5 {
					return c.Pick(2, 1)
				}
				return c.All(2)
			}
			return w.decode(c, b)
		}, Bound: 1},
		mc.Scenario{Name: "frame edges", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			w.clear()
			b := &block{size: 1 + c.All(21), row: 16, col: 16, mode: 2, inter: true, availU: true, availL: true}
			v, h := 1<<uint(blocks[b.size][0]-2), 1<<uint(blocks[b.size][1]-2)
			b.rows, b.cols = 16+1+c.All(h), 16+1+c.All(v)
			k := c.Pick(3, 1)
			w.around(b, kinds[k], kinds[4-k], kinds[2*k], kinds[3])
			n := 0
			b.split = func(int) int {
				n++
				if n > 5 {
					return c.Pick(2, 1)
				}
				return c.All(2)
			}
			return w.decode(c, b)
		}, Bound: 1},
		mc.Scenario{Name: "two blocks", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			w.clear()
			mk := func(size, row, col int) *block {
				b := &block{size: size, row: row, col: col, rows: 64, cols: 64, mode: 2, availU: true, availL: true}
				switch c.All(4) {
				case 0:
					b.inter = true
				case 1:
					b.inter, b.skip = true, true
				case 2:
					b.skip = true
				}
				n := 0
				b.depth = func() int { return c.All(3) }
				b.split = func(d int) int {
					n++
					if n <= 2 {
						return c.All(2)
					}
					return c.Pick(2, 1)
				}
				return b
			}
			const o = 2
			a := mk(c.All(22), o, o)
			v, h := 1<<uint(blocks[a.size][0]-2), 1<<uint(blocks[a.size][1]-2)
			w.around(a, kinds[2], kinds[9], kinds[7], kinds[3])
			var b *block
			sizes := []int{1, 3, 5, 6, 10, 12, 17, 20}
			if th {
				sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21}
			}
			size := sizes[c.All(len(sizes))]
			if c.All(2) == 0 {
				b = mk(size, o, o+v)
			} else {
				b = mk(size, o+h, o)
			}
			return w.decode(c, a, b)
		}, Bound: b2i(th)},
	)
	r.Bound("22 sizes x inter, skip, lossless and mode x %d^2 kinds of neighbours x availability x every depth; every division of a transform of inter blocks (for more than 64x64 with at most one departure past the first) x mixed neighbours; every part of a block inside the frame; pairs of blocks beside or below each other", len(kinds))
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
