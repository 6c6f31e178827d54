//go:build !noshim

// C40: the traversal of a tile.
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

// width and height of the block sizes, in units of 4 samples.
var wide = []int{1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16}
var high = []int{1, 2, 1, 2, 4, 2, 4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4}

func size(w, h int) int {
	for i := range wide {
		if wide[i] == w && high[i] == h {
			return i
		}
	}
	panic(fmt.Sprintf("no block of %dx%d", w, h))
}

const n = 64

type block struct{ r, c, size int }

type tile struct {
	rows, cols int    // of the frame
	area       [4]int // row start, end, column start, end
	sb         int    // superblock size in units of 4 samples
	deltas     bool
}

type work struct {
	t     *tilegroup.TileGroup
	s     *state.State
	k     *sym.Coder
	sizes [n][n]int
	got   []block
	x     tile
	first bool // no superblock of the tile has been seen
	fail  *mc.Fail
}

var now sync.Map

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.k = sym.New(w.s, "PartitionW8", "PartitionW16", "PartitionW32", "PartitionW64", "PartitionW128")
	now.Store(w.t, w)
	c.Local["w"] = w
	return w
}

// block stands in for decoding a block.
func stand(t *tilegroup.TileGroup, args ...interface{}) {
	v, _ := now.Load(t)
	w := v.(*work)
	var is []int
	for _, a := range args {
		if i, ok := a.(int); ok {
			is = append(is, i)
		}
	}
	r, c, z := is[0], is[1], is[2]
	w.got = append(w.got, block{r, c, z})
	if len(w.got) > 5000 || r < 0 || c < 0 || z < 0 || z >= len(wide) {
		panic("blocks without end")
	}
	s := w.s
	if a := w.x.area; w.fail == nil && (r-a[0])%w.x.sb == 0 && (c-a[2])%w.x.sb == 0 {
		w.begin(r, c)
	}
	for y := r; y < r+high[z] && y < n; y++ {
		for x := c; x < c+wide[z] && x < n; x++ {
			s.MiSizes[y][x] = z
		}
	}
	s.AvailU, s.AvailL, s.MiRow, s.MiCol, s.MiSize = !s.AvailU, !s.AvailL, r, c, z
}

// begin checks what a superblock starts with, and spoils it.
func (w *work) begin(r, c int) {
	t, s := w.t, w.s
	if s.ReadDeltas != w.x.deltas {
		w.fail = mc.Failf("read deltas", "superblock at %d,%d: deltas are read: %v, want %v", r, c, s.ReadDeltas, w.x.deltas)
	}
	s.ReadDeltas = !w.x.deltas
	for y := 0; y < w.x.sb; y += 16 {
		for x := 0; x < w.x.sb; x += 16 {
			if s.Cdef.CdefIdx[r+y][c+x] != -1 {
				w.fail = mc.Failf("cdef", "superblock at %d,%d: the index of %d,%d is %d, want -1", r, c, r+y, c+x, s.Cdef.CdefIdx[r+y][c+x])
			}
			s.Cdef.CdefIdx[r+y][c+x] = 3
		}
	}
	if c == w.x.area[2] {
		for p := 0; p < 3; p++ {
			for i := w.x.area[0]; i < w.x.area[1]; i++ {
				if t.LeftLevelContext[p][i] != 0 || t.LeftDcContext[p][i] != 0 || t.LeftSegPredContext[i] != 0 {
					w.fail = mc.Failf("left", "superblock at %d,%d: left contexts of plane %d are not cleared at %d", r, c, p, i)
				}
			}
		}
	}
	for p := 0; p < 3; p++ {
		for i := w.x.area[0]; i < w.x.area[1]; i++ {
			t.LeftLevelContext[p][i], t.LeftDcContext[p][i], t.LeftSegPredContext[i] = 1, 1, 1
		}
	}
	if w.first {
		w.first = false
		for p := 0; p < 3; p++ {
			for i := w.x.area[2]; i < w.x.area[3]; i++ {
				if t.AboveLevelContext[p][i] != 0 || t.AboveDcContext[p][i] != 0 || t.AboveSegPredContext[i] != 0 {
					w.fail = mc.Failf("above", "above contexts of plane %d are not cleared at %d", p, i)
				}
				t.AboveLevelContext[p][i], t.AboveDcContext[p][i] = 1, 1
			}
			for i := 0; i < 2; i++ {
				if t.RefSgrXqd[p][i] != []int{-32, 31}[i] {
					w.fail = mc.Failf("sgr", "self-guided reference %d of plane %d is %d", i, p, t.RefSgrXqd[p][i])
				}
				t.RefSgrXqd[p][i] = 77
				for j := 0; j < 3; j++ {
					if t.RefLrWiener[p][i][j] != []int{3, -7, 15}[j] {
						w.fail = mc.Failf("wiener", "Wiener reference %d of pass %d of plane %d is %d", j, i, p, t.RefLrWiener[p][i][j])
					}
					t.RefLrWiener[p][i][j] = 77
				}
			}
		}
		for i := w.x.area[2]; i < w.x.area[3]; i++ {
			t.AboveSegPredContext[i] = 1
		}
		for i, v := range s.DeltaLF {
			if v != 0 {
				w.fail = mc.Failf("delta lf", "loop filter delta %d is %d", i, v)
			}
			s.DeltaLF[i] = 7
		}
		for y := w.x.area[0]; y < w.x.area[1]; y++ {
			for x := w.x.area[2]; x < w.x.area[3]; x++ {
				if s.RefFrames[y][x][0] > 0 {
					w.fail = mc.Failf("written", "block %d,%d of the tile counts as decoded before any was", y, x)
				}
				s.RefFrames[y][x][0] = 1
			}
		}
	}
	// The flags of blocks decoded: those above and to the left are, as far as the tile goes; none inside.
	for p := 0; p < 3; p++ {
		sub := 0
		if p > 0 {
			sub = 1
		}
		z := w.x.sb >> uint(sub)
		for y := -1; y <= z; y++ {
			for x := -1; x <= z; x++ {
				want := y < 0 && x < (w.x.area[3]-c)>>uint(sub) || x < 0 && y >= 0 && y < (w.x.area[1]-r)>>uint(sub)
				if x < 0 && y == z {
					want = false
				}
				if g := s.BlockDecoded[p][y+1][x+1]; g != want && w.fail == nil {
					w.fail = mc.Failf("decoded flags", "superblock at %d,%d of a tile of %v, plane %d: flag of %d,%d is %v, want %v", r, c, w.x.area, p, y, x, g, want)
				}
				s.BlockDecoded[p][y+1][x+1] = !want
			}
		}
	}
}

// run encodes the tile. pick chooses the partition of a block, or whether to split if it crosses the frame's edge.
func (w *work) run(pick func(r, c, bs, options int) int) (want []block) {
	k, x := w.k, &w.x
	put := func(r, c, wd, h int) {
		z := size(wd, h)
		want = append(want, block{r, c, z})
		for i := r; i < r+h && i < n; i++ {
			for j := c; j < c+wd && j < n; j++ {
				w.sizes[i][j] = z
			}
		}
	}
	var part func(r, c, bs int)
	part = func(r, c, bs int) {
		if r >= x.rows || c >= x.cols {
			return
		}
		h, q := bs/2, bs/4
		rows, cols := r+h < x.rows, c+h < x.cols
		l2 := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[bs]
		name := "PartitionW" + fmt.Sprint(bs*4)
		ctx := 0
		if r > x.area[0] && wide[w.sizes[r-1][c]] < bs {
			ctx++
		}
		if c > x.area[2] && high[w.sizes[r][c-1]] < bs {
			ctx += 2
		}
		p := 3
		switch {
		case bs == 1:
			p = 0
		case rows && cols:
			p = pick(r, c, bs, []int{0, 4, 10, 10, 10, 8}[l2])
			k.Sym(name, p, ctx)
		case cols || rows:
			split := pick(r, c, bs, 2)
			alike := []int{2, 3, 4, 6, 7, 9} // VERT, SPLIT, HORZ_A, VERT_A, VERT_B, VERT_4
			p = 1
			if rows {
				p = 2
				alike = []int{1, 3, 4, 5, 6, 8} // HORZ, SPLIT, HORZ_A, HORZ_B, VERT_A, HORZ_4
			}
			sum := 0
			for i, a := range alike {
				if i == 5 && bs == 32 {
					continue
				}
				sum += k.Prob(name, a, ctx)
			}
			k.Once("split"+name, sum, split)
			if split == 1 {
				p = 3
			}
		}
		switch p {
		case 0:
			put(r, c, bs, bs)
		case 1:
			put(r, c, bs, h)
			if rows {
				put(r+h, c, bs, h)
			}
		case 2:
			put(r, c, h, bs)
			if cols {
				put(r, c+h, h, bs)
			}
		case 3:
			if bs == 2 {
				for i := 0; i < 4; i++ {
					put(r+i/2, c+i%2, 1, 1)
				}
				return
			}
			part(r, c, h)
			part(r, c+h, h)
			part(r+h, c, h)
			part(r+h, c+h, h)
		case 4:
			put(r, c, h, h)
			put(r, c+h, h, h)
			put(r+h, c, bs, h)
		case 5:
			put(r, c, bs, h)
			put(r+h, c, h, h)
			put(r+h, c+h, h, h)
		case 6:
			put(r, c, h, h)
			put(r+h, c, h, h)
			put(r, c+h, h, bs)
		case 7:
			put(r, c, h, bs)
			put(r, c+h, h, h)
			put(r+h, c+h, h, h)
		case 8:
			for i := 0; i < 4; i++ {
				if r+q*i < x.rows {
					put(r+q*i, c, bs, q)
				}
			}
		case 9:
			for i := 0; i < 4; i++ {
				if c+q*i < x.cols {
					put(r, c+q*i, q, bs)
				}
			}
		}
	}
	for r := x.area[0]; r < x.area[1]; r += x.sb {
		for c := x.area[2]; c < x.area[3]; c += x.sb {
			part(r, c, x.sb)
		}
	}
	return
}

func check(c *mc.Ch, x tile, pick func(r, c, bs, options int) int) *mc.Fail {
	w := get(c)
	s, k := w.s, w.k
	w.x, w.got, w.first, w.fail = x, w.got[:0], true, nil
	k.Reset()
	k.Trace = c.Tracing()
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			// what is left from other tiles and frames
			s.MiSizes[i][j] = 0
			s.RefFrames[i][j][0] = 1
			if (i+j)&1 == 1 {
				s.MiSizes[i][j] = 15
			}
			w.sizes[i][j] = -1
		}
	}
	s.Cdef.CdefIdx = nil
	s.MiRows, s.MiCols = x.rows, x.cols
	s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = x.area[0], x.area[1], x.area[2], x.area[3]
	s.ReadDeltas = !x.deltas
	s.DeltaLF = [4]int{1, 2, 3, 4}
	want := w.run(pick)
	b := k.Start()
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: x.sb == 32}
	sh.ColorConfig.NumPlanes, sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = 3, true, true
	uh := uncompressedheader.UncompressedHeader{DeltaQPresent: x.deltas}
	uh.FrameRestorationType = [3]int{}
	c.Steps++
	c.Inner++
	desc := func() string {
		return fmt.Sprintf("tile %v of a frame of %dx%d, superblocks of %d: %v", x.area, x.rows, x.cols, x.sb*4, k.Log)
	}
	if e := mc.Catch(func() { tilegroup.VerifDecodeTile(w.t, b, s, sh, uh) }); e != nil {
		return mc.Failf("panic", "%s: %v", desc(), e)
	}
	for i := 0; i < len(want) || i < len(w.got); i++ {
		if i >= len(want) {
			return mc.Failf("blocks", "%s: one more block: %v", desc(), w.got[i])
		}
		if i >= len(w.got) || want[i] != w.got[i] {
			g := "none"
			if i < len(w.got) {
				g = fmt.Sprint(w.got[i])
			}
			return mc.Failf("blocks", "%s: block %d (row, column, size) is %s, want %v", desc(), i, g, want[i])
		}
	}
	if w.fail != nil {
		return w.fail
	}
	return k.Check(b)
}

func main() {
	r := mc.Start()
	if os.Getenv("VERIF_SEAMS_MISSING") != "" {
		r.Assume("NOT EXPLORED: the decoding of a block was not found under the name the check knows")
		r.Finish()
	}
	tilegroup.VerifStub["decodeBlock"] = stand
	thorough := r.Thorough()
	deep := 0
	if thorough {
		deep = 2
	}
	align := func(v, sb int) int { return v }
	departures := func(c *mc.Ch) func(r, q, bs, options int) int {
		return func(r, q, bs, options int) int { return c.Pick(options, 1) }
	}
	r.Explore(
		mc.Scenario{Name: "one superblock at the frame's edge", Bound: 2 + deep, Run: func(c *mc.Ch) *mc.Fail {
			sb := 16 << uint(c.All(2))
			rows, cols := 2+2*c.All(sb/2), 2+2*c.All(sb/2)
			c.Note("superblock %d, frame %dx%d", sb*4, rows, cols)
			return check(c, tile{rows, cols, [4]int{0, align(rows, sb), 0, align(cols, sb)}, sb, false}, departures(c))
		}},
		mc.Scenario{Name: "partitions within partitions", Bound: 3 + deep, Run: func(c *mc.Ch) *mc.Fail {
			sb := 16 << uint(c.All(2))
			c.Note("superblock %d", sb*4)
			return check(c, tile{sb, sb, [4]int{0, sb, 0, sb}, sb, true}, departures(c))
		}},
		mc.Scenario{Name: "tiles", Bound: 2, Run: func(c *mc.Ch) *mc.Fail {
			sb := 16 << uint(c.All(2))
			count := 64 / sb
			r0, c0 := sb*c.All(count), sb*c.All(count)
			h, w := 1+c.All(2), 1+c.All(2)
			cutR, cutC := 2*c.All(3), 2*c.All(3)
			r1, c1 := r0+h*sb-cutR, c0+w*sb-cutC
			if r1 > 64 || c1 > 64 {
				return nil
			}
			rows, cols := r1, c1
			if cutR == 0 {
				rows = 64
			}
			if cutC == 0 {
				cols = 64
			}
			c.Note("superblock %d, tile %d..%d, %d..%d of %dx%d", sb*4, r0, r1, c0, c1, rows, cols)
			return check(c, tile{rows, cols, [4]int{r0, r1, c0, c1}, sb, (r0+c0)&16 == 0}, departures(c))
		}},
		mc.Scenario{Name: "textures next to each other", Run: func(c *mc.Ch) *mc.Fail {
			// Each of three superblocks is split down to a size and then partitioned in one way.
			sb := 16
			if thorough {
				sb <<= uint(c.All(2))
			}
			var tex [3][2]int
			for i := range tex {
				l := 0
				for z := sb; z > 2; z /= 2 {
					l++
				}
				tex[i][0] = sb >> uint(c.All(l+1))
				o := 10
				if tex[i][0] == 2 {
					o = 4
				} else if tex[i][0] == 32 {
					o = 8
				}
				tex[i][1] = c.All(o)
			}
			c.Note("textures %v", tex)
			return check(c, tile{2 * sb, 2 * sb, [4]int{0, 2 * sb, 0, 2 * sb}, sb, false}, func(r, q, bs, options int) int {
				i := r/sb*2 + q/sb - 1
				if i < 0 {
					return 0
				}
				if bs > tex[i][0] {
					return 3
				}
				if bs == tex[i][0] {
					return tex[i][1]
				}
				return 0
			})
		}},
	)
	r.Bound("superblocks of 64 and 128 alone in frames of every even number of 4x4 rows and columns, with at most %d choices other than the first anywhere in the partition tree; whole superblocks with at most %d; tiles of 1..2x1..2 superblocks everywhere in a grid of 64x64 units, cut by the frame's edge or not, with at most 2; all combinations of three neighbouring superblocks each split evenly to a size and then partitioned in one way", 2+deep, 3+deep)
	r.Assume("the decoding of a block is replaced with recording its place and size")
	r.Finish()
}
